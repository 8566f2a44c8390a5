-------------------------------- MODULE Geo --------------------------------
(* Geometry of meshes with integer vertices, decided in exact integer        *)
(* arithmetic.  The library's reals arrive as fixed-point numbers (1000 x,   *)
(* rounded); each clause states how far rounding alone can carry them.       *)
EXTENDS Mesh

K == 1000
Big == 5000000                                   \* anything beyond is not a value the library may return here
A1(x) == IF x < 0 THEN -x ELSE x
Sane(v) == v \in (-Big)..Big
SaneP(p) == \A j \in 1..Len(p) : Sane(p[j])
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
RECURSIVE SumOver(_, _)                            \* sum of f[x] over a set
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* v (fixed point) is num/den up to one unit
Is(v, num, den) == Sane(v) /\ A1(den * v - K * num) <= den
IsT(v, num, den, tol) == Sane(v) /\ A1(den * v - K * num) <= den * tol

\* floor(sqrt n), then three decimals by long-hand extraction (no intermediate exceeds 32 bits)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
RECURSIVE Digits(_, _, _)
Digits(s, r, n) == IF n = 0 THEN s ELSE
   LET d == CHOOSE x \in 0..9 : (20*s + x) * x <= 100*r /\ (20*s + x + 1) * (x + 1) > 100*r IN Digits(10*s + d, 100*r - (20*s + d)*d, n - 1)
SqrtD(n, dig) == LET s == ISqrt(n, 0, 46340) IN Digits(s, n - s*s, dig)
SqrtK(n) == SqrtD(n, 3)

\* ---- vectors (all padded to three components) ----
Pad(p) == [j \in 1..3 |-> IF j <= Len(p) THEN p[j] ELSE 0]
Sub3(a, b) == [j \in 1..3 |-> a[j] - b[j]]
Scl(c, a) == [j \in 1..3 |-> c * a[j]]
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Trip(a, b, c) == Dot(a, Cross(b, c))
L1(a) == A1(a[1]) + A1(a[2]) + A1(a[3])
Sq(a) == Dot(a, a)
Zero3 == <<0, 0, 0>>

Pts(M, k, id) == IF k = 0 THEN << Pad(Point(M, id)) >> ELSE LET e == Elem(M, k, id) IN [j \in 1..Len(e.v) |-> Pad(Point(M, e.v[j]))]
Integral(M) == \A x \in M.V : \A j \in 1..Len(x.p) : x.p[j] \in -64..64

\* ---- shape of an element: valid = non-degenerate, convex, planar facets ----
QuadOK(a, b, c, d) ==        \* corners in reference (pixel) order; the boundary runs a b d c
  LET n1 == Cross(Sub3(b, a), Sub3(d, b))  n2 == Cross(Sub3(d, b), Sub3(c, d))
      n3 == Cross(Sub3(c, d), Sub3(a, c))  n4 == Cross(Sub3(a, c), Sub3(b, a)) IN
  /\ Trip(Sub3(b, a), Sub3(c, a), Sub3(d, a)) = 0
  /\ n1 # Zero3 /\ n2 # Zero3 /\ n3 # Zero3 /\ n4 # Zero3
  /\ Dot(n1, n2) > 0 /\ Dot(n1, n3) > 0 /\ Dot(n1, n4) > 0
HexOK(p) ==
  /\ \A j \in 1..6 : LET f == SubIdx("hex", 2)[j] IN QuadOK(p[f[1]], p[f[2]], p[f[3]], p[f[4]])
  /\ \A j \in 1..6 : LET f == SubIdx("hex", 2)[j]
                         n == Cross(Sub3(p[f[2]], p[f[1]]), Sub3(p[f[3]], p[f[1]]))
                         s == { Dot(n, Sub3(p[i], p[f[1]])) : i \in (1..8) \ Range(f) } IN
                     (\A x \in s : x > 0) \/ (\A x \in s : x < 0)
Valid(t, p) ==
  CASE t = "vertex" -> TRUE
    [] t = "line" -> p[1] # p[2]
    [] t = "tri" -> Cross(Sub3(p[2], p[1]), Sub3(p[3], p[1])) # Zero3
    [] t = "quad" -> QuadOK(p[1], p[2], p[3], p[4])
    [] t = "tet" -> Trip(Sub3(p[2], p[1]), Sub3(p[3], p[1]), Sub3(p[4], p[1])) # 0
    [] t = "hex" -> HexOK(p)
ValidMesh(M) == Integral(M) /\ \A l \in 1..D : \A e \in M.E[l] : Valid(LTy(l), Pts(M, l, e.i))

\* ---- measures: an element is either  num/den  exactly, or a sum of  sqrt(n)/2  resp. sqrt(n) ----
TriN(a, b, c) == Sq(Cross(Sub3(b, a), Sub3(c, a)))                       \* (2 area)^2
TetV(a, b, c, d) == A1(Trip(Sub3(b, a), Sub3(c, a), Sub3(d, a)))         \* 6 volume
HexV(p) ==       \* 6 volume, as pyramids over the facets with apex p[1]
  LET part(j) == LET f == SubIdx("hex", 2)[j] IN TetV(p[1], p[f[1]], p[f[2]], p[f[3]]) + TetV(p[1], p[f[2]], p[f[4]], p[f[3]]) IN
  part(1) + part(2) + part(3) + part(4) + part(5) + part(6)
\* 1000 * measure as an interval [lo, hi]
VolLo(t, p) ==
  CASE t = "vertex" -> K
    [] t = "line" -> SqrtK(Sq(Sub3(p[2], p[1])))
    [] t = "tri" -> SqrtK(TriN(p[1], p[2], p[3])) \div 2
    [] t = "quad" -> (SqrtK(TriN(p[1], p[2], p[3])) + SqrtK(TriN(p[2], p[4], p[3]))) \div 2
    [] t = "tet" -> (K * TetV(p[1], p[2], p[3], p[4])) \div 6
    [] t = "hex" -> (K * HexV(p)) \div 6
VolOK(t, p, v) == Sane(v) /\ v - VolLo(t, p) \in -1..2
\* integer weight of an element, for centroids of meshes (one scale per type)
Weight(t, p) ==
  CASE t = "line" -> SqrtK(Sq(Sub3(p[2], p[1])))
    [] t = "tri" -> SqrtK(TriN(p[1], p[2], p[3]))
    [] t = "quad" -> SqrtK(TriN(p[1], p[2], p[3])) + SqrtK(TriN(p[2], p[4], p[3]))
    [] t = "tet" -> TetV(p[1], p[2], p[3], p[4])
    [] t = "hex" -> HexV(p)

Para(t, p) ==    \* the vertex average is the centroid
  CASE t = "quad" -> Sub3(p[2], p[1]) = Sub3(p[4], p[3])
    [] t = "hex" -> /\ Sub3(p[2], p[1]) = Sub3(p[4], p[3]) /\ Sub3(p[2], p[1]) = Sub3(p[6], p[5]) /\ Sub3(p[2], p[1]) = Sub3(p[8], p[7])
                    /\ Sub3(p[3], p[1]) = Sub3(p[7], p[5])
    [] OTHER -> TRUE
Rect(t, p) ==    \* has a circumcenter that is the vertex average
  CASE t = "quad" -> Para(t, p) /\ Dot(Sub3(p[2], p[1]), Sub3(p[3], p[1])) = 0
    [] t = "hex" -> Para(t, p) /\ Dot(Sub3(p[2], p[1]), Sub3(p[3], p[1])) = 0 /\ Dot(Sub3(p[2], p[1]), Sub3(p[5], p[1])) = 0 /\ Dot(Sub3(p[3], p[1]), Sub3(p[5], p[1])) = 0
    [] OTHER -> TRUE
CenOK(t, p, c) ==
  LET n == Len(p)  q == Pad(c) IN
  /\ SaneP(c)
  /\ Para(t, p) => \A j \in 1..3 : Is(q[j], SumF([i \in 1..n |-> p[i][j]], n), n)
CircOK(t, p, c) ==     \* equally far from all vertices, in the element's plane
  LET q == Pad(c)  u(i) == Sub3(p[i], p[1]) IN
  /\ SaneP(c)
  /\ Rect(t, p) =>
       /\ \A i \in 2..Len(p) : A1(2 * Dot(q, u(i)) - K * (Sq(p[i]) - Sq(p[1]))) <= L1(u(i)) + 2
       /\ t \in {"tri", "quad"} => LET n == Cross(u(2), u(3)) IN A1(Dot(q, n) - K * Dot(p[1], n)) <= L1(n) + 2
       /\ t = "line" => \A j \in 1..3 : Is(q[j], p[1][j] + p[2][j], 2)
NormOK(t, p, nv) ==
  nv # <<>> =>
    IF t = "line" THEN nv = << -K * (p[2][2] - p[1][2]), K * (p[2][1] - p[1][1]) >>
    ELSE nv = Scl(K, Cross(Sub3(p[2], p[1]), Sub3(p[3], p[1])))

\* a sum of n values, each known to one unit
SumOK(v, want, n) == Sane(v) /\ A1(v - want) <= 2 * n + 2
MeshCenOK(M, ids, c) ==
  LET t == LTy(D)
      w == [i \in ids |-> Weight(t, Pts(M, D, i))]
      W == SumOver(w, ids)
      n == NVert(T)
      mom(j) == SumOver([i \in ids |-> w[i] * SumF([a \in 1..n |-> Pts(M, D, i)[a][j]], n)], ids)
      q == Pad(c) IN
  ids # {} /\ W > 0 /\ (\A i \in ids : Para(t, Pts(M, D, i))) =>
    SaneP(c) /\ \A j \in 1..3 : A1(q[j] - 10 * ((100 * mom(j)) \div (W * n))) <= 30
Lo(M, j) == LET S == { Pad(x.p)[j] : x \in M.V } IN CHOOSE a \in S : \A b \in S : a <= b
Hi(M, j) == LET S == { Pad(x.p)[j] : x \in M.V } IN CHOOSE a \in S : \A b \in S : a >= b

HostSurf(M, H, v) ==
  MustFacet(M, H) = MayFacet(M, H) =>
    LET F == { f \in M.E[D-1] : VS(f) \in MustFacet(M, H) } IN
    SumOK(v, SumOver([f \in F |-> VolLo(LTy(D-1), Pts(M, D-1, f.i))], F), Cardinality(F))
HostSurf1(M, H, v) ==      \* cells are lines: the boundary consists of vertices
  MustFacet(M, H) = MayFacet(M, H) => v = K * Cardinality(MustFacet(M, H))
Surf(M, H, v) == IF D = 1 THEN HostSurf1(M, H, v) ELSE HostSurf(M, H, v)

\* the functions that take an accessor for the points, called with one that doubles every point and scaled back
AltP(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Sane(x[j]) => A1(x[j] - y[j]) <= 1
AltOK(e) == /\ A1(e.alt[1] - e.vol) <= 1 /\ A1(e.alt[2] - e.surf) <= 1
            /\ AltP(e.cen, e.alt[3]) /\ AltP(e.cc, e.alt[4])

MeasOK(ev, M) ==
  LET r == ev.r IN
  ev.x = 0 /\ (ValidMesh(M) =>
    /\ \A j \in 1..Len(r.e) : LET e == r.e[j]  p == Pts(M, e.k, e.i)  t == LTy(e.k) IN
         /\ VolOK(t, p, e.vol)
         /\ CenOK(t, p, e.cen)
         /\ e.k > 0 => CircOK(t, p, e.cc)
         /\ NormOK(t, p, e.nv)
         /\ AltOK(e)
         /\ e.k = 1 => e.surf = 2 * K
         /\ e.k > 1 => LET b == Elem(M, e.k, e.i).b[e.k-1] IN
              SumOK(e.surf, SumF([i \in 1..Len(b) |-> VolLo(LTy(e.k-1), Pts(M, e.k-1, b[i]))], Len(b)), Len(b))
    /\ \A k \in 0..D : { r.e[j].i : j \in { x \in 1..Len(r.e) : r.e[x].k = k } } = Ids(M, k)
    /\ M.E[D] # {} => /\ MeshCenOK(M, Ids(M, D), r.cen) /\ AltP(r.cen, r.mc[1])
                      /\ SumOK(r.vol, SumOver([c \in M.E[D] |-> VolLo(T, Pts(M, D, c.i))], M.E[D]), Cardinality(M.E[D]))
                      /\ Surf(M, Whole(M), r.surf)
    /\ M.V # {} => /\ r.lo = [j \in 1..Len(r.lo) |-> K * Lo(M, j)] /\ r.hi = [j \in 1..Len(r.hi) |-> K * Hi(M, j)]
                   /\ A1(r.size - SqrtK(Sq([j \in 1..3 |-> Hi(M, j) - Lo(M, j)]))) <= 1
    /\ \A j \in 1..Len(r.s) : LET g == SegOf(M, r.s[j].i)  ids == g.e[D+1] IN
         /\ ids # {} => MeshCenOK(M, ids, r.s[j].cen) /\ r.sc[j][1] = r.s[j].i /\ AltP(r.s[j].cen, r.sc[j][2])
         /\ SumOK(r.s[j].vol, SumOver([i \in ids |-> VolLo(T, Pts(M, D, i))], ids), Cardinality(ids))
         /\ Surf(M, g.e, r.s[j].surf))

\* ---- functions of points ----
AngOK(a, b, cs, an) ==     \* cs = 1000 cos(angle), an = 1000 angle
  a # Zero3 /\ b # Zero3 =>
    LET s == SqrtD(Sq(a) * Sq(b), 1) IN          \* 10 |a||b|
    /\ an \in 0..3142
    /\ A1(cs * s - 10 * K * Dot(a, b)) <= s + 2 * K
    /\ (Dot(a, b) = 0 => an \in 1570..1571)
Rank3(a, b, c) == IF Trip(a, b, c) # 0 THEN 3
                  ELSE IF Cross(a, b) # Zero3 \/ Cross(a, c) # Zero3 \/ Cross(b, c) # Zero3 THEN 2
                  ELSE IF a # Zero3 \/ b # Zero3 \/ c # Zero3 THEN 1 ELSE 0
PointOK(ev, gd) ==
  LET P(i) == Pad(SubSeq(ev.a, 2 + 3*i, 1 + 3*i + gd))
      a == P(0)  b == P(1)  c == P(2)  d == P(3)  r == ev.r
      ab == Sub3(b, a)  ac == Sub3(c, a)  ad == Sub3(d, a)
      mx == LET S == { A1(a[j]) : j \in 1..3 } IN CHOOSE x \in S : \A y \in S : y <= x
      ln == SqrtK(Sq(ab)) IN
  /\ ev.x = 0
  /\ r.n1 = K * L1(a) /\ r.ni = K * mx /\ A1(r.n2 - SqrtK(Sq(a))) <= 1 /\ r.n = r.n2
  /\ r.ip = K * Dot(a, b)
  /\ A1(r.s2 - ln) <= 1 /\ A1(r.d - ln) <= 1 /\ A1(A1(r.ss2) - ln) <= 1
  /\ AngOK(a, b, r.cos, r.ang) /\ AngOK(Sub3(a, c), Sub3(b, c), r.cos3, r.ang3)
  /\ r.rk = Rank3(a, b, c)
  /\ \A i \in 1..r.rk : \A j \in 1..r.rk : i # j =>     \* pairwise orthogonal
       LET u == Pad(r.ort[i])  v == Pad(r.ort[j]) IN SaneP(u) /\ SaneP(v) /\ A1(Dot(u, v)) <= L1(u) + L1(v) + 3
  /\ gd = 2 => /\ r.det = K * (a[1]*b[2] - a[2]*b[1])
               /\ Is(r.ss3, Cross(ab, ac)[3], 2) /\ r.s3 \in {r.ss3, -r.ss3, r.ss3 + 1, 1 - r.ss3} /\ r.s3 >= 0
  /\ gd = 3 =>
       /\ r.cross = Scl(K, Cross(a, b))
       /\ r.det = K * Trip(a, b, c)
       /\ A1(2 * r.s3 - SqrtK(Sq(Cross(ab, ac)))) <= 3 /\ A1(r.ss3) = r.s3
       /\ Is(r.ss4, Trip(ab, ac, ad), 6) /\ A1(A1(r.ss4) - r.s4) <= 1 /\ r.s4 >= 0
       /\ LET np == Cross(ab, ac)  nq == Cross(ab, ad) IN
          Sq(np) <= 2000 /\ Sq(nq) <= 2000 => AngOK(np, nq, r.dih, r.dia)
       /\ Trip(ab, ac, ad) # 0 =>
            /\ A1(r.sol[1] - (r.sol[2] + r.sol[3] + r.sol[4])) <= 4           \* solid angles are additive
            /\ A1(r.sol[5] - r.sol[1]) <= 1                                   \* depend on directions only, in any order
            /\ A1(r.sol[6] + r.sol[7] + r.sol[8] + r.sol[9] - 6283) <= 4      \* the octants on one side fill half the sphere
            /\ (Dot(ab, ac) = 0 /\ Dot(ab, ad) = 0 /\ Dot(ac, ad) = 0 => A1(r.sol[1] - 1571) <= 1)
            /\ r.sol[1] \in 0..6283

QueryC15(ev, M, gd) == CASE ev.op = "gm" -> MeasOK(ev, M) [] ev.op = "gp" -> PointOK(ev, gd) [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Distances: a pair of points is closest for two convex sets iff each point *)
(* lies in its set and no vertex of a set is, seen from its point, in the    *)
(* direction of the other point (variational inequality).                    *)
\* an element as a union of simplices
Parts(t, p) ==
  CASE t = "quad" -> { <<p[1], p[2], p[3]>>, <<p[2], p[4], p[3]>> }
    [] t = "hex" -> { <<p[1], p[2], p[4], p[8]>>, <<p[1], p[2], p[6], p[8]>>, <<p[1], p[3], p[4], p[8]>>,
                      <<p[1], p[3], p[7], p[8]>>, <<p[1], p[5], p[6], p[8]>>, <<p[1], p[5], p[7], p[8]>> }
    [] OTHER -> { p }
\* x (fixed point) lies in the simplex s (integer vertices)
InSimplex(x, s) ==
  LET u(i) == Sub3(s[i], s[1])  w == Sub3(x, Scl(K, s[1])) IN
  CASE Len(s) = 1 -> \A j \in 1..3 : A1(w[j]) <= 1
    [] Len(s) = 2 -> LET v == u(2)  c == Cross(v, w) IN
         /\ \A j \in 1..3 : A1(c[j]) <= L1(v) + 1
         /\ Dot(v, w) >= -L1(v) - 1 /\ Dot(v, w) <= K * Sq(v) + L1(v) + 1
    [] Len(s) = 3 -> LET n == Cross(u(2), u(3))
                         side(i, j) == Dot(n, Cross(Sub3(s[j], s[i]), Sub3(x, Scl(K, s[i])))) >= -(L1(n) * L1(Sub3(s[j], s[i]))) - 1 IN
         A1(Dot(n, w)) <= L1(n) + 1 /\ side(1, 2) /\ side(2, 3) /\ side(3, 1)
    [] Len(s) = 4 -> LET sgn(v) == IF Trip(u(2), u(3), u(4)) > 0 THEN v ELSE -v
                         in(i, j, k, o) == LET a == Sub3(s[j], s[i])  b == Sub3(s[k], s[i])  n == Cross(a, b)
                                               side == Dot(n, Sub3(s[o], s[i]))  at == Dot(n, Sub3(x, Scl(K, s[i]))) IN
                                           (IF side > 0 THEN at ELSE -at) >= -L1(n) - 1 IN
         in(1, 2, 3, 4) /\ in(1, 2, 4, 3) /\ in(1, 3, 4, 2) /\ in(2, 3, 4, 1)
InElem(x, t, p) == \E s \in Parts(t, p) : InSimplex(x, s)
\* seen from x, no vertex of the set lies towards y
Turned(x, y, p) == \A i \in 1..Len(p) :
   LET d == Sub3(y, x)  e == Sub3(Scl(K, p[i]), x) IN Dot(d, e) <= L1(d) + L1(e) + 3
LenOK(d, x, y) == LET s == Sub3(x, y) IN Sane(d) /\ d >= 0 /\ d <= 45000 /\ (\A j \in 1..3 : A1(s[j]) <= 26000) /\ A1(d * d - Sq(s)) <= 2 * (d + L1(s)) + 5
\* x, y is a closest pair of the elements with vertices p and q and d its distance
Pair1(t, p, u, q, d, x, y) == InElem(x, t, p) /\ InElem(y, u, q) /\ Turned(x, y, p) /\ Turned(y, x, q) /\ LenOK(d, x, y)
PairOK(t, p, u, q, d, x0, y0) == LET x == Pad(x0)  y == Pad(y0) IN
   SaneP(x) /\ SaneP(y) /\ (Pair1(t, p, u, q, d, x, y) \/ Pair1(t, p, u, q, d, y, x))
\* the same with a query point given in halves
PointPairOK(h, u, q, d, x0, y0) == LET x == Pad(x0)  y == Pad(y0)  g == Scl(500, h)
                                       ok(a, b) == a = g /\ InElem(b, u, q) /\ Turned(b, a, q) /\ LenOK(d, a, b) IN
   SaneP(x) /\ SaneP(y) /\ (ok(x, y) \/ ok(y, x))
Facets(M, keys) == IF D = 1 THEN UNION keys ELSE { f.i : f \in { e \in M.E[D-1] : VS(e) \in keys } }
\* distance to the boundary of a host: attained on one of its boundary facets, and none is closer
BndDist(M, H, r, e) ==     \* e = <<.., d, d', x, y>> from index 1
  LET F == Facets(M, MustFacet(M, H))
      near == { r.e[j] : j \in { x \in 1..Len(r.e) : r.e[x][1] = D-1 /\ r.e[x][2] \in F } } IN
  F # {} /\ MustFacet(M, H) = MayFacet(M, H) =>
    /\ A1(e[1] - e[2]) <= 1
    /\ \A n \in near : e[1] <= n[3] + 1
    /\ \E n \in near : A1(n[3] - e[1]) <= 1
    /\ LenOK(e[1], Pad(e[3]), Pad(e[4]))
    /\ \E n \in near : LET p == Pts(M, D-1, n[2]) IN InElem(Pad(e[3]), LTy(D-1), p) \/ InElem(Pad(e[4]), LTy(D-1), p)
DistOK(ev, M, gd) ==
  LET r == ev.r  h == Pad(SubSeq(ev.a, 2, 1 + gd)) IN
  ev.x = 0 /\ (ValidMesh(M) =>
    /\ \A j \in 1..Len(r.e) : LET e == r.e[j] IN
         /\ PointPairOK(h, LTy(e[1]), Pts(M, e[1], e[2]), e[3], e[5], e[6])
         /\ A1(e[3] - e[4]) <= 1                                          \* symmetric
    /\ \A k \in 0..D : { r.e[j][2] : j \in { x \in 1..Len(r.e) : r.e[x][1] = k } } = Ids(M, k)
    /\ M.E[D] # {} => BndDist(M, Whole(M), r, r.m)
    /\ \A j \in 1..Len(r.s) : LET s == r.s[j] IN BndDist(M, SegOf(M, s[1]).e, r, <<s[2], s[3], s[4], s[5]>>))
LineOK(ev, M) ==
  LET r == ev.r
      dist(a, b) == LET S == { r.l[j][3] : j \in { x \in 1..Len(r.l) : {r.l[x][1], r.l[x][2]} = {a, b} } } IN CHOOSE d \in S : TRUE IN
  ev.x = 0 /\ (ValidMesh(M) =>
    /\ \A j \in 1..Len(r.l) : LET e == r.l[j] IN PairOK("line", Pts(M, 1, e[1]), "line", Pts(M, 1, e[2]), e[3], e[4], e[5])
    /\ ev.op = "gl" =>
       /\ \A j \in 1..Len(r.v) : LET e == r.v[j]  u == Sub3(Pad(e[2]), Pad(e[3]))  d == IF SaneP(u) /\ L1(u) < 30000 THEN SqrtD(Sq(u), 0) ELSE -1 IN
            /\ PairOK("vertex", Pts(M, 0, e[1]), "line", Pts(M, 1, ev.a[2]), d, e[2], e[3])
            /\ PairOK("vertex", Pts(M, 0, e[1]), "line", Pts(M, 1, ev.a[2]), d, e[4], e[5])
       /\ \A j \in 1..Len(r.s) : LET e == r.s[j]  L == SegOf(M, e[1]).e[2] IN
            IF L = {} THEN e[2] = -K /\ e[3] = -K
            ELSE /\ A1(e[2] - e[3]) <= 1
                 /\ \A i \in L : e[2] <= dist(ev.a[2], i) + 1
                 /\ \E i \in L : A1(dist(ev.a[2], i) - e[2]) <= 1
    /\ (ev.op = "gs" /\ D = 2) =>
       \A j \in 1..Len(r.ss) : LET e == r.ss[j]  g == SegOf(M, e[1]).e  h == SegOf(M, e[2]).e
                                   F == Facets(M, MustFacet(M, g))  G == Facets(M, MustFacet(M, h)) IN
         F # {} /\ G # {} /\ MustFacet(M, g) = MayFacet(M, g) /\ MustFacet(M, h) = MayFacet(M, h) =>
           /\ \A a \in F : \A b \in G : e[3] <= dist(a, b) + 1
           /\ \E a \in F : \E b \in G : A1(dist(a, b) - e[3]) <= 1
           /\ LenOK(e[3], Pad(e[4]), Pad(e[5])))
QueryC16(ev, M, gd) == CASE ev.op = "gd" -> DistOK(ev, M, gd) [] ev.op \in {"gl", "gs"} -> LineOK(ev, M) [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Point location: exact signs; the query point is given in halves           *)
Inside(h, p, m) ==      \* p: 3 or 4 vertices; boundary included (m = 0) or not (m = 1).  Result: "in", "out", "skip"
  LET s == [i \in 1..Len(p) |-> Scl(2, p[i])]  w == Sub3(h, s[1])
      u(i) == Sub3(s[i], s[1]) IN
  IF Len(p) = 3 THEN
    LET n == Cross(u(2), u(3))
        on(i, j) == Dot(n, Cross(Sub3(s[j], s[i]), Sub3(h, s[i]))) >= m IN
    IF Dot(n, w) # 0 THEN "skip" ELSE IF on(1, 2) /\ on(2, 3) /\ on(3, 1) THEN "in" ELSE "out"
  ELSE
    LET in(i, j, k, o) == LET n == Cross(Sub3(s[j], s[i]), Sub3(s[k], s[i])) a == Dot(n, Sub3(s[o], s[i])) b == Dot(n, Sub3(h, s[i])) IN
                          IF a > 0 THEN b >= m ELSE b <= -m IN
    IF in(1, 2, 3, 4) /\ in(1, 2, 4, 3) /\ in(1, 3, 4, 2) /\ in(2, 3, 4, 1) THEN "in" ELSE "out"
QueryC17(ev, M, gd) ==
  ev.op = "gi" =>
    LET h == Pad(SubSeq(ev.a, 2, 1 + gd)) IN
    ev.x = 0 /\ (Integral(M) => \A j \in 1..Len(ev.r) : LET e == ev.r[j]  p == Pts(M, e[1], e[2]) IN
      Valid(LTy(e[1]), p) => CASE Inside(h, p, 1) = "in" -> e[3] = 3 [] Inside(h, p, 0) = "in" -> e[3] \in {1, 3} [] Inside(h, p, 0) = "out" -> e[3] = 0 [] OTHER -> TRUE)
=============================================================================
