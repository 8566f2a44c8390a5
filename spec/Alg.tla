-------------------------------- MODULE Alg --------------------------------
(* Derived data: hulls and seed points (C19), accessors and fields (C20),    *)
(* quantity transfer between dimensions (C21), geometric transforms (C22).   *)
EXTENDS Mesh

\* ---- C19: hull extraction.  r = [V, C, S] is the hull the library built ----
DistinctPts(M) == \A x, y \in M.V : x.p = y.p => x = y
VAt(M, p) == { x.i : x \in { y \in M.V : y.p = p } }
OnHull(M, H, k, facets) == { e \in M.E[k] : e.i \in H[k+1] /\ On(M, facets, k, VS(e)) }
Elems(s) == { s[j] : j \in 1..Len(s) }
\* vertex ids of the volume mesh for a hull cell; the hull keeps the points
Back(M, r, c) == [j \in 1..Len(c.v) |-> LET w == { x \in Elems(r.V) : x.i = c.v[j] } IN
                    IF Cardinality(w) # 1 \/ Cardinality(VAt(M, (CHOOSE x \in w : TRUE).p)) # 1 THEN -1
                    ELSE CHOOSE i \in VAt(M, (CHOOSE x \in w : TRUE).p) : TRUE]
HullSet(M, r, cells) == { Back(M, r, c) : c \in cells }
Between(M, H, k, r, cells) ==
  LET got == HullSet(M, r, cells) IN
  /\ Cardinality(got) = Cardinality(cells)
  /\ got \subseteq { e.v : e \in OnHull(M, H, k, MayFacet(M, H)) }
  /\ { e.v : e \in OnHull(M, H, k, MustFacet(M, H)) } \subseteq got
HullOK(M, k, r, segs) ==
  /\ Cardinality(Elems(r.V)) = Len(r.V) /\ Cardinality({ x.p : x \in Elems(r.V) }) = Len(r.V)
  /\ Cardinality({ c.i : c \in Elems(r.C) }) = Len(r.C)
  /\ { x.i : x \in Elems(r.V) } = UNION { Range(c.v) : c \in Elems(r.C) }
  /\ Cardinality(HullSet(M, r, Elems(r.C))) = Len(r.C)
  /\ IF ~segs \/ M.S = {} THEN Between(M, Whole(M), k, r, Elems(r.C))
     ELSE /\ Len(r.S) = Cardinality(M.S) /\ { s.i : s \in Elems(r.S) } = SIds(M)
          /\ \A s \in Elems(r.S) : LET cs == { c \in Elems(r.C) : c.i \in Range(s.c) } IN
               /\ Cardinality(Range(s.c)) = Len(s.c) /\ Cardinality(cs) = Len(s.c)
               /\ IsSet(s.v, UNION { Range(c.v) : c \in cs })
               /\ Between(M, HostOf(M, s.i), k, r, cs)
          /\ \A c \in Elems(r.C) : \E s \in Elems(r.S) : c.i \in Range(s.c)
\* facet-connected components of the cells of a host
Adj(M, H) == [c \in H[D+1] |-> Ngb(M, H, D-1, D, c)]
RECURSIVE Grow(_, _)
Grow(adj, s) == LET t == s \cup UNION { adj[c] : c \in s } IN IF t = s THEN s ELSE Grow(adj, t)
Components(M, H) == LET adj == Adj(M, H) IN { Grow(adj, {c}) : c \in H[D+1] }
VSum(M, c, gd) == LET v == Elem(M, D, c).v
                      RECURSIVE S(_, _) S(j, x) == IF j = 0 THEN 0 ELSE Point(M, v[j])[x] + S(j-1, x)
                  IN [x \in 1..gd |-> S(Len(v), x)]
Simplicial == T \in {"line", "tri", "tet"}
SeedsOK(M, H, pts, gd) ==          \* pts: sequence of points, times the number of vertices of a cell
  LET cc == Components(M, H) IN
  /\ Len(pts) = Cardinality(cc)
  /\ Simplicial =>
       /\ \A c \in cc : \E i \in c : VSum(M, i, gd) \in Range(pts)
       /\ \A p \in Range(pts) : \E i \in H[D+1] : VSum(M, i, gd) = p
Firsts(s, id) == LET RECURSIVE F(_) F(j) == IF j > Len(s) THEN <<>> ELSE (IF s[j][2] = id THEN <<s[j][1]>> ELSE <<>>) \o F(j+1) IN F(1)
QueryC19(ev, M, gd) ==
  CASE ev.op \in {"hb", "hs"} -> (DistinctPts(M) /\ SegClosed(M)) => ev.x = 0 /\ HullOK(M, ev.a[2], ev.r, ev.op = "hs")
    [] ev.op = "hp" -> SegClosed(M) =>
         /\ ev.x = 0
         /\ SeedsOK(M, Whole(M), ev.r.m, gd)
         /\ IF M.S = {} THEN \A j \in 1..Len(ev.r.s) : ev.r.s[j][2] = 0
            ELSE \A j \in 1..Len(ev.r.s) : ev.r.s[j][2] \in SIds(M)
         /\ IF M.S = {} THEN SeedsOK(M, Whole(M), Firsts(ev.r.s, 0), gd)
            ELSE \A g \in M.S : SeedsOK(M, g.e, Firsts(ev.r.s, g.i), gd)
    [] OTHER -> ev.x = 0

\* ---- C20: what was stored through any accessor or field is what every other one reads ----
\* data: set of [m, k, c, i, v]: slot, element level, container kind (0 vector, 1 deque, 2 map), element id, value
FieldWays == {1, 3, 5, 7, 9}
Default == 77
DAt(d, m, k, c) == { x \in d : x.m = m /\ x.k = k /\ x.c = c }
Stored(d, m, k, c, i) == { x.v : x \in { y \in DAt(d, m, k, c) : y.i = i } }
\* dense storage may materialise the elements below the highest one stored so far
Below(d, m, k, c, i) == c < 2 /\ \E x \in DAt(d, m, k, c) : x.i > i
Reads(d, m, k, c, i, none) == LET s == Stored(d, m, k, c, i) IN
  IF s # {} THEN { <<CHOOSE v \in s : TRUE>> }
  ELSE IF Below(d, m, k, c, i) THEN { none, <<0>>, <<Default>> } ELSE { none }
QueryC20(ev, M, d) ==
  /\ ev.x = 0
  /\ ev.op \in {"df", "da"} => ev.r \in Reads(d, ev.a[1], ev.a[2], ev.a[3], ev.a[5], <<>>)
  /\ ev.op = "dr" => ev.r \in Reads(d, ev.a[1], ev.a[2], ev.a[3], ev.a[5], IF ev.a[4] \in FieldWays THEN <<Default>> ELSE <<>>)
  /\ ev.op = "dq" => \A k \in 0..D : \A c \in 0..2 : \A i \in Ids(M, k) :
       LET hit == { j \in 1..Len(ev.r) : ev.r[j][1] = k /\ ev.r[j][2] = c /\ ev.r[j][3] = i } IN
       /\ Cardinality(hit) <= 1
       /\ (IF hit = {} THEN <<>> ELSE <<ev.r[CHOOSE j \in hit : TRUE][4]>>) \in Reads(d, ev.a[1], k, c, i, <<>>)
DataNext(ev, d) ==
  CASE ev.op = "R" -> {}
    [] ev.op = "dw" /\ ev.f = 0 ->
         { x \in d : ~(x.m = ev.a[1] /\ x.k = ev.a[2] /\ x.c = ev.a[3] /\ x.i = ev.a[5]) }
         \cup { [m |-> ev.a[1], k |-> ev.a[2], c |-> ev.a[3], i |-> ev.a[5], v |-> ev.a[6]] }
    [] OTHER -> d

\* ---- C21: quantity transfer.  a = slot, segment (-1: mesh), from, to, source filter (2), destination filter (2), .., modulus of the values ----
Accept(i, m, r) == i % m # r
Adjacent(M, H, from, to, i) ==
  IF from > to THEN Cob(M, H, to, from, i)
  ELSE LET e == Elem(M, to, i) IN IF from = 0 THEN VS(e) ELSE Range(e.b[from])
\* a sequence holds f(x) once for every x of S (equal values as often as they occur)
Bag(q, S, f(_)) == Len(q) = Cardinality(S) /\ \A x \in S : Cardinality({ j \in 1..Len(q) : q[j] = f(x) }) = Cardinality({ y \in S : f(y) = f(x) })
QueryC21(ev, M) ==
  ev.op # "qt" \/ ~SegClosed(M) \/
  LET a == ev.a  H == IF a[2] < 0 THEN Whole(M) ELSE HostOf(M, a[2])
      dst == { i \in H[a[4]+1] : Accept(i, a[7], a[8]) }
      src(i) == { j \in Adjacent(M, H, a[3], a[4], i) : Accept(j, a[5], a[6]) } IN
  /\ ev.x = 0
  /\ Cardinality({ ev.r[j][1] : j \in 1..Len(ev.r) }) = Len(ev.r)
  /\ \A j \in 1..Len(ev.r) : ev.r[j][1] \in dst /\ Bag(ev.r[j][2], src(ev.r[j][1]), LAMBDA s : 7 * (s % a[10]) + 3)
  /\ \A i \in dst : src(i) # {} => \E j \in 1..Len(ev.r) : ev.r[j][1] = i

\* ---- C22: transforms.  a = slot, kind, -, center or translation (3), matrix (9, row major) ----
Moved(a, p) ==
  LET g == Len(p)  f == a[7] IN
  CASE a[2] = 0 -> [x \in 1..g |-> p[x] * f]
    [] a[2] \in {1, 5} -> [x \in 1..g |-> (p[x] - a[3+x]) * f + a[3+x]]
    [] a[2] \in {2, 4} -> [x \in 1..g |-> LET RECURSIVE S(_) S(y) == IF y = 0 THEN (IF a[2] = 2 THEN a[3+x] ELSE 0) ELSE p[y] * a[6 + (x-1)*g + y] + S(y-1) IN S(g)]
    [] a[2] = 3 -> [x \in 1..g |-> p[(x % g) + 1] + 10 * (x-1)]
Small(M) == \A x \in M.V : \A j \in DOMAIN x.p : x.p[j] < 1000000 /\ x.p[j] > -1000000
StepC22(ev, P, Q) ==
  LET m == Slot(ev)
      from(p) == IF ev.a[2] = 5 THEN [j \in 1..Len(p) |-> p[j] + 100 * j] ELSE p        \* points held elsewhere are others than those of the mesh
      to == { [i |-> x.i, p |-> Moved(ev.a, from(x.p))] : x \in P[m].V } IN
  ev.op = "gt" /\ Small(P[m]) =>
    /\ ev.x = 0
    /\ Q[3-m] = P[3-m]
    /\ [Q[m] EXCEPT !.V = {}] = [P[m] EXCEPT !.V = {}]
    /\ Q[m].V = IF ev.a[2] = 5 THEN P[m].V ELSE to
    /\ ev.a[2] = 5 => Range(ev.r) = to
=============================================================================
