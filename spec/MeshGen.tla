------------------------------- MODULE MeshGen -------------------------------
(* Random behaviours of the machine, printed as driver scripts (one '@' line *)
(* per operation).  Elements are named by their vertices, so a script does   *)
(* not depend on the ids the library hands out for edges and facets.         *)
EXTENDS MeshSpec, Geo, Randomization
CONSTANTS Mix,        \* sequence of operation names (repetition = weight)
          NVMax, NCMax, NSMax,
          Grid,       \* coordinates are drawn from Scale * (0..Grid)
          Scale, Distinct,
          GeoMode, Axis, Shift,   \* only non-degenerate, convex elements; layers of hexahedra along this axis; coordinates minus Shift
          Delaunay,   \* triangles: locally Delaunay, at most two per edge
          Jit, Two, TailMix,      \* jitter of the second slot; fill both slots before the tail; operations of the tail
          TailAt      \* from this step on: refinements back and forth between the two slots (0: never)
VARIABLES W, k

RE(S) == RandomElement(S)
RPoint(g) == IF Axis = 3 THEN << RE(0..g) - Shift, RE(0..2), RE(0..1) >>      \* flat: long lines at small angles
             ELSE << Scale * RE(0..g) - Shift, Scale * RE(0..g) - Shift, Scale * RE(0..g) - Shift >>
Turn(p) == [j \in 1..3 |-> p[((j + Axis) % 3) + 1]]
UnTurn(p) == [j \in 1..3 |-> p[((j + 2 - Axis + 2) % 3) + 1]]
\* a random tuple of n distinct vertices, preferably sharing a facet with an existing element of level l
RECURSIVE Draw(_, _)
Draw(n, S) == IF n = 0 THEN <<>> ELSE LET S1 == { x \in {RE(S)} : TRUE } IN
              LET x == CHOOSE y \in S1 : TRUE IN <<x>> \o Draw(n - 1, S \ {x})
Perm(S) == Draw(Cardinality(S), S)
\* gluing: a facet of an existing cell plus fresh vertices, in a random order that keeps a valid facet (simplices), or plain
RandTuple(M, l) ==
  LET n == NVert(LTy(l))  ids == Ids(M, 0) IN
  IF Cardinality(ids) < n THEN <<>>
  ELSE IF M.E[l] # {} /\ LTy(l) \in {"tri", "tet", "line"} /\ RE(1..4) > 1
  THEN LET e == RE(M.E[l])  drop == RE(1..n)  rest == ids \ VS(e) IN
       IF rest = {} THEN Perm(VS(e))
       ELSE Perm({ e.v[j] : j \in (1..n) \ {drop} } \cup { RE(rest) })
  ELSE IF M.E[l] # {} /\ LTy(l) = "quad" /\ RE(1..4) > 1
  THEN LET e == RE(M.E[l])  rest == ids \ VS(e) IN
       IF Cardinality(rest) < 2 THEN Draw(n, ids)
       ELSE LET f == RE(Range(SubIdx("quad", 1)))  d == Draw(2, rest) IN
            RE({ << e.v[f[1]], e.v[f[2]], d[1], d[2] >>, << d[1], d[2], e.v[f[1]], e.v[f[2]] >>, << e.v[f[2]], d[1], e.v[f[1]], d[2] >> })
  ELSE IF M.E[l] # {} /\ LTy(l) = "hex" /\ RE(1..4) > 1
  THEN LET e == RE(M.E[l])  rest == ids \ VS(e) IN
       IF Cardinality(rest) < 4 THEN Draw(n, ids)
       ELSE LET f == RE(Range(SubIdx("hex", 2)))  d == Draw(4, rest)  q == [j \in 1..4 |-> e.v[f[j]]] IN RE({ q \o d, d \o q })
  ELSE Draw(n, ids)

\* hexahedra: layers of four vertices, an axis-parallel rectangle each; any two consecutive layers span a convex cell
LayerPoint(M) ==
  LET n == Cardinality(M.V)  l == n \div 4  c == n % 4
      old(i) == UnTurn(Pad(Point(M, 4*l + i)))
      q == CASE c = 0 -> << RE(0..(Grid-1)) - Shift, RE(0..(Grid-1)) - Shift, l - Shift >>
             [] c = 1 -> [old(0) EXCEPT ![1] = RE((@ + 1)..(Grid - Shift))]
             [] c = 2 -> [old(0) EXCEPT ![2] = RE((@ + 1)..(Grid - Shift))]
             [] c = 3 -> [old(1) EXCEPT ![2] = old(2)[2]]
  IN Turn(q)
BitPerm == { f \in [1..3 -> 1..3] : f[1] # f[2] /\ f[1] # f[3] /\ f[2] # f[3] }
Pow2(n) == CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 4
HexTuple(M) ==
  LET n == Cardinality(M.V) \div 4 IN
  IF n < 2 THEN <<>> ELSE
  LET l == RE(0..(n-2))  f == RE(BitPerm)  g == RE([1..3 -> 0..1])
      bit(x, i) == (x \div Pow2(i)) % 2 IN
  [j \in 1..8 |-> 4*l + SumF([i \in 1..3 |-> Pow2(i) * ((bit(j-1, f[i]) + g[i]) % 2)], 3)]
\* a triangle that fits the others: one neighbour per edge, on the other side, opposite angles of at most half a turn together
DelOK(M, v) ==
  LET p(i) == Pad(Point(M, i))
      ar(a, b, c) == Cross(Sub3(p(b), p(a)), Sub3(p(c), p(a)))[3]
      dt(a, b, c) == Dot(Sub3(p(a), p(c)), Sub3(p(b), p(c))) IN
  \A a, b, c \in Range(v) : a # b /\ b # c /\ a # c =>
     LET A == { d \in M.E[2] : {a, b} \subseteq VS(d) } IN
     IF A = {} THEN TRUE ELSE
     /\ Cardinality(A) = 1
     /\ LET d == CHOOSE x \in A : TRUE  q == CHOOSE i \in VS(d) : i \notin {a, b} IN
        /\ (ar(a, b, c) > 0) # (ar(a, b, q) > 0)
        /\ dt(a, b, c) * A1(ar(a, b, q)) + dt(a, b, q) * A1(ar(a, b, c)) >= 0
GoodTuple(M, l) ==
  IF ~GeoMode THEN RandTuple(M, l)
  ELSE IF LTy(D) = "hex" /\ l = D THEN HexTuple(M)
  ELSE LET c == { RandTuple(M, l) : i \in 1..(IF LTy(l) = "quad" THEN 30 ELSE 8) }
           ok == { v \in c : v # <<>> /\ Valid(LTy(l), [j \in 1..Len(v) |-> Pad(Point(M, v[j]))]) /\ (Delaunay => DelOK(M, v)) }
       IN IF ok = {} THEN <<>> ELSE RE(ok)
\* query points, in halves: anywhere around the mesh, or an affine combination of the vertices of an element
HalfPoint(M) ==
  LET l == RE(1..D) IN
  IF M.E[l] = {} \/ RE(1..3) = 1 THEN << RE(-2..(2*Grid+2)) - 2*Shift, RE(-2..(2*Grid+2)) - 2*Shift, RE(-2..(2*Grid+2)) - 2*Shift >>
  ELSE LET e == RE(M.E[l])  i == RE(-1..3)  j == RE(-1..3)  n == Len(e.v)
           q(a) == Pad(Point(M, e.v[a]))  b == RE(1..n)  c == RE(1..n) IN
       [x \in 1..3 |-> 2 * q(1)[x] + i * (q(b)[x] - q(1)[x]) + j * (q(c)[x] - q(1)[x])]

\* a quadrilateral facet is identified by its vertices: it must not appear with two different cyclic orders
Compat(M, l, v) ==
  LTy(D) # "hex" \/ l < 2 \/
  LET quads == IF l = 2 THEN {v} ELSE { Tuple("hex", v, 2, j) : j \in 1..Len(SubIdx("hex", 2)) } IN
  \A q \in quads : \A e \in M.E[2] : VS(e) = Range(q) => SubSets("quad", e.v, 1) = SubSets("quad", q, 1)
RandElem(M, lo, hi) ==     \* <<level, id>> of a random element, <<>> if none
  LET c == UNION { { <<j, id>> : id \in Ids(M, j) } : j \in lo..hi } IN IF c = {} THEN <<>> ELSE RE(c)
NameSet == {"a", "ab", "abc", "b", "0", "1", "2", "10"}
SegFree(M) == \A g \in M.S : g.e = None

\* a random enabled event, or a fall-back
Cand(op, m) ==
  LET M == W.M[m]  z == m - 1  segs == SIds(M)
      V1 == Cardinality(M.V) < NVMax
      C1 == Cardinality(M.E[D]) < NCMax
      jit(p) == IF m = 2 /\ Jit > 0 THEN [j \in 1..3 |-> p[j] + RE(0..Jit)] ELSE p
      anchor(p) == [j \in 1..Len(p) |-> ((p[j] + Shift) \div Scale) * Scale - Shift]
      free == { p \in { <<Scale * i - Shift, Scale * j - Shift, Scale * h - Shift>> : i, j, h \in 0..Grid } :
                  \A x \in M.V : Trunc(p, GD) # anchor(x.p) }
      fb == IF ~V1 THEN Ev("P", <<z>>)
            ELSE IF GeoMode /\ LTy(D) = "hex" THEN Ev("v", <<z>> \o LayerPoint(M))
            ELSE IF GeoMode \/ Distinct THEN (IF free = {} THEN Ev("P", <<z>>) ELSE Ev("v", <<z>> \o jit(RE(free))))
            ELSE Ev("v", <<z>> \o RPoint(Grid))
      hi == IF LTy(D) = "hex" THEN D ELSE D
      tok(S) == IF S = {} THEN <<>> ELSE Perm(RandomSubset(RE(0..Cardinality(S)), { e.i : e \in S }))
  IN
  CASE op = "v" /\ Distinct /\ ~GeoMode -> IF V1 /\ free # {} THEN Ev("v", <<z>> \o jit(RE(free))) ELSE Ev("P", <<z>>)
    [] op = "v" -> fb
    [] op = "rf" -> Ev("rf", <<z, 1-z, RE(0..1)>> \o tok(M.E[1]))
    [] op = "rl" -> Ev("rl", <<z>> \o tok(M.E[1]))
    [] op = "rc" -> Ev("rc", <<z, 1-z, RE(0..1)>> \o tok(M.E[D]))
    [] op = "rm" -> LET n == RE(2..5) IN Ev("rm", <<z, 1-z, RE(0..1), n, RE(0..(n-1))>>)
    [] op = "ru" -> Ev("ru", <<z, 1-z, RE(0..1)>>)
    [] op = "rh" -> Ev("rh", <<z, 1-z, RE(0..3), RE(0..(GD-1)), 4 * RE(0..4)>>)
    [] op = "vi" /\ Distinct -> IF V1 /\ free # {} /\ RE(1..2) = 1 THEN Ev("vi", <<z, W.nx[m][1] + RE(0..2)>> \o jit(RE(free))) ELSE fb
    [] op = "vi" -> IF V1 THEN LET id == RE(0..NVMax) + RE(0..3) IN
                        IF id \in Ids(M, 0) THEN Ev("vi", <<z, W.nx[m][1]>> \o RPoint(Grid)) ELSE Ev("vi", <<z, id>> \o RPoint(Grid))
                    ELSE fb
    [] op = "vu" -> IF V1 THEN Ev("vu", <<z, RE({0, 1, 3, 5})>> \o jit(RPoint(Grid))) ELSE Ev("P", <<z>>)
    [] op = "vp" -> IF M.V # {} THEN Ev("vp", <<z, RE(Ids(M, 0))>> \o RPoint(Grid)) ELSE fb
    [] op \in {"c", "ci", "sc"} ->
         LET v == GoodTuple(M, D) IN
         IF ~C1 \/ v = <<>> \/ ~Compat(M, D, v) \/ Range(v) \in Keys(M, D) \/ (op = "sc" /\ segs = {}) THEN (IF op = "sc" /\ segs = {} THEN Ev("sm", <<z>>) ELSE fb)
         ELSE IF op = "c" THEN Ev("c", <<z>> \o v)
         ELSE IF op = "ci" THEN Ev("ci", <<z, IF RE(1..2) = 1 THEN W.nx[m][D+1] + RE(0..2) ELSE RE((0..(W.nx[m][D+1] + 2)) \ Ids(M, D))>> \o v)
         ELSE Ev("sc", <<z, RE(segs)>> \o v)
    [] op = "e" -> IF D = 1 THEN fb ELSE LET j == RE(1..(D-1))  v == GoodTuple(M, j) IN
                   IF v = <<>> \/ ~Compat(M, j, v) THEN fb ELSE Ev("e", <<z, j>> \o v)
    [] op \in {"x", "xm"} ->
         LET t == RandElem(M, RE(0..D), D)  u == RandElem(M, RE(0..D), D) IN
         IF t = <<>> \/ u = <<>> \/ ~SegFree(M) THEN fb
         ELSE IF op = "x" THEN Ev("x", <<z, t[1], t[2]>>) ELSE Ev("xm", <<z, t[1], t[2], u[1], u[2]>>)
    [] op = "a" -> LET t == RE({"a", "cc", "a0"}) IN
                   IF t = "a0" /\ M.S = {} THEN Ev("a", <<z, z>>) ELSE Ev(IF t = "cc" THEN "cc" ELSE "a", <<z, 1-z>>)
    [] op = "cl" -> Ev("cl", <<z>>)
    [] op = "sm" -> IF Cardinality(segs) < NSMax THEN Ev("sm", <<z>>) ELSE fb
    [] op = "sn" -> IF Cardinality(segs) < NSMax THEN EvN("sn", <<z>>, RE(NameSet)) ELSE fb
    [] op = "si" -> IF Cardinality(segs) < NSMax THEN Ev("si", <<z, RE(0..4)>>) ELSE fb
    [] op = "sr" -> IF segs = {} THEN Ev("sm", <<z>>) ELSE EvN("sr", <<z, RE(segs)>>, RE(NameSet))
    [] op = "sv" -> IF segs = {} \/ ~V1 THEN Ev("sm", <<z>>) ELSE Ev("sv", <<z, RE(segs)>> \o RPoint(Grid))
    [] op = "sa" -> LET t == RandElem(M, RE(0..D), D) IN
                    IF segs = {} \/ t = <<>> THEN Ev("sm", <<z>>) ELSE Ev("sa", <<z, RE(segs), t[1], t[2]>>)
    [] op = "sA" -> IF segs = {} THEN Ev("sm", <<z>>) ELSE IF M.E[D] = {} THEN fb ELSE Ev("sa", <<z, RE(segs), D, RE(Ids(M, D))>>)
    [] op = "sx" ->
         IF segs = {} THEN Ev("sm", <<z>>) ELSE
         LET s == RE(segs)  c == UNION { { <<j, id>> : id \in SegOf(M, s).e[j+1] } : j \in 0..D } IN
         IF c = {} THEN fb ELSE LET t == RE(c) IN Ev("sx", <<z, s, t[1], t[2]>>)
    [] op = "scl" -> Ev("scl", <<z>>)
    [] op \in {"qc", "qcs", "qn", "qns"} ->
         LET l == RE(1..D)  j == RE(0..(l-1))  lev == IF op \in {"qc", "qcs"} THEN j ELSE l
             t == RandElem(M, lev, lev) IN
         IF t = <<>> THEN fb
         ELSE IF op \in {"qc", "qn"} THEN Ev(op, <<z, j, l, t[2]>>)
         ELSE IF segs = {} THEN Ev("sm", <<z>>) ELSE Ev(op, <<z, RE(segs), j, l, t[2]>>)
    [] op \in {"qb", "qbs", "qi"} ->
         LET t == RandElem(M, RE(0..(D-1)), D-1) IN
         IF t = <<>> THEN fb ELSE IF op = "qb" THEN Ev("qb", <<z, t[1], t[2]>>)
         ELSE IF segs = {} THEN Ev("sm", <<z>>)
         ELSE IF op = "qbs" THEN Ev("qbs", <<z, RE(segs), t[1], t[2]>>)
         ELSE LET s == RE(segs)  o == segs \ {s} IN
              IF o = {} THEN Ev("sm", <<z>>) ELSE Ev("qi", <<z, s, RE(o), t[1], t[2]>>)
    [] op \in {"yf", "ys"} -> LET n == RE(1..3) IN Ev(op, <<z, 1-z, n, RE(0..(n-1))>>)
    [] op = "yg" -> Ev(op, <<z, 1-z>>)
    [] op \in {"ye", "yh"} -> Ev(op, <<z, 1-z, RE(0..2), RE(1..4), RE({0, 1, 3})>>)
    [] op = "y1" -> Ev(op, <<z, 1-z, RE(1..D), RE(0..5), RE({0, 1, 3}), RE(0..1)>>)
    [] op \in {"hb", "hs"} -> IF D = 1 THEN Ev("hp", <<z>>) ELSE Ev(op, <<z, IF RE(1..3) = 1 THEN RE(1..(D-1)) ELSE D-1, RE(0..1)>>)
    [] op = "vt" -> Ev(op, <<z, 1-z, IF RE(1..4) = 1 THEN 0 ELSE 1, IF RE(1..5) = 1 THEN 1 ELSE 0, IF RE(1..2) = 1 THEN 511 - RE({0, 256}) ELSE RE(0..511), RE(0..80), RE(0..3)>>)
    [] op = "vx" -> Ev(op, <<z, 1-z, 0, IF RE(1..5) = 1 THEN 1 ELSE 0, RE(0..15), RE(0..80), RE(0..255)>>)
    [] op = "ng" -> Ev(op, <<z, 1-z, IF RE(1..5) = 1 THEN 1 ELSE 0, RE(0..127), RE(0..1) * RE(1..60)>>)
    [] op = "bd" -> Ev(op, <<z, 1-z, 0, RE(0..15)>>)
    [] op = "pt" -> Ev(op, <<z, RE(0..767)>>)
    [] op = "pn" -> Ev(op, <<z, RE(0..31)>>)
    [] op \in {"wv", "wd", "wm"} -> Ev(op, <<z, RE(0..3)>>)
    [] op \in {"lb", "lB"} -> 
         Ev("lb", <<z>> \o (IF op = "lB" THEN RE({<<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<1,1,2>>, <<1,2,2>>, <<2,3,1>>, <<1,2,3>>, <<3,1,2>>, <<2,2,2>>}) ELSE IF T \in {"tet", "hex"} THEN RE({<<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<1,1,2>>, <<2,2,1>>, <<1,2,2>>}) ELSE << RE(1..3), RE(1..3), 0 >>)
                        \o << RE(0..9999), IF op = "lb" THEN RE(0..1) * RE({3, 5}) ELSE RE({0, 2, 3, 4, 6}), IF op = "lb" THEN (IF RE(1..3) = 1 THEN 2 ELSE 0) ELSE RE(1..2) * RE(0..1) + 1 >>)
    [] op = "vo" -> Ev(op, <<z, RE(-1..2)>>)
    [] op = "hp" -> Ev(op, <<z>>)
    [] op = "qt" -> LET f == RE(0..D)  ms == RE({2, 3, 50})  md == RE({2, 3, 50, 50}) IN
                    Ev(op, <<z, RE(segs \cup {-1}), f, RE((0..D) \ {f}), ms, RE({0, ms-1}), md, RE({0, md-1}), RE(0..1), RE({2, 3, 100})>>)
    [] op = "gt" -> Ev(op, <<z, RE(0..5), 0>> \o [j \in 1..3 |-> RE(-3..3)] \o [j \in 1..9 |-> RE(-2..2)])
    [] op \in {"dw", "df", "da", "dr"} ->
         LET t == RandElem(M, RE(0..D), D) IN
         IF t = <<>> THEN fb ELSE Ev(op, <<z, t[1], RE(0..2), IF op = "dw" THEN RE({0, 1, 4, 5, 8, 9}) ELSE RE(0..9), t[2], RE(1..60)>>)
    [] op = "dq" -> Ev(op, <<z>>)
    [] op \in {"gm", "gs"} -> Ev(op, <<z>>)
    [] op = "gp" -> Ev("gp", <<z>> \o [j \in 1..12 |-> IF RE(1..4) = 1 THEN 0 ELSE RE(-4..4)])
    [] op = "cs" -> LET big == RE({2, 4, 4, 9, 20}) IN
                    Ev("cs", <<z>> \o [j \in 1..12 |-> IF RE(1..4) = 1 THEN 0 ELSE RE((-big)..big)] \o <<RE((-3..3) \ {0}), RE(-9..16), RE(-9..16)>>)
    [] op \in {"gd", "gi"} -> Ev(op, <<z>> \o HalfPoint(M))
    [] op = "gl" -> IF M.E[1] = {} THEN fb ELSE Ev("gl", <<z, RE(Ids(M, 1))>>)
    [] op \in {"QC", "QN", "QB", "QI", "QM", "QL", "QR"} -> Ev(op, <<z>>)
    [] OTHER -> fb

\* the first steps fill the mesh with vertices, afterwards operations follow the mix
Op(m) == IF Two /\ Cardinality(W.M[m].V) <= NVert(T) THEN "v" ELSE IF Two /\ W.M[m].E[D] = {} THEN "c" ELSE IF k <= NVert(T) + 1 THEN "v" ELSE IF k <= NVert(T) + 3 /\ "c" \in Range(Mix) THEN "c" ELSE Mix[RE(1..Len(Mix))]
Init == W = W0 /\ k = 0
Which == IF TailAt > 0 THEN (IF k < TailAt THEN (IF Two /\ RE(1..5) < 3 THEN 2 ELSE 1) ELSE IF Two THEN RE(1..2) ELSE ((k - TailAt) % 2) + 1) ELSE IF RE(1..5) = 1 /\ k > 6 THEN 2 ELSE 1
Pick(m) == IF TailAt > 0 /\ k >= TailAt THEN Cand(TailMix[RE(1..Len(TailMix))], m) ELSE Cand(Op(m), m)
Next == \E m \in { Which } : \E e \in { Pick(m) } : \E res \in { Apply(e, W) } :
          /\ (k = 0 => PrintT("@R"))
          /\ PrintT("@" \o Line(e, W.M[m]))
          /\ W' = res.W
          /\ k' = k + 1
Spec == Init /\ [][Next]_<<W, k>>
=============================================================================
