-------------------------------- MODULE Voro --------------------------------
(* C18: Voronoi quantities of a host (mesh or segment).  ev.r.E: per edge    *)
(* the interface area times the length of the edge (A), the box volume (V)   *)
(* and their shares per cell (a, v); ev.r.V: box volumes of vertices.  Fixed *)
(* point, K = 1000.                                                          *)
EXTENDS Geo

FD(n, d) == K * (n \div d) + (K * (n % d)) \div d          \* K n / d without leaving 32 bits, rounded down
Good(v) == v \in (-900000000)..900000000
VNear(a, b, tol) == A1(a - b) <= tol
ShareSum(L) == SumF([j \in 1..Len(L) |-> L[j][2]], Len(L))
Share(L, c) == LET S == { j \in 1..Len(L) : L[j][1] = c } IN IF S = {} THEN 0 ELSE L[CHOOSE j \in S : TRUE][2]

\* cells and points of the host
HCells(M, H) == { c \in M.E[D] : c.i \in H[D+1] }
EdgeSet(M) == IF D = 1 THEN M.E[1] ELSE M.E[1]
P3(M, i) == Pad(Point(M, i))
At(C, e) == { c \in C : VS(e) \subseteq VS(c) }

\* ---- triangles in the plane ----
Len2(M, e) == Sq(Sub3(P3(M, e.v[1]), P3(M, e.v[2])))
Apex(c, e) == CHOOSE i \in VS(c) : i \notin VS(e)
AngDot(M, c, i) == LET o == VS(c) \ {i}  p == P3(M, i)  a == P3(M, CHOOSE x \in o : TRUE)  b == P3(M, CHOOSE x \in o : x # (CHOOSE y \in o : TRUE)) IN Dot(Sub3(a, p), Sub3(b, p))
AreaC(M, c) == A1(Cross(Sub3(P3(M, c.v[2]), P3(M, c.v[1])), Sub3(P3(M, c.v[3]), P3(M, c.v[1])))[3])     \* twice the area
SideZ(M, e, i) == Cross(Sub3(P3(M, e.v[2]), P3(M, e.v[1])), Sub3(P3(M, i), P3(M, e.v[1])))[3]
TriScope(M, C) ==
  /\ \A c \in C : AreaC(M, c) > 0
  /\ \A e \in M.E[1] : LET A == At(C, e) IN
       /\ Cardinality(A) <= 2
       /\ \A c, d \in A : c # d => /\ (SideZ(M, e, Apex(c, e)) > 0) # (SideZ(M, e, Apex(d, e)) > 0)
                                   /\ AngDot(M, c, Apex(c, e)) * AreaC(M, d) + AngDot(M, d, Apex(d, e)) * AreaC(M, c) >= 0
Obtuse(M, c) == { i \in VS(c) : AngDot(M, c, i) < 0 }
EdgesOf(M, c) == { e \in M.E[1] : VS(e) \subseteq VS(c) }
LongE(M, c) == CHOOSE e \in EdgesOf(M, c) : VS(e) = VS(c) \ Obtuse(M, c)
OtherC(M, C, c) == At(C, LongE(M, c)) \ {c}
BObt(M, C, c) == Obtuse(M, c) # {} /\ OtherC(M, C, c) = {}
\* (|e|^2 / 2) cot of the angle opposite of e, and (|e|^2 / 2) tan of the angle between e and the long edge
CotW(M, c, e) == FD(Len2(M, e) * AngDot(M, c, Apex(c, e)), 2 * AreaC(M, c))
TanV(M, c, e) == CHOOSE i \in VS(e) : i \notin Obtuse(M, c)
TanW(M, c, e) == FD(Len2(M, e) * AreaC(M, c), 2 * AngDot(M, c, TanV(M, c, e)))
\* interface area times length that cell c brings to edge e (in total), and the part of it inside c
TriTot(M, C, c, e) == IF ~BObt(M, C, c) THEN CotW(M, c, e) ELSE IF VS(e) = VS(LongE(M, c)) THEN 0 ELSE TanW(M, c, e)
TriOwn(M, C, c, e) == IF Obtuse(M, c) = {} THEN CotW(M, c, e) ELSE IF VS(e) = VS(LongE(M, c)) THEN 0 ELSE TanW(M, c, e)
TriGiven(M, C, c, e) == IF Obtuse(M, c) = {} \/ BObt(M, C, c) THEN 0 ELSE CotW(M, c, e) - TriOwn(M, C, c, e)
TriEdgeOK(M, C, x) ==
  LET e == Elem(M, 1, x.i)  A == At(C, e)
      tot == SumOver([c \in A |-> TriTot(M, C, c, e)], A)
      own(c) == (IF c \in A THEN TriOwn(M, C, c, e) ELSE 0) + LET G == { d \in A : Obtuse(M, d) # {} /\ c \in OtherC(M, C, d) } IN SumOver([d \in G |-> TriGiven(M, C, d, e)], G) IN
  /\ VNear(x.A, tot, 4)
  /\ \A c \in C : VNear(Share(x.a, c.i), own(c), 5)
  /\ (\A c \in A : ~BObt(M, C, c)) => VNear(2 * x.V, x.A, 3)
  /\ (\A c \in A : Obtuse(M, c) = {}) => \A c \in C : VNear(2 * Share(x.v, c.i), Share(x.a, c.i), 3)
\* four times the box volume of a vertex
TriVertW(M, C, c, i) ==
  LET E == { e \in EdgesOf(M, c) : i \in VS(e) }  o == { e \in EdgesOf(M, c) : e # LongE(M, c) } IN
  IF ~BObt(M, C, c) THEN SumOver([e \in E |-> CotW(M, c, e)], E)
  ELSE IF i \in Obtuse(M, c) THEN 2 * K * AreaC(M, c) - SumOver([e \in o |-> TanW(M, c, e)], o)
  ELSE SumOver([e \in E \cap o |-> TanW(M, c, e)], E \cap o)
TriVertOK(M, C, x) == LET A == { c \in C : x.i \in VS(c) } IN VNear(4 * x.V, SumOver([c \in A |-> TriVertW(M, C, c, x.i)], A), 4 + 3 * Cardinality(A))

\* ---- boxes, and tetrahedra of a subdivided box ----
BoxV(M, c) == LET p == Pts(M, D, c.i) IN IF LTy(D) = "quad" THEN A1(Cross(Sub3(p[2], p[1]), Sub3(p[3], p[1]))[3]) ELSE HexV(p) \div 6
BoxScope(M, C) == \A c \in C : Rect(LTy(D), Pts(M, D, c.i)) /\ BoxV(M, c) > 0
BoxShare(M, c) == FD(BoxV(M, c), IF D = 2 THEN 2 ELSE 4)                 \* to A of each edge of the cell
BoxEdgeOK(M, C, x) ==
  LET e == Elem(M, 1, x.i)  A == At(C, e) IN
  /\ VNear(x.A, SumOver([c \in A |-> BoxShare(M, c)], A), 5) /\ \A c \in C : VNear(Share(x.a, c.i), IF c \in A THEN BoxShare(M, c) ELSE 0, 2)
  /\ VNear(D * x.V, x.A, D) /\ \A c \in C : VNear(D * Share(x.v, c.i), Share(x.a, c.i), D)
BoxVertOK(M, C, x) ==
  LET A == { c \in C : x.i \in VS(c) }  n == IF D = 2 THEN 4 ELSE 8 IN
  /\ VNear(x.V, SumOver([c \in A |-> FD(BoxV(M, c), n)], A), 9) /\ \A c \in C : VNear(Share(x.v, c.i), IF c \in A THEN FD(BoxV(M, c), n) ELSE 0, 2)

Diff(M, i, j) == Cardinality({ a \in 1..3 : P3(M, i)[a] # P3(M, j)[a] })
Ext(M, c, a) == LET S == { P3(M, i)[a] : i \in VS(c) } IN (CHOOSE x \in S : \A y \in S : x >= y) - (CHOOSE x \in S : \A y \in S : x <= y)
Kuhn(M, c) ==
  LET p == Pts(M, 3, c.i) IN
  /\ TetV(p[1], p[2], p[3], p[4]) = Ext(M, c, 1) * Ext(M, c, 2) * Ext(M, c, 3) /\ TetV(p[1], p[2], p[3], p[4]) > 0
  /\ Cardinality({ {i, j} : i, j \in VS(c) } \cap { {q[1], q[2]} : q \in { r \in VS(c) \X VS(c) : Diff(M, r[1], r[2]) = 1 } }) = 3
  /\ \E i, j \in VS(c) : Diff(M, i, j) = 3
TetShare(M, c, e) ==
  LET r == VS(c) \ VS(e)  i == CHOOSE x \in r : TRUE  j == CHOOSE x \in r : x # i  v == Ext(M, c, 1) * Ext(M, c, 2) * Ext(M, c, 3) IN
  IF Diff(M, e.v[1], e.v[2]) # 1 THEN 0 ELSE IF Diff(M, i, j) = 3 THEN FD(v, 4) ELSE FD(v, 8)
RECURSIVE FanOf(_, _, _)
FanOf(S, A, e) == LET n == S \cup { c \in A : \E d \in S : Cardinality(VS(c) \cap VS(d)) >= 3 } IN IF n = S THEN S ELSE FanOf(n, A, e)
\* the cells around the edge form one fan that is closed or spans at most half a turn
FanOK(M, C, e) ==
  LET A == At(C, e)  F == { f \in M.E[2] : VS(e) \subseteq VS(f) /\ At(A, f) # {} }
      nrm(f) == LET q == CHOOSE i \in VS(f) : i \notin VS(e) IN Cross(Sub3(P3(M, e.v[2]), P3(M, e.v[1])), Sub3(P3(M, q), P3(M, e.v[1])))
      sd(f, i) == Dot(nrm(f), Sub3(P3(M, i), P3(M, e.v[1])))
      ends == { f \in F : Cardinality(At(A, f)) = 1 } IN
  /\ A # {} /\ FanOf({ CHOOSE c \in A : TRUE }, A, e) = A
  /\ \A f \in F : Cardinality(At(A, f)) <= 2
  /\ ends # {} => \E f \in ends : (\A c \in A : \A i \in VS(c) : sd(f, i) >= 0) \/ (\A c \in A : \A i \in VS(c) : sd(f, i) <= 0)
TetScope(M, C) == /\ \A c \in C : Kuhn(M, c) /\ \A f \in M.E[2] : Cardinality(At(C, f)) <= 2
TetEdgeOK(M, C, x) ==
  LET e == Elem(M, 1, x.i)  A == At(C, e) IN
  FanOK(M, C, e) => VNear(x.A, SumOver([c \in A |-> TetShare(M, c, e)], A), 2 + Cardinality(A))

LineEdgeOK(M, C, x) == LET w == SqrtK(Len2(M, Elem(M, 1, x.i))) IN VNear(x.A, w, 1) /\ VNear(x.V, w, 1) /\ x.a = << <<x.i, x.A>> >> /\ Len(x.v) = 1 /\ VNear(Share(x.v, x.i), w, 1)
LineVertOK(M, C, x) == LET A == { c \in C : x.i \in VS(c) } IN VNear(2 * x.V, SumOver([c \in A |-> SqrtK(Len2(M, c))], A), 2 + Cardinality(A)) /\ \A c \in C : VNear(2 * Share(x.v, c.i), IF c \in A THEN SqrtK(Len2(M, c)) ELSE 0, 2)

VoroOK(M, H, r) ==
  LET C == HCells(M, H)
      scope == CASE LTy(D) = "line" -> TRUE [] LTy(D) = "tri" -> TriScope(M, C) [] LTy(D) = "tet" -> TetScope(M, C) [] OTHER -> BoxScope(M, C)
      bare == \A e \in { x \in M.E[1] : x.i \in H[2] } : At(C, e) # {}
      all == { r.E[j] : j \in 1..Len(r.E) }
      ve(i) == { x \in all : i \in VS(Elem(M, 1, x.i)) }
      good(x) == Good(x.V) /\ \A j \in 1..Len(x.v) : Good(x.v[j][2]) IN
  /\ bare /\ (scope \/ (LTy(D) = "tet" /\ (\A x \in all : A1(x.A) < 20000000) /\ \A j \in 1..Len(r.V) : A1(r.V[j].V) < 20000000)) =>
    /\ Len(r.E) = Cardinality(H[2]) /\ { x.i : x \in all } = H[2] /\ Len(r.V) = Cardinality(H[1]) /\ { r.V[j].i : j \in 1..Len(r.V) } = H[1]
    /\ \A x \in all : good(x) /\ Good(x.A) /\ \A j \in 1..Len(x.a) : Good(x.a[j][2])
    /\ \A x \in all : VNear(ShareSum(x.a), x.A, 1 + Len(x.a)) /\ VNear(ShareSum(x.v), x.V, 1 + Len(x.v))
    /\ \A j \in 1..Len(r.V) : good(r.V[j]) /\ VNear(ShareSum(r.V[j].v), r.V[j].V, 1 + Len(r.V[j].v))
    /\ LTy(D) # "tri" => \A x \in all : VNear(D * x.V, x.A, D)
    /\ LTy(D) = "tet" => \A x \in all : \A c \in C : /\ VNear(3 * Share(x.v, c.i), Share(x.a, c.i), 3)
                                                    /\ ~(VS(Elem(M, 1, x.i)) \subseteq VS(c)) => Share(x.a, c.i) = 0
    /\ LTy(D) = "tet" => \A j \in 1..Len(r.V) : \A c \in C : LET E == ve(r.V[j].i) IN VNear(2 * Share(r.V[j].v, c.i), SumOver([x \in E |-> Share(x.v, c.i)], E), 2 + Cardinality(E))
    /\ LTy(D) \in {"tet"} => \A j \in 1..Len(r.V) : LET E == ve(r.V[j].i) IN VNear(2 * r.V[j].V, SumOver([x \in E |-> x.V], E), 2 + Cardinality(E))
  /\ bare /\ scope =>
    /\ \A x \in all : CASE LTy(D) = "line" -> LineEdgeOK(M, C, x) [] LTy(D) = "tri" -> TriEdgeOK(M, C, x) [] LTy(D) = "tet" -> TetEdgeOK(M, C, x) [] OTHER -> BoxEdgeOK(M, C, x)
    /\ \A j \in 1..Len(r.V) : LET x == r.V[j] IN CASE LTy(D) = "line" -> LineVertOK(M, C, x) [] LTy(D) = "tri" -> TriVertOK(M, C, x) [] LTy(D) = "tet" -> TRUE [] OTHER -> BoxVertOK(M, C, x)
QueryC18(ev, M) ==
  LET crowd == LTy(D) = "tet" /\ \E f \in M.E[2] : Cardinality({ c \in M.E[D] : VS(f) \subseteq VS(c) }) > 2 IN   \* tetrahedra: reported by an exception
  /\ ev.x = 0 \/ (ev.op = "vo" /\ crowd)
  /\ ev.op = "vo" /\ ev.x = 0 /\ Integral(M) /\ (ev.a[2] < 0 \/ SegClosed(M)) => VoroOK(M, IF ev.a[2] < 0 THEN Whole(M) ELSE SegOf(M, ev.a[2]).e, ev.r)
=============================================================================
