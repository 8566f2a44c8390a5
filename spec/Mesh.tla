------------------------------- MODULE Mesh -------------------------------
(* Theory of meshes and segmentations, and the step relation of every       *)
(* public operation, split into one named predicate per listed property.    *)
(*                                                                          *)
(* Abstract state of one mesh slot:                                         *)
(*   V : set of [i |-> vertex id, p |-> point]                              *)
(*   E : <<E1, .., ED>>, Ek = set of [i |-> id, v |-> vertex-id tuple,      *)
(*        b |-> << ids of level-1 sub-elements, ids of level-2 ... >>]      *)
(*   S : set of segments [i |-> id, n |-> name, e |-> <<ids of level 0, ..>>,*)
(*        c |-> << number of entries of level 0, .. >>]                     *)
(*   n : << number of entries the containers really hold, level 0, 1, ..>>  *)
(*   o : number of sub-element references that leave the mesh               *)
EXTENDS Topo, Integers, TLC

CONSTANT T                       \* cell type of the mesh
D == Dim(T)
LTy(k) == LevelType(T, k)

EmptyMesh == [V |-> {}, E |-> [k \in 1..D |-> {}], S |-> {}, n |-> [k \in 1..(D+1) |-> 0], o |-> 0]

VS(e) == Range(e.v)
Ids(M, k) == IF k = 0 THEN { x.i : x \in M.V } ELSE { e.i : e \in M.E[k] }
NoElem(id) == [i |-> id, v |-> [j \in 1..8 |-> -1], b |-> << <<>>, <<>> >>]      \* stands for a missing element
Elem(M, k, id) == IF \E e \in M.E[k] : e.i = id THEN CHOOSE e \in M.E[k] : e.i = id ELSE NoElem(id)
Has(M, k, id) == id \in Ids(M, k)
Key(M, k, id) == IF k = 0 THEN {id} ELSE VS(Elem(M, k, id))
Keys(M, k) == IF k = 0 THEN { {x.i} : x \in M.V } ELSE { VS(e) : e \in M.E[k] }
Subs(e, l, k) == IF k = l THEN { VS(e) } ELSE SubSets(LTy(l), e.v, k)
IV(M, k) == { [i |-> e.i, v |-> e.v] : e \in M.E[k] }        \* id/vertex-tuple view of a level
MeshOf(M) == [V |-> M.V, E |-> [k \in 1..D |-> IV(M, k)]]
Point(M, id) == (CHOOSE x \in M.V : x.i = id).p
HasSeg(M, s) == \E g \in M.S : g.i = s
SegOf(M, s) == IF HasSeg(M, s) THEN CHOOSE g \in M.S : g.i = s
               ELSE [i |-> s, n |-> "", e |-> [k \in 1..(D+1) |-> {}], c |-> [k \in 1..(D+1) |-> 0]]
\* a host is the whole mesh or a segment: the set of its level-k element ids
Whole(M) == [k \in 1..(D+1) |-> Ids(M, k-1)]

-----------------------------------------------------------------------------
(* Queries *)
Cob(M, H, k, l, id) ==
  LET key == Key(M, k, id) IN { e.i : e \in { x \in M.E[l] : x.i \in H[l+1] /\ key \in Subs(x, l, k) } }
Ngb(M, H, k, l, id) ==
  LET mine == Subs(Elem(M, l, id), l, k) IN
  { e.i : e \in { x \in M.E[l] : x.i # id /\ x.i \in H[l+1] /\ Subs(x, l, k) \cap mine # {} } }

\* facets (as vertex sets) with the number of cells of the host they bound
CellsOn(M, H, key) == Cardinality({ c \in M.E[D] : c.i \in H[D+1] /\ key \in Subs(c, D, D-1) })
HostKeys(M, H, k) == { Key(M, k, id) : id \in H[k+1] \cap Ids(M, k) }
\* boundary facet = facet of exactly one cell; a facet of three or more cells is left open
MustFacet(M, H) == { f \in HostKeys(M, H, D-1) : CellsOn(M, H, f) = 1 }
MayFacet(M, H)  == { f \in HostKeys(M, H, D-1) : CellsOn(M, H, f) \notin {0, 2} }
\* elements of level k < D-1 on a set of facets
On(M, facets, k, key) ==
  IF k = D-1 THEN key \in facets
  ELSE \E f \in M.E[D-1] : VS(f) \in facets /\ key \in Subs(f, D-1, k)
BndOK(M, H, k, id, ans) ==
  LET key == Key(M, k, id) IN
  IF ans THEN On(M, MayFacet(M, H), k, key) ELSE ~On(M, MustFacet(M, H), k, key)

MustIfc(M, A, B) == MustFacet(M, A.e) \cap MustFacet(M, B.e)
MayIfc(M, A, B) == (MayFacet(M, A.e) \cup MayFacet(M, B.e)) \cap HostKeys(M, A.e, D-1) \cap HostKeys(M, B.e, D-1)
IfcOK(M, A, B, k, id, ans) ==
  LET key == Key(M, k, id) IN
  IF ans THEN On(M, MayIfc(M, A, B), k, key) ELSE ~On(M, MustIfc(M, A, B), k, key)

\* elements that contain (as sub-element, or are) the element with this key of level k, among host H, per level
Up(M, H, k, key) == [l \in 1..(D+1) |->
   IF l-1 < k THEN {} ELSE IF l-1 = k THEN { id \in H[l] : Has(M, k, id) /\ Key(M, k, id) = key }
   ELSE { e.i : e \in { x \in M.E[l-1] : x.i \in H[l] /\ key \in Subs(x, l-1, k) } }]
\* ids of an element and of all its sub-elements, per level
Down(M, l, id) == [k \in 1..(D+1) |->
   IF k-1 > l THEN {} ELSE IF k-1 = l THEN {id}
   ELSE IF l = 0 THEN {}
   ELSE LET e == Elem(M, l, id) IN
     IF k = 1 THEN VS(e) ELSE { x.i : x \in { y \in M.E[k-1] : VS(y) \in Subs(e, l, k-1) } }]

-----------------------------------------------------------------------------
(* Well-formedness *)
Closed(M) ==
  /\ \A l \in 1..D : \A e \in M.E[l] : VS(e) \subseteq Ids(M, 0) /\ Len(e.v) = NVert(LTy(l))
  /\ \A l \in 2..D : \A e \in M.E[l] : \A k \in 1..(l-1) :
       /\ Len(e.b[k]) = Len(SubIdx(LTy(l), k))
       /\ Range(e.b[k]) \subseteq Ids(M, k)
       /\ { Key(M, k, id) : id \in Range(e.b[k]) } = Subs(e, l, k)
  /\ \A k \in 1..(D-1) : Cardinality(Keys(M, k)) = Cardinality(M.E[k]) /\ M.n[k+1] = Cardinality(M.E[k])
  /\ M.o = 0
RefOrder(M) ==
  \A l \in 2..D : \A e \in M.E[l] : \A k \in 1..(l-1) :
    LET q == SubSeq2(LTy(l), e.v, k) IN
    /\ Len(e.b[k]) = Len(q)
    /\ \A j \in 1..Len(q) : e.b[k][j] \in Ids(M, k) /\ Key(M, k, e.b[k][j]) = q[j]
NoDup(M) == \A k \in 0..D : Cardinality(Ids(M, k)) = M.n[k+1]
SegClosed(M) ==                       \* a segment holding an element holds its sub-elements
  \A g \in M.S : \A l \in 1..D : \A id \in g.e[l+1] :
    Has(M, l, id) => \A k \in 0..(l-1) : Down(M, l, id)[k+1] \subseteq g.e[k+1]

-----------------------------------------------------------------------------
(* Step relation.  ev = [op, a, n, x, f, r]; P, Q = abstract state before /  *)
(* after of both slots; u = ids ever handed out per slot and level.          *)
Slot(ev) == IF ev.op \in {"R", "end"} THEN 1 ELSE ev.a[1] + 1
Tl(s, n) == SubSeq(s, n, Len(s))
GrowOps == {"v", "vi", "vu", "c", "ci", "e", "vp", "sm", "sn", "si", "sr", "sv", "sc", "sa", "sx", "scl", "P"}
SegOps == {"sm", "sn", "si", "sr", "sv", "sc", "sa", "sx", "scl"}
RegOps == {"sm", "sn", "si", "sr", "scl"}
QueryOps == {"qc", "qcs", "qn", "qns", "qb", "qbs", "qi", "QC", "QN", "QB", "QI", "QM", "QL", "QR"}
Coord(a, n) == SubSeq(a, n, Len(a))
Trunc(p, gd) == SubSeq(p, 1, gd)

CellArgs(ev) == CASE ev.op = "c" -> Tl(ev.a, 2) [] ev.op \in {"ci", "sc", "e"} -> Tl(ev.a, 3)
NewLevel(ev) == IF ev.op = "e" THEN ev.a[2] ELSE D

\* C01: closure and uniqueness of sub-elements
StepC01(ev, p, q) ==
  /\ Closed(q)
  /\ ev.op \in {"c", "ci", "sc", "e"} =>
       LET vs == CellArgs(ev)  l == NewLevel(ev) IN
       /\ ev.x = 0
       /\ \A k \in 1..(D-1) : Keys(q, k) = Keys(p, k) \cup (IF k <= l THEN SubSets(LTy(l), vs, k) ELSE {})
       /\ l = D => Cardinality(q.E[D]) = Cardinality(p.E[D]) + 1 /\ Range(vs) \in Keys(q, D)
       /\ l < D => Cardinality(q.E[D]) = Cardinality(p.E[D])
  /\ ev.op \in {"v", "vi", "vu", "vp", "sv", "sm", "sn", "si", "sr", "sa", "sx", "scl", "P"} =>
       \A k \in 1..D : Keys(q, k) = Keys(p, k) /\ Cardinality(q.E[k]) = Cardinality(p.E[k])

\* C23: sub-elements come in reference order, vertices in the order given
StepC23(ev, p, q) ==
  /\ RefOrder(q)
  /\ ev.op \in {"c", "ci", "sc"} /\ ev.x = 0 => \E e \in q.E[D] : e.i = ev.r /\ e.v = CellArgs(ev)

\* C02: identifiers
StepC02(ev, p, q, u, gd) ==
  /\ NoDup(q)
  /\ ev.op \in (GrowOps \ {"vp"}) =>
       /\ p.V \subseteq q.V
       /\ \A k \in 1..D : IV(p, k) \subseteq IV(q, k)
       /\ ev.op \notin {"vi", "ci"} => \A k \in 0..D : (Ids(q, k) \ Ids(p, k)) \cap u[k+1] = {}
  /\ ev.op \in {"v", "sv"} =>
       LET c == IF ev.op = "v" THEN Coord(ev.a, 2) ELSE Coord(ev.a, 3) IN
       ev.x = 0 /\ ev.r \notin Ids(p, 0) /\ q.V = p.V \cup { [i |-> ev.r, p |-> Trunc(c, gd)] }
  /\ ev.op = "vi" => ev.x = 0 /\ ev.r = ev.a[2] /\ q.V = p.V \cup { [i |-> ev.r, p |-> Trunc(Coord(ev.a, 3), gd)] }
  /\ ev.op \in {"c", "ci", "sc"} =>
       /\ ev.x = 0 /\ ev.r \notin Ids(p, D)
       /\ ev.op = "ci" => ev.r = ev.a[2]
       /\ IV(q, D) = IV(p, D) \cup { [i |-> ev.r, v |-> CellArgs(ev)] }
       /\ q.V = p.V
  /\ ev.op = "e" /\ ev.a[2] < D =>
       LET k == ev.a[2]  key == Range(CellArgs(ev)) IN
       /\ ev.x = 0 /\ Has(q, k, ev.r) /\ Key(q, k, ev.r) = key
       /\ key \in Keys(p, k) => q.E[k] = p.E[k]
       /\ key \notin Keys(p, k) => Ids(q, k) = Ids(p, k) \cup {ev.r}
  /\ ev.op \in {"sm", "sn", "si", "sr", "sa", "sx", "scl", "P"} => MeshOf(q) = MeshOf(p)
  /\ ev.op = "vp" =>
       /\ \A k \in 1..D : IV(p, k) = IV(q, k)
       /\ q.V = { IF x.i = ev.a[2] THEN [i |-> x.i, p |-> Trunc(Coord(ev.a, 3), gd)] ELSE x : x \in p.V }

\* C07: erasing an element removes exactly it and everything that contains it
Gone(p, targets) ==         \* targets: set of <<level, id>>
  [l \in 1..(D+1) |-> UNION { Up(p, Whole(p), t[1], Key(p, t[1], t[2]))[l] : t \in targets }]
EraseTargets(ev) == IF ev.op = "x" THEN { <<ev.a[2], ev.a[3]>> }
                    ELSE { <<ev.a[2*j], ev.a[2*j+1]>> : j \in 1..((Len(ev.a) - 1) \div 2) }
StepC07(ev, p, q) ==
  ev.op \in {"x", "xm"} =>
    LET g == Gone(p, EraseTargets(ev)) IN
    /\ ev.x = 0
    /\ q.V = { x \in p.V : x.i \notin g[1] }
    /\ \A k \in 1..D : IV(q, k) = { e \in IV(p, k) : e.i \notin g[k+1] } /\ q.n[k+1] = Cardinality(IV(q, k))
    /\ q.n[1] = Cardinality(q.V)
    /\ Closed(p) => Closed(q) /\ RefOrder(q)

\* C08: copies are equal and independent
StepC08(ev, P, Q) ==
  LET m == Slot(ev) IN
  CASE ev.op = "R" -> \A j \in 1..2 : MeshOf(Q[j]) = MeshOf(EmptyMesh)
    [] ev.op \in {"a", "cc"} ->
         LET t == ev.a[2] + 1 IN
         /\ ev.x = 0
         /\ MeshOf(Q[t]) = MeshOf(P[m])
         /\ \A j \in 1..(D+1) : Q[t].n[j] = P[m].n[j]
         /\ Q[t].o = 0
         /\ Closed(P[m]) /\ RefOrder(P[m]) => Closed(Q[t]) /\ RefOrder(Q[t])
         /\ t # m => Q[m] = P[m]
    [] ev.op = "cl" -> /\ MeshOf(Q[m]) = MeshOf(EmptyMesh) /\ NoDup(Q[m]) /\ Q[3-m] = P[3-m]
    [] OTHER -> Q[3-m] = P[3-m]

\* C09: geometric uniqueness (make_unique_vertex)
Dist2(a, b) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE (a[j]-b[j])*(a[j]-b[j]) + S(j-1) IN S(Len(a))
\* vertices closer than half of tol; tol = 0: the default tolerance, a millionth of the distance of the point from the origin
UniqueNear(V, pt, tol) == { x \in V : IF tol = 0 THEN x.p = pt /\ \E j \in 1..Len(pt) : pt[j] # 0 ELSE 4 * Dist2(x.p, pt) < tol * tol }
StepC09(ev, p, q, gd) ==
  ev.op = "vu" =>
    LET pt == Trunc(Coord(ev.a, 3), gd)
        near == UniqueNear(p.V, pt, ev.a[2])
    IN /\ ev.x = 0
       /\ near # {} => ev.r \in { x.i : x \in near } /\ q.V = p.V
       /\ near = {} => ev.r \notin Ids(p, 0) /\ q.V = p.V \cup { [i |-> ev.r, p |-> pt] }
       /\ \A k \in 1..D : IV(q, k) = IV(p, k)

\* C10: segment registry
Reg(M) == { [i |-> g.i, n |-> g.n] : g \in M.S }
SIds(M) == { g.i : g \in M.S }
SNames(M) == { g.n : g \in M.S }
Oddly(M) == \E g \in M.S : g.n # ToString(g.i) /\ g.n \in { ToString(j) : j \in 0..60 }   \* a name that looks like an id
StepC10(ev, p, q) ==
  /\ Cardinality(SIds(q)) = Cardinality(Reg(q)) /\ Cardinality(SNames(q)) = Cardinality(Reg(q))
  /\ ev.op \in {"v", "vi", "vu", "vp", "c", "ci", "e", "sv", "sc", "sa", "sx", "P", "x", "xm"} => Reg(q) = Reg(p)
  /\ ev.op = "sm" =>
       IF ev.x = 1 THEN Oddly(p) /\ Reg(q) = Reg(p)
       ELSE ev.r \notin SIds(p) /\ \E nm \in SNames(q) \ SNames(p) : Reg(q) = Reg(p) \cup { [i |-> ev.r, n |-> nm] }
  /\ ev.op = "sn" =>
       IF ev.n \in SNames(p) THEN ev.x = 0 /\ Reg(q) = Reg(p) /\ [i |-> ev.r, n |-> ev.n] \in Reg(p)
       ELSE IF ev.x = 1 THEN Oddly(p) /\ Reg(q) = Reg(p)
       ELSE ev.r \notin SIds(p) /\ Reg(q) = Reg(p) \cup { [i |-> ev.r, n |-> ev.n] }
  /\ ev.op = "si" =>
       IF ev.a[2] \in SIds(p) THEN ev.x = 0 /\ Reg(q) = Reg(p) /\ ev.r = ev.a[2]
       ELSE IF ev.x = 1 THEN Reg(q) = Reg(p) /\ Oddly(p)
       ELSE ev.r = ev.a[2] /\ \E nm \in SNames(q) \ SNames(p) : Reg(q) = Reg(p) \cup { [i |-> ev.r, n |-> nm] }
  /\ ev.op = "sr" =>
       IF ev.n \in { g.n : g \in { h \in p.S : h.i # ev.a[2] } } THEN ev.x = 1 /\ Reg(q) = Reg(p)
       ELSE ev.x = 0 /\ Reg(q) = { IF g.i = ev.a[2] THEN [i |-> g.i, n |-> ev.n] ELSE g : g \in Reg(p) }
  /\ ev.op = "scl" => ev.x = 0 /\ Reg(q) = {}

\* C11: segment membership
Mem(M) == [s \in SIds(M) |-> SegOf(M, s).e]
NoDupSeg(M) == \A g \in M.S : \A k \in 1..(D+1) : Cardinality(g.e[k]) = g.c[k]
Join(x, y) == [k \in 1..(D+1) |-> x[k] \cup y[k]]
Minus(x, y) == [k \in 1..(D+1) |-> x[k] \ y[k]]
None == [k \in 1..(D+1) |-> {}]
Common(p, q) == SIds(p) \cap SIds(q)
StepC11(ev, p, q) ==
  /\ NoDupSeg(q)
  /\ ev.op \in {"v", "vi", "vu", "vp", "c", "ci", "e", "P", "sm", "sn", "si", "sr"} =>
       /\ \A s \in Common(p, q) : Mem(q)[s] = Mem(p)[s]
       /\ \A s \in SIds(q) \ SIds(p) : Mem(q)[s] = None
  /\ ev.op \in {"sv", "sc", "sa", "sx"} =>
       LET s == ev.a[2] IN
       /\ ev.x = 0 /\ SIds(q) = SIds(p)
       /\ \A t \in SIds(p) \ {s} : Mem(q)[t] = Mem(p)[t]
       /\ ev.op = "sv" => Mem(q)[s] = Join(Mem(p)[s], Down(q, 0, ev.r))
       /\ ev.op = "sc" => Mem(q)[s] = Join(Mem(p)[s], Down(q, D, ev.r))
       /\ ev.op = "sa" => Mem(q)[s] = Join(Mem(p)[s], Down(q, ev.a[3], ev.a[4]))
       /\ ev.op = "sx" => Mem(q)[s] = Minus(Mem(p)[s], Up(p, Mem(p)[s], ev.a[3], Key(p, ev.a[3], ev.a[4])))
  /\ ev.op = "scl" => SIds(q) = {}

\* C10/C11 queries: answer of the membership dump
QMem(ev, M) ==
  /\ \A j \in 1..Len(ev.r.q) : LET x == ev.r.q[j]  w == { g.i : g \in { h \in M.S : x[2] \in h.e[x[1]+1] } } IN
       /\ Range(x[3]) = w /\ Len(x[3]) = Cardinality(w)
       /\ Range(x[4]) = w /\ Len(x[4]) = Cardinality(w)
  /\ \A k \in 0..D : LET w == UNION { g.e[k+1] : g \in M.S } IN
       Range(ev.r.all[k+1]) = w /\ Len(ev.r.all[k+1]) = Cardinality(w)
QReg(ev, M) ==
  /\ { x[1] : x \in Range(ev.r.acc) } = SIds(M) /\ \A j \in 1..Len(ev.r.acc) : ev.r.acc[j][2] = <<ev.r.acc[j][1]>>
  /\ Range(ev.r.found) = SIds(M) /\ Len(ev.r.found) = Cardinality(SIds(M))
  /\ \A j \in 1..Len(ev.r.fname) : LET x == ev.r.fname[j] IN IF x[1] \in SNames(M) THEN [i |-> x[2], n |-> x[1]] \in Reg(M) ELSE x[2] = -1
  /\ Range(ev.r.it) = SIds(M) /\ Len(ev.r.it) = Cardinality(SIds(M))
  /\ ev.r.empty = (IF M.S = {} THEN 1 ELSE 0) /\ \A i \in SIds(M) : i <= ev.r.up
  /\ ev.r.size = Cardinality(M.S)
  /\ Len(ev.r.name) = Cardinality(M.S)
  /\ \A j \in 1..Len(ev.r.name) : LET x == ev.r.name[j] IN x[1] \in SIds(M) /\ x[2] = 1 /\ x[3] = x[1] /\ x[4] = x[1]

\* C03 / C04 / C05 / C06 queries
IsSet(s, w) == Range(s) = w /\ Len(s) = Cardinality(w)
HostOf(M, s) == SegOf(M, s).e
QCob(ev, M) ==
  CASE ev.op = "qc"  -> IsSet(ev.r, Cob(M, Whole(M), ev.a[2], ev.a[3], ev.a[4]))
    [] ev.op = "qcs" -> LET H == HostOf(M, ev.a[2]) IN ev.a[5] \in H[ev.a[3]+1] => IsSet(ev.r, Cob(M, H, ev.a[3], ev.a[4], ev.a[5]))
    [] ev.op = "QC"  ->
         /\ \A j \in 1..Len(ev.r.m) : LET x == ev.r.m[j] IN IsSet(x[4], Cob(M, Whole(M), x[1], x[2], x[3]))
         /\ \A s \in 1..Len(ev.r.s) : LET H == HostOf(M, ev.r.s[s].i) IN
              \A j \in 1..Len(ev.r.s[s].q) : LET x == ev.r.s[s].q[j] IN IsSet(x[4], Cob(M, H, x[1], x[2], x[3]))
    [] OTHER -> TRUE
QNgb(ev, M) ==
  CASE ev.op = "qn"  -> IsSet(ev.r, Ngb(M, Whole(M), ev.a[2], ev.a[3], ev.a[4]))
    [] ev.op = "qns" -> LET H == HostOf(M, ev.a[2]) IN ev.a[5] \in H[ev.a[4]+1] => IsSet(ev.r, Ngb(M, H, ev.a[3], ev.a[4], ev.a[5]))
    [] ev.op = "QN"  ->
         /\ \A j \in 1..Len(ev.r.m) : LET x == ev.r.m[j] IN IsSet(x[4], Ngb(M, Whole(M), x[1], x[2], x[3]))
         /\ \A s \in 1..Len(ev.r.s) : LET H == HostOf(M, ev.r.s[s].i) IN
              \A j \in 1..Len(ev.r.s[s].q) : LET x == ev.r.s[s].q[j] IN IsSet(x[4], Ngb(M, H, x[1], x[2], x[3]))
    [] OTHER -> TRUE
QBnd(ev, M) ==
  CASE ev.op = "qb"  -> BndOK(M, Whole(M), ev.a[2], ev.a[3], ev.r = 1)
    [] ev.op = "qbs" -> LET H == HostOf(M, ev.a[2]) IN ev.a[4] \in H[ev.a[3]+1] => BndOK(M, H, ev.a[3], ev.a[4], ev.r = 1)
    [] ev.op = "QB"  ->
         /\ \A j \in 1..Len(ev.r.m) : LET x == ev.r.m[j] IN BndOK(M, Whole(M), x[1], x[2], x[3] = 1)
         /\ \A s \in 1..Len(ev.r.s) : LET H == HostOf(M, ev.r.s[s].i) IN
              \A j \in 1..Len(ev.r.s[s].q) : LET x == ev.r.s[s].q[j] IN BndOK(M, H, x[1], x[2], x[3] = 1)
    [] OTHER -> TRUE
QIfc(ev, M) ==
  CASE ev.op = "qi" -> ev.a[2] # ev.a[3] => IfcOK(M, SegOf(M, ev.a[2]), SegOf(M, ev.a[3]), ev.a[4], ev.a[5], ev.r = 1)
    [] ev.op = "QI" -> \A j \in 1..Len(ev.r) : LET x == ev.r[j] IN
                         IfcOK(M, SegOf(M, x[1]), SegOf(M, x[2]), x[3], x[4], x[5] = 1)
    [] OTHER -> TRUE

\* vertices of sub-elements in the order of the host: entries <<level, id, sub-level, position, vertices>>
QLocal(ev, M) ==
  /\ { ev.r[j] : j \in 1..Len(ev.r) } = UNION { { <<l, e.i, k, j, [n \in 1..Len(SubIdx(LTy(l), k)[j]) |-> e.v[SubIdx(LTy(l), k)[j][n]]]>> : j \in 1..Len(SubIdx(LTy(l), k)) } : <<l, k, e>> \in UNION { { <<l, k, e>> : k \in 1..(l-1), e \in M.E[l] } : l \in 2..D } }
\* C24: every way to walk a range shows one and the same sequence, and it is the content of the host.
\* H: [h |-> -2 mesh / -1 all segments / segment id, k |-> level, q |-> distinct sequences seen, n |-> size(), e |-> empty(),
\*     x, y |-> front and back through range and const range, f, t, g |-> ids found by id, by element, by handle, u |-> id_upper_bound]
\* E: <<level of the host, its id, level, distinct sequences seen, size, empty, front/back, the same of the const range>>
Ends(s) == <<s[1], s[1], s[Len(s)], s[Len(s)]>>
HostIds(M, h, k) == IF h = -2 THEN Ids(M, k) ELSE IF h = -1 THEN UNION { g.e[k+1] : g \in M.S } ELSE SegOf(M, h).e[k+1]
RangeOK(x, w) ==
  /\ Len(x.q) = 1 /\ IsSet(x.q[1], w) /\ x.n = <<Len(x.q[1])>> /\ x.e = (IF w = {} THEN 1 ELSE 0)
  /\ x.x # <<>> => x.x = Ends(x.q[1])
  /\ x.y # <<>> => x.y = Ends(x.q[1])
  /\ IsSet(x.f, w) /\ IsSet(x.t, w) /\ IsSet(x.g, w)
  /\ x.u # -1 => \A i \in w : i < x.u
SubRangeOK(x, M) ==
  LET e == Elem(M, x[1], x[2])  s == IF x[3] = 0 THEN e.v ELSE e.b[x[3]] IN
  x[4] = <<s>> /\ x[5] = Len(s) /\ x[6] = 0 /\ x[7] = Ends(s) /\ x[8] = Ends(s)
QRange(ev, M) ==
  /\ { <<ev.r.H[j].h, ev.r.H[j].k>> : j \in 1..Len(ev.r.H) } = ({-2, -1} \cup SIds(M)) \X (0..D)
  /\ \A j \in 1..Len(ev.r.H) : LET x == ev.r.H[j] IN RangeOK(x, HostIds(M, x.h, x.k))
  /\ { <<ev.r.E[j][1], ev.r.E[j][2], ev.r.E[j][3]>> : j \in 1..Len(ev.r.E) } = UNION { UNION { { <<n, e.i, k>> : k \in 0..(n-1) } : e \in M.E[n] } : n \in 1..D }
  /\ \A j \in 1..Len(ev.r.E) : SubRangeOK(ev.r.E[j], M)
\* what a creating operation returned is there, what was there stays
StepC24(ev, p, q) ==
  /\ NoDup(q) /\ NoDupSeg(q)
  /\ ev.x = 0 /\ ev.op \in {"v", "vi", "vu", "sv"} => ev.r \in Ids(q, 0) /\ Ids(p, 0) \subseteq Ids(q, 0)
  /\ ev.x = 0 /\ ev.op \in {"c", "ci", "sc"} => ev.r \in Ids(q, D) /\ Ids(p, D) \subseteq Ids(q, D)
QueryOK(c, ev, M) ==
  IF ev.x = 1 THEN FALSE ELSE
  CASE c = "C03" -> QCob(ev, M)
    [] c = "C04" -> QNgb(ev, M)
    [] c = "C05" -> QBnd(ev, M)
    [] c = "C06" -> QIfc(ev, M)
    [] c = "C10" -> ev.op = "QM" => QReg(ev, M)
    [] c = "C11" -> ev.op = "QM" => QMem(ev, M)
    [] c = "C23" -> ev.op = "QL" => QLocal(ev, M)
    [] c = "C24" -> ev.op = "QR" => QRange(ev, M)
    [] OTHER -> TRUE

\* one predicate per property over a mutating step
StepOK(c, ev, P, Q, u, gd) ==
  LET m == Slot(ev) IN
  CASE ev.op \in {"R", "end"} -> IF c = "C08" /\ ev.op = "R" THEN StepC08(ev, P, Q) ELSE TRUE
    [] ev.f = 1 -> c = "C02" => MeshOf(Q[m]) = MeshOf(P[m])
    [] c = "C01" -> StepC01(ev, P[m], Q[m])
    [] c = "C02" -> StepC02(ev, P[m], Q[m], u[m], gd)
    [] c = "C07" -> StepC07(ev, P[m], Q[m])
    [] c = "C08" -> StepC08(ev, P, Q)
    [] c = "C09" -> StepC09(ev, P[m], Q[m], gd)
    [] c = "C10" -> (ev.op \in SegOps \cup {"v", "c", "e", "P"}) => StepC10(ev, P[m], Q[m])
    [] c = "C11" -> (ev.op \in SegOps \cup {"v", "vi", "vu", "vp", "c", "ci", "e", "P"}) => StepC11(ev, P[m], Q[m])
    [] c = "C23" -> StepC23(ev, P[m], Q[m])
    [] c = "C24" -> StepC24(ev, P[m], Q[m])
    [] OTHER -> TRUE
=============================================================================
