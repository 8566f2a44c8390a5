------------------------------- MODULE MCMesh -------------------------------
(* Exhaustive exploration of the machine within small constants: every      *)
(* transition satisfies every step predicate the trace validation uses, and *)
(* every reachable state satisfies the theory's invariants.                 *)
EXTENDS MeshSpec, FiniteSetsExt
CONSTANTS NVMax, NCMax, NSMax, Ops, Slots, MaxSteps,
          Prefix          \* events executed before the exploration starts
VARIABLES W, ev, used, steps, hist
vars == <<W, ev, used, steps, hist>>

Pts == << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>, <<2,2,0>>, <<2,0,2>>, <<0,2,2>>, <<2,2,2>>, <<4,0,0>> >>
\* vertex tuples of level l: one canonical order per vertex set plus its reversal
Tuples(M, l) == LET n == NVert(LTy(l)) IN
  UNION { { SetToSeq(s), Reverse(SetToSeq(s)) } : s \in { x \in SUBSET Ids(M, 0) : Cardinality(x) = n } }

Enabled(m) ==
  LET M == W.M[m]  z == m - 1
      pt == Pts[(W.nx[m][1] % Len(Pts)) + 1]
      segs == SIds(M)
      lv == 0..D
      segfree == \A g \in M.S : g.e = None
      free == { v \in Tuples(M, D) : Range(v) \notin Keys(M, D) }
  IN
  (IF "v" \in Ops /\ Cardinality(M.V) < NVMax THEN { Ev("v", <<z>> \o pt) } ELSE {})
  \cup (IF "vi" \in Ops /\ Cardinality(M.V) < NVMax THEN { Ev("vi", <<z, W.nx[m][1]>> \o pt), Ev("vi", <<z, W.nx[m][1] + 2>> \o pt) } ELSE {})
  \cup (IF "vu" \in Ops /\ Cardinality(M.V) < NVMax THEN { Ev("vu", <<z, tol>> \o pt) : tol \in {0, 1, 5} } ELSE {})
  \cup (IF "vp" \in Ops THEN { Ev("vp", <<z, v, 9, 9, 9>>) : v \in Ids(M, 0) } ELSE {})
  \cup (IF "c" \in Ops /\ Cardinality(M.E[D]) < NCMax THEN { Ev("c", <<z>> \o v) : v \in free } ELSE {})
  \cup (IF "ci" \in Ops /\ Cardinality(M.E[D]) < NCMax THEN { Ev("ci", <<z, W.nx[m][D+1] + 1>> \o v) : v \in free } ELSE {})
  \cup (IF "e" \in Ops THEN UNION { { Ev("e", <<z, k>> \o v) : v \in Tuples(M, k) } : k \in 1..(D-1) } ELSE {})
  \cup (IF "x" \in Ops /\ segfree THEN UNION { { Ev("x", <<z, k, id>>) : id \in Ids(M, k) } : k \in lv } ELSE {})
  \cup (IF "xm" \in Ops /\ segfree THEN
          UNION { UNION { { Ev("xm", <<z, k, id, 0, v>>) : id \in Ids(M, k) } : k \in lv } : v \in Ids(M, 0) } ELSE {})
  \cup (IF "a" \in Ops THEN { Ev("a", <<z, 1-z>>), Ev("cc", <<z, 1-z>>), Ev("a", <<z, z>>) } ELSE {})
  \cup (IF "cl" \in Ops THEN { Ev("cl", <<z>>) } ELSE {})
  \cup (IF "sm" \in Ops /\ Cardinality(segs) < NSMax THEN { Ev("sm", <<z>>) } ELSE {})
  \cup (IF "sn" \in Ops /\ Cardinality(segs) < NSMax THEN { EvN("sn", <<z>>, nm) : nm \in {"a", "1"} } ELSE {})
  \cup (IF "si" \in Ops /\ Cardinality(segs) < NSMax THEN { Ev("si", <<z, i>>) : i \in {0, 2} } ELSE {})
  \cup (IF "sr" \in Ops THEN { EvN("sr", <<z, s>>, nm) : s \in segs, nm \in {"a", "1"} } ELSE {})
  \cup (IF "sv" \in Ops /\ Cardinality(M.V) < NVMax THEN { Ev("sv", <<z, s>> \o pt) : s \in segs } ELSE {})
  \cup (IF "sc" \in Ops /\ Cardinality(M.E[D]) < NCMax THEN UNION { { Ev("sc", <<z, s>> \o v) : s \in segs } : v \in free } ELSE {})
  \cup (IF "sa" \in Ops THEN UNION { UNION { { Ev("sa", <<z, s, k, id>>) : id \in Ids(M, k) } : k \in lv } : s \in segs } ELSE {})
  \cup (IF "sx" \in Ops THEN UNION { UNION { { Ev("sx", <<z, s, k, id>>) : id \in SegOf(M, s).e[k+1] } : k \in lv } : s \in segs } ELSE {})
  \cup (IF "scl" \in Ops THEN { Ev("scl", <<z>>) } ELSE {})

NoUse == << [k \in 1..(D+1) |-> {}], [k \in 1..(D+1) |-> {}] >>
RECURSIVE Pre(_)
Pre(n) == IF n = 0 THEN [W |-> W0, h |-> ""]
          ELSE LET q == Pre(n-1)  e == Prefix[n] IN [W |-> Apply(e, q.W).W, h |-> q.h \o ";" \o Line(e, q.W.M[Slot(e)])]
Init == \E q \in { Pre(Len(Prefix)) } :
        W = q.W /\ ev = Ev("R", <<>>) /\ used = [j \in 1..2 |-> [k \in 1..(D+1) |-> Ids(q.W.M[j], k-1)]] /\ steps = 0 /\ hist = q.h
Next == /\ steps < MaxSteps
        /\ \E m \in Slots : \E e \in Enabled(m) : \E res \in { Apply(e, W) } :
           /\ ev' = [e EXCEPT !.x = res.x, !.r = res.r]
           /\ W' = res.W
           /\ used' = [j \in 1..2 |->
                 IF e.op = "cl" /\ e.a[1]+1 = j THEN [k \in 1..(D+1) |-> {}]
                 ELSE IF e.op \in {"a", "cc"} /\ e.a[2]+1 = j THEN [k \in 1..(D+1) |-> Ids(res.W.M[j], k-1)]
                 ELSE [k \in 1..(D+1) |-> used[j][k] \cup Ids(res.W.M[j], k-1)]]
           /\ hist' = hist \o ";" \o Line(e, W.M[m])
        /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
View == <<W, used>>
ViewT == <<W, used, ev>>            \* distinguishes the last operation: every transition is emitted
Emit == PrintT("@" \o hist)         \* as invariant: one script per distinct state (transition)

Props == {"C01", "C02", "C07", "C08", "C09", "C10", "C11", "C23"}
\* every transition of the machine satisfies every step predicate
StepsOK == [][\A c \in Props : StepOK(c, ev', W.M, W'.M, used, GD)]_vars

\* theory invariants
InvWF == \A m \in 1..2 : LET M == W.M[m] IN Closed(M) /\ RefOrder(M) /\ NoDup(M)
InvSeg == \A m \in 1..2 : NoDupSeg(W.M[m])
InvIds == \A m \in 1..2 : \A k \in 0..D : \A id \in Ids(W.M[m], k) : id < W.nx[m][k+1]
\* co-boundary and neighbourhood relations are mutually consistent
InvDual == \A m \in 1..2 : LET M == W.M[m]  H == Whole(M) IN
  \A l \in 1..D : \A k \in 0..(l-1) :
    /\ \A id \in Ids(M, k) : \A e \in M.E[l] : (e.i \in Cob(M, H, k, l, id)) <=> (id \in Down(M, l, e.i)[k+1])
    /\ \A e \in M.E[l] : \A j \in Ngb(M, H, k, l, e.i) : e.i \in Ngb(M, H, k, l, j)
\* mod-2 boundary of a boundary is empty; boundary of a union of disjoint segments is the symmetric difference
InvBnd == \A m \in 1..2 : LET M == W.M[m]  H == Whole(M)
     odd(HH) == { f \in Keys(M, D-1) : CellsOn(M, HH, f) % 2 = 1 } IN
  /\ D >= 2 => \A id \in Ids(M, D-2) :
       Cardinality({ f \in M.E[D-1] : VS(f) \in odd(H) /\ Key(M, D-2, id) \in Subs(f, D-1, D-2) }) % 2 = 0
  /\ \A A, B \in M.S : A.e[D+1] \cap B.e[D+1] = {} /\ A.i # B.i =>
       odd([k \in 1..(D+1) |-> A.e[k] \cup B.e[k]]) = (odd(A.e) \ odd(B.e)) \cup (odd(B.e) \ odd(A.e))
=============================================================================
