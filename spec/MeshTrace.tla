----------------------------- MODULE MeshTrace -----------------------------
(* Trace validation: the NDJSON log of the real library is accepted iff     *)
(* every step satisfies the step relation of the checked properties.        *)
EXTENDS Refine, Geo, Points, Copy, Alg, Vtk, Io, Voro, Json, IOUtils
CONSTANTS Checked, GD
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

SetOf(s) == { s[j] : j \in 1..Len(s) }
AbsSeg(g) == [i |-> g.i, n |-> g.n, e |-> [k \in 1..(D+1) |-> SetOf(g.e[k])], c |-> [k \in 1..(D+1) |-> Len(g.e[k])]]
Abs(s) == [V |-> SetOf(s.V), E |-> [k \in 1..D |-> SetOf(s.E[k])],
           S |-> { AbsSeg(s.S[j]) : j \in 1..Len(s.S) },
           n |-> [k \in 1..(D+1) |-> IF k = 1 THEN Len(s.V) ELSE Len(s.E[k-1])], o |-> s.o]

VARIABLES l, M, used, data
vars == <<l, M, used, data>>
Init == TLCSet(1, 0) /\ l = 1 /\ data = {} /\ M = <<EmptyMesh, EmptyMesh>> /\ used = <<[k \in 1..(D+1) |-> {}], [k \in 1..(D+1) |-> {}]>>

Used2(ev, Q) == [j \in 1..2 |->
   IF ev.op = "R" THEN [k \in 1..(D+1) |-> {}]
   ELSE IF ev.op \in {"cl", "lb"} /\ ev.a[1]+1 = j THEN [k \in 1..(D+1) |-> Ids(Q[j], k-1)]
   ELSE IF ev.op \in {"a", "cc"} /\ ev.a[2]+1 = j THEN [k \in 1..(D+1) |-> Ids(Q[j], k-1)]
   ELSE [k \in 1..(D+1) |-> used[j][k] \cup Ids(Q[j], k-1)]]

\* a rejected step is reported and counted; the state is bound to the log, so the rest of the trace is still checked
Reject(c, ev) == PrintT(<<"REJECT", c, l, ev.op, ev.a>>) /\ TLCSet(1, TLCGet(1) + 1)
Step(c, ev, Q) == CASE c = "C12" -> ev.op \notin {"R", "end"} => StepC12(ev, M, Q)
                    [] c = "C09" -> ev.op \notin {"R", "end"} => StepC09All(ev, M, Q, GD)
                    [] c = "C13" -> ev.op \notin {"R", "end"} => StepC13(ev, M, Q)
                    [] c = "C14" -> ev.op \notin {"R", "end"} => StepC14(ev, M, Q)
                    [] c = "C22" -> ev.op \notin {"R", "end"} => StepC22(ev, M, Q)
                    [] c \in {"C15", "C16", "C17", "C19", "C20", "C18", "C21", "C25", "C26"} -> ev.op \notin {"R", "end", "sm", "sn", "si", "sr"} => ev.x = 0
                    [] OTHER -> StepOK(c, ev, M, Q, used, GD)
Ask(c, ev) == CASE c = "C12" -> QueryC12(ev, M[Slot(ev)])
                [] c = "C13" -> ev.x = 0
                [] c = "C14" -> QueryC14(ev, M[Slot(ev)])
                [] c = "C25" -> QueryC25(ev, M[Slot(ev)], GD)
                [] c = "C26" -> QueryC26(ev)
                [] c = "C15" -> QueryC15(ev, M[Slot(ev)], GD)
                [] c = "C16" -> QueryC16(ev, M[Slot(ev)], GD)
                [] c = "C17" -> QueryC17(ev, M[Slot(ev)], GD)
                [] c = "C18" -> QueryC18(ev, M[Slot(ev)])
                [] c = "C19" -> QueryC19(ev, M[Slot(ev)], GD)
                [] c = "C20" -> QueryC20(ev, M[Slot(ev)], data)
                [] c = "C21" -> QueryC21(ev, M[Slot(ev)])
                [] OTHER -> QueryOK(c, ev, M[Slot(ev)])
Mutate == LET ev == Trace[l] IN
  /\ "s" \in DOMAIN ev
  /\ \E Q \in { <<Abs(ev.s[1]), Abs(ev.s[2])>> } :
       /\ \A c \in Checked : IF Step(c, ev, Q) THEN TRUE ELSE Reject(c, ev)
       /\ M' = Q
       /\ used' = Used2(ev, Q)
Query == LET ev == Trace[l] IN
  /\ "s" \notin DOMAIN ev
  /\ IF ev.op = "end" \/ ev.f = 1 THEN TRUE ELSE \A c \in Checked : IF Ask(c, ev) THEN TRUE ELSE Reject(c, ev)
  /\ UNCHANGED <<M, used>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ data' = DataNext(Trace[l], data) /\ (Mutate \/ Query)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet(1) = 0 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
