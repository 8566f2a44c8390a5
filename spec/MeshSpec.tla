------------------------------ MODULE MeshSpec ------------------------------
(* The state machine: two mesh slots, each with a segmentation, driven by   *)
(* the public operations.  Apply(ev, W) is the (deterministic) effect of    *)
(* one operation; MCMesh explores all operations exhaustively, MeshGen      *)
(* draws random behaviours that are replayed into the library.              *)
EXTENDS Mesh, SequencesExt

CONSTANT GD                      \* geometric dimension
\* W = [M |-> <<slot, slot>>, nx |-> << <<next id of level 0, 1, ..>>, .. >>, hi |-> << highest segment id, .. >>]
W0 == [M |-> <<EmptyMesh, EmptyMesh>>, nx |-> << [k \in 1..(D+1) |-> 0], [k \in 1..(D+1) |-> 0] >>, hi |-> <<-1, -1>>]

Max2(a, b) == IF a > b THEN a ELSE b
Tuple(t, vs, k, j) == [n \in 1..Len(SubIdx(t, k)[j]) |-> vs[SubIdx(t, k)[j][n]]]
IdOfKey(M, k, key) == IF k = 0 THEN CHOOSE id \in key : TRUE ELSE (CHOOSE e \in M.E[k] : VS(e) = key).i
BList(M, l, vs) == [k \in 1..(l-1) |-> [j \in 1..Len(SubIdx(LTy(l), k)) |-> IdOfKey(M, k, Range(Tuple(LTy(l), vs, k, j)))]]

\* insert the missing level-k sub-elements of an element of level l with vertices vs; st = [M, nx]
InsertSubs(st, l, vs, k) ==
  LET idx == { j \in 1..Len(SubIdx(LTy(l), k)) : Range(Tuple(LTy(l), vs, k, j)) \notin Keys(st.M, k) }
      rank(j) == Cardinality({ i \in idx : i < j })
      new == { [i |-> st.nx[k+1] + rank(j), v |-> Tuple(LTy(l), vs, k, j),
                b |-> BList(st.M, k, Tuple(LTy(l), vs, k, j))] : j \in idx }
  IN [M |-> [st.M EXCEPT !.E[k] = @ \cup new, !.n[k+1] = @ + Cardinality(idx)],
      nx |-> [st.nx EXCEPT ![k+1] = @ + Cardinality(idx)]]
RECURSIVE SubsUpTo(_, _, _, _)
SubsUpTo(st, l, vs, k) == IF k = 0 THEN st ELSE InsertSubs(SubsUpTo(st, l, vs, k-1), l, vs, k)
InsertElem(st, l, vs, id) ==
  LET s1 == SubsUpTo(st, l, vs, l-1)
      e == [i |-> id, v |-> vs, b |-> BList(s1.M, l, vs)]
  IN [M |-> [s1.M EXCEPT !.E[l] = @ \cup {e}, !.n[l+1] = @ + 1],
      nx |-> [s1.nx EXCEPT ![l+1] = Max2(@, id + 1)]]
InsertVertex(st, p, id) ==
  [M |-> [st.M EXCEPT !.V = @ \cup { [i |-> id, p |-> Trunc(p, GD)] }, !.n[1] = @ + 1],
   nx |-> [st.nx EXCEPT ![1] = Max2(@, id + 1)]]

Recount(M) == [M EXCEPT !.n = [k \in 1..(D+1) |-> Cardinality(Ids(M, k-1))],
                        !.S = { [g EXCEPT !.c = [k \in 1..(D+1) |-> Cardinality(g.e[k])]] : g \in M.S }]
EraseSet(M, targets) ==
  LET g == Gone(M, targets) IN
  Recount([M EXCEPT !.V = { x \in M.V : x.i \notin g[1] },
                    !.E = [k \in 1..D |-> { e \in M.E[k] : e.i \notin g[k+1] }]])
NewSeg(id, nm) == [i |-> id, n |-> nm, e |-> None, c |-> [k \in 1..(D+1) |-> 0]]
SetMem(M, s, mem) == Recount([M EXCEPT !.S = { IF g.i = s THEN [g EXCEPT !.e = mem] ELSE g : g \in M.S }])

\* effect of ev (fields op, a, n) on W; x and r are the exception flag and result the machine predicts
Apply(ev, W) ==
  LET m == Slot(ev)
      st == [M |-> W.M[m], nx |-> W.nx[m]]
      Put(s2) == [W EXCEPT !.M[m] = s2.M, !.nx[m] = s2.nx]
      PutM(M2) == [W EXCEPT !.M[m] = M2]
      Ok(w, r) == [W |-> w, x |-> 0, r |-> r]
      Bad == [W |-> W, x |-> 1, r |-> 0]
      mk(id, nm) == IF nm \in SNames(st.M) THEN Bad
                    ELSE Ok([W EXCEPT !.M[m].S = @ \cup { NewSeg(id, nm) }, !.hi[m] = Max2(@, id)], id)
  IN
  CASE ev.op = "R" -> Ok(W0, 0)
    [] ev.op = "v" -> Ok(Put(InsertVertex(st, Coord(ev.a, 2), st.nx[1])), st.nx[1])
    [] ev.op = "vi" -> Ok(Put(InsertVertex(st, Coord(ev.a, 3), ev.a[2])), ev.a[2])
    [] ev.op = "vu" ->
         LET near == UniqueNear(st.M.V, Trunc(Coord(ev.a, 3), GD), ev.a[2]) IN
         IF near # {} THEN Ok(W, (CHOOSE x \in near : \A y \in near : x.i <= y.i).i)
         ELSE Ok(Put(InsertVertex(st, Coord(ev.a, 3), st.nx[1])), st.nx[1])
    [] ev.op = "vp" -> Ok(PutM([st.M EXCEPT !.V = { IF x.i = ev.a[2] THEN [x EXCEPT !.p = Trunc(Coord(ev.a, 3), GD)] ELSE x : x \in @ }]), 0)
    [] ev.op = "c" -> Ok(Put(InsertElem(st, D, Tl(ev.a, 2), st.nx[D+1])), st.nx[D+1])
    [] ev.op = "ci" -> Ok(Put(InsertElem(st, D, Tl(ev.a, 3), ev.a[2])), ev.a[2])
    [] ev.op = "e" ->
         LET k == ev.a[2]  vs == Tl(ev.a, 3) IN
         IF k < D /\ Range(vs) \in Keys(st.M, k) THEN Ok(W, IdOfKey(st.M, k, Range(vs)))
         ELSE Ok(Put(InsertElem(st, k, vs, st.nx[k+1])), st.nx[k+1])
    [] ev.op \in {"x", "xm"} -> Ok(PutM(EraseSet(st.M, EraseTargets(ev))), 0)
    [] ev.op \in {"a", "cc"} -> Ok([W EXCEPT !.M[ev.a[2]+1] = [st.M EXCEPT !.S = IF ev.a[2]+1 = m THEN @ ELSE {}],
                                             !.nx[ev.a[2]+1] = st.nx, !.hi[ev.a[2]+1] = IF ev.a[2]+1 = m THEN @ ELSE -1], 0)
    [] ev.op = "cl" -> Ok([W EXCEPT !.M[m] = EmptyMesh, !.nx[m] = [k \in 1..(D+1) |-> 0], !.hi[m] = -1], 0)
    [] ev.op = "sm" -> LET id == W.hi[m] + 1 IN
                       IF ToString(id) \in SNames(st.M) THEN [Bad EXCEPT !.W.hi[m] = id] ELSE mk(id, ToString(id))
    [] ev.op = "sn" ->
         IF ev.n \in SNames(st.M) THEN Ok(W, (CHOOSE g \in st.M.S : g.n = ev.n).i)
         ELSE LET id == W.hi[m] + 1 IN
              IF ToString(id) \in SNames(st.M) THEN [Bad EXCEPT !.W.hi[m] = id] ELSE mk(id, ev.n)
    [] ev.op = "si" -> IF ev.a[2] \in SIds(st.M) THEN Ok(W, ev.a[2]) ELSE mk(ev.a[2], ToString(ev.a[2]))
    [] ev.op = "sr" -> IF ev.n \in { g.n : g \in { h \in st.M.S : h.i # ev.a[2] } } THEN Bad
                       ELSE Ok(PutM([st.M EXCEPT !.S = { IF g.i = ev.a[2] THEN [g EXCEPT !.n = ev.n] ELSE g : g \in @ }]), 0)
    [] ev.op = "sv" -> LET s2 == InsertVertex(st, Coord(ev.a, 3), st.nx[1]) IN
                       Ok([Put(s2) EXCEPT !.M[m] = SetMem(s2.M, ev.a[2], Join(Mem(st.M)[ev.a[2]], Down(s2.M, 0, st.nx[1])))], st.nx[1])
    [] ev.op = "sc" -> LET s2 == InsertElem(st, D, Tl(ev.a, 3), st.nx[D+1]) IN
                       Ok([Put(s2) EXCEPT !.M[m] = SetMem(s2.M, ev.a[2], Join(Mem(st.M)[ev.a[2]], Down(s2.M, D, st.nx[D+1])))], st.nx[D+1])
    [] ev.op = "sa" -> Ok(PutM(SetMem(st.M, ev.a[2], Join(Mem(st.M)[ev.a[2]], Down(st.M, ev.a[3], ev.a[4])))), 0)
    [] ev.op = "sx" -> Ok(PutM(SetMem(st.M, ev.a[2],
                          Minus(Mem(st.M)[ev.a[2]], Up(st.M, Mem(st.M)[ev.a[2]], ev.a[3], Key(st.M, ev.a[3], ev.a[4]))))), 0)
    [] ev.op = "scl" -> Ok([W EXCEPT !.M[m].S = {}, !.hi[m] = -1], 0)
    [] OTHER -> Ok(W, 0)

Ev(op, a) == [op |-> op, a |-> a, n |-> "", x |-> 0, f |-> 0, r |-> 0]
EvN(op, a, nm) == [op |-> op, a |-> a, n |-> nm, x |-> 0, f |-> 0, r |-> 0]

-----------------------------------------------------------------------------
(* Rendering: element references become vertex lists *)
RECURSIVE JoinS(_, _)
JoinS(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o sep \o JoinS(Tail(s), sep)
Ref(M, j, id) == IF j = 0 THEN ToString(id) ELSE JoinS(Elem(M, j, id).v, ",")
RECURSIVE Refs(_, _, _)
Refs(M, j, ids) == IF ids = <<>> THEN "" ELSE " " \o Ref(M, j, ids[1]) \o Refs(M, j, Tail(ids))
Line(e, M) ==
  LET a == e.a IN
  CASE e.op = "x" -> "x " \o ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o Ref(M, a[2], a[3])
    [] e.op = "xm" -> "xm " \o ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o Ref(M, a[2], a[3]) \o " " \o ToString(a[4]) \o " " \o Ref(M, a[4], a[5])
    [] e.op \in {"sa", "sx"} -> e.op \o " " \o ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(a[3]) \o " " \o Ref(M, a[3], a[4])
    [] e.op = "qc" -> "qc " \o JoinS(SubSeq(a, 1, 3), " ") \o " " \o Ref(M, a[2], a[4])
    [] e.op = "qn" -> "qn " \o JoinS(SubSeq(a, 1, 3), " ") \o " " \o Ref(M, a[3], a[4])
    [] e.op = "qcs" -> "qcs " \o JoinS(SubSeq(a, 1, 4), " ") \o " " \o Ref(M, a[3], a[5])
    [] e.op = "qns" -> "qns " \o JoinS(SubSeq(a, 1, 4), " ") \o " " \o Ref(M, a[4], a[5])
    [] e.op = "qb" -> "qb " \o JoinS(SubSeq(a, 1, 2), " ") \o " " \o Ref(M, a[2], a[3])
    [] e.op = "qbs" -> "qbs " \o JoinS(SubSeq(a, 1, 3), " ") \o " " \o Ref(M, a[3], a[4])
    [] e.op = "qi" -> "qi " \o JoinS(SubSeq(a, 1, 4), " ") \o " " \o Ref(M, a[4], a[5])
    [] e.op = "rf" -> "rf " \o JoinS(SubSeq(a, 1, 3), " ") \o Refs(M, 1, Tl(a, 4))
    [] e.op = "gl" -> "gl " \o ToString(a[1]) \o Refs(M, 1, Tl(a, 2))
    [] e.op \in {"dw", "df", "da", "dr"} -> e.op \o " " \o JoinS(SubSeq(a, 1, 4), " ") \o " " \o Ref(M, a[2], a[5]) \o " " \o ToString(a[6])
    [] e.op = "rl" -> "rl " \o ToString(a[1]) \o Refs(M, 1, Tl(a, 2))
    [] e.op = "rc" -> "rc " \o JoinS(SubSeq(a, 1, 3), " ") \o Refs(M, D, Tl(a, 4))
    [] OTHER -> e.op \o (IF a = <<>> THEN "" ELSE " " \o JoinS(a, " ")) \o (IF e.n = "" THEN "" ELSE " \"" \o e.n)
=============================================================================
