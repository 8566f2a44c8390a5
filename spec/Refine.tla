------------------------------- MODULE Refine -------------------------------
(* Refinement of simplex meshes, independent of any particular subdivision   *)
(* scheme.  Every vertex of the output is an input vertex or the new vertex  *)
(* of one refined edge; its barycentric weights (sum 4) over the vertices of *)
(* the input cell decide orientation, volume and conformity exactly and in   *)
(* integers, without looking at coordinates again.                           *)
EXTENDS Mesh

RefineOps == {"rf", "rm", "ru", "rc", "rh"}
Half(p, q) == [j \in 1..Len(p) |-> (p[j] + q[j]) \div 2]
EvenSum(p, q) == \A j \in 1..Len(p) : (p[j] + q[j]) % 2 = 0
RTags(ev, P) ==
  CASE ev.op = "rf" -> { e \in P.E[1] : e.i \in Range(Tl(ev.a, 4)) }
    [] ev.op = "rm" -> { e \in P.E[1] : e.i % ev.a[4] = ev.a[5] }
    [] ev.op = "ru" -> P.E[1]
    [] ev.op = "rc" -> { e \in P.E[1] : \E c \in P.E[D] : c.i \in Range(Tl(ev.a, 4)) /\ VS(e) \in Subs(c, D, 1) }
    [] ev.op = "rh" -> LET x == ev.a[4] + 1  c == ev.a[5] IN
         { e \in P.E[1] : LET s == Point(P, e.v[1])[x] - c  t == Point(P, e.v[2])[x] - c IN (s < 0 /\ t > 0) \/ (s > 0 /\ t < 0) }
\* new vertex of a refined edge: point and weights, when both are integers; otherwise the step is outside the exact scope
CutOK(ev, P, e) ==
  LET p == Point(P, e.v[1])  q == Point(P, e.v[2]) IN
  IF ev.op # "rh" THEN EvenSum(p, q)
  ELSE LET x == ev.a[4] + 1  c == ev.a[5]  n == q[x] - p[x]  k == c - p[x] IN
       (4 * k) % n = 0 /\ \A j \in 1..Len(p) : (k * (q[j] - p[j])) % n = 0
\* TLA+ % and \div want a positive divisor: orient the edge upwards first
Up2(ev, P, e) == LET x == ev.a[4] + 1 IN IF Point(P, e.v[1])[x] < Point(P, e.v[2])[x] THEN e.v ELSE <<e.v[2], e.v[1]>>
Cut(ev, P, e) ==
  IF ev.op # "rh" THEN [p |-> Half(Point(P, e.v[1]), Point(P, e.v[2])), w |-> (e.v[1] :> 2 @@ e.v[2] :> 2)]
  ELSE LET v == Up2(ev, P, e)  p == Point(P, v[1])  q == Point(P, v[2])  x == ev.a[4] + 1
           n == q[x] - p[x]  k == ev.a[5] - p[x]  t == (4 * k) \div n IN
       [p |-> [j \in 1..Len(p) |-> p[j] + ((k * (q[j] - p[j])) \div n)], w |-> (v[1] :> (4 - t) @@ v[2] :> t)]
CutExact(ev, P, e) ==
  IF ev.op # "rh" THEN CutOK(ev, P, e)
  ELSE LET v == Up2(ev, P, e) IN CutOK(ev, P, [e EXCEPT !.v = v])

Abs1(x) == IF x < 0 THEN -x ELSE x
Det2(a, b) == a[1]*b[2] - a[2]*b[1]
Det3(a, b, c) == a[1]*(b[2]*c[3] - b[3]*c[2]) - a[2]*(b[1]*c[3] - b[3]*c[1]) + a[3]*(b[1]*c[2] - b[2]*c[1])
DropC(r, j) == [i \in 1..(Len(r)-1) |-> IF i < j THEN r[i] ELSE r[i+1]]
Det4(a, b, c, d) ==
  a[1]*Det3(DropC(b,1), DropC(c,1), DropC(d,1)) - a[2]*Det3(DropC(b,2), DropC(c,2), DropC(d,2))
  + a[3]*Det3(DropC(b,3), DropC(c,3), DropC(d,3)) - a[4]*Det3(DropC(b,4), DropC(c,4), DropC(d,4))
DetM(m) == CASE Len(m) = 2 -> Det2(m[1], m[2]) [] Len(m) = 3 -> Det3(m[1], m[2], m[3]) [] Len(m) = 4 -> Det4(m[1], m[2], m[3], m[4])
Pow4(n) == CASE n = 2 -> 16 [] n = 3 -> 64 [] n = 4 -> 256

\* a sequence of the elements of a set, in increasing order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

RefineGeo(P, Q, cuts) ==
  LET exp == { [p |-> x.p, w |-> (x.i :> 4)] : x \in P.V } \cup cuts
      pts == { e.p : e \in exp }
      ofp == [p \in pts |-> (CHOOSE e \in exp : e.p = p).w]
  IN
  /\ \A x \in Q.V : x.p \in pts                                               \* no vertex elsewhere
  /\ Cardinality({ x.p : x \in Q.V }) = Cardinality(Q.V)                      \* and none twice
  /\ \A c \in cuts : \E x \in Q.V : x.p = c.p                                 \* every refined edge is cut
  /\ \A x \in P.V : (\E c \in P.E[D] : x.i \in VS(c)) => \E y \in Q.V : y.p = x.p
  /\ LET sup == [i \in Ids(Q, 0) |-> ofp[Point(Q, i)]]
         Sup(vs) == UNION { DOMAIN sup[i] : i \in vs }
         Row(i, par) == [b \in 1..(D+1) |-> IF par[b] \in DOMAIN sup[i] THEN sup[i][par[b]] ELSE 0]
         Vol(tup, par) == DetM([a \in 1..(D+1) |-> Row(tup[a], par)])
         supc == [c \in Q.E[D] |-> Sup(VS(c))]
         Ch(par) == { c \in Q.E[D] : supc[c] = VS(par) }
         facets(par) == UNION { Subs(c, D, D-1) : c \in Ch(par) }
     IN
     /\ \A c \in Q.E[D] : supc[c] \in Keys(P, D)                              \* a child lies in one input cell
     /\ \A par \in P.E[D] :
          LET ch == Ch(par)
              RECURSIVE Sum(_)
              Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE y \in S : TRUE IN Abs1(Vol(c.v, par.v)) + Sum(S \ {c})
          IN
          /\ \A c \in ch : Vol(c.v, par.v) # 0
          /\ Sum(ch) = Pow4(D+1)                                              \* the children fill the cell
          /\ \A f \in facets(par) :
               LET on == { c \in ch : f \in Subs(c, D, D-1) }
                   side(c) == LET o == CHOOSE i \in VS(c) \ f : TRUE IN Vol(Sorted(f) \o <<o>>, par.v) > 0
               IN IF Sup(f) # VS(par) THEN Cardinality(on) = 1                \* on the surface of the cell
                  ELSE Cardinality(on) = 2 /\ { side(c) : c \in on } = {TRUE, FALSE}
     /\ \A k \in P.E[D] : \A g \in P.E[D] : k # g =>                          \* neighbours agree on their common facet
          \A F \in Subs(k, D, D-1) \cap Subs(g, D, D-1) :
            { f \in facets(k) : Sup(f) \subseteq F } = { f \in facets(g) : Sup(f) \subseteq F }
     /\ \A g \in Q.S : \A c \in Q.E[D] :                                      \* children are in the segments of their parent
          LET par == CHOOSE x \in P.E[D] : VS(x) = supc[c] IN
          (c.i \in g.e[D+1]) <=> (HasSeg(P, g.i) /\ par.i \in SegOf(P, g.i).e[D+1])
     /\ \A g \in Q.S : \A j \in 0..(D-1) :
          g.e[j+1] = UNION { Down(Q, D, id)[j+1] : id \in g.e[D+1] }

\* no cell of the input is degenerate
Vec(p, q) == [j \in 1..Len(p) |-> q[j] - p[j]]
Spans(P, c) ==
  /\ Cardinality(VS(c)) = D + 1
  /\ LET o == Point(P, c.v[1])  e(k) == Vec(o, Point(P, c.v[k])) IN
     IF D = 3 THEN Det3(e(2), e(3), e(4)) # 0
     ELSE \E i \in 1..Len(o) : \E j \in 1..Len(o) : e(2)[i] * e(3)[j] # e(2)[j] * e(3)[i]
\* preconditions of the exact scope: integral cut points, all expected vertices at distinct places
InScope(ev, P) ==
  LET tags == RTags(ev, P) IN
  /\ Closed(P)
  /\ \A x \in P.V : \A j \in 1..Len(x.p) : x.p[j] \in -4096..4096            \* the driver logs non-integers as huge numbers
  /\ \A c \in P.E[D] : Spans(P, c)
  /\ \A e \in tags : CutExact(ev, P, e)
  /\ Cardinality(Keys(P, D)) = Cardinality(P.E[D])
  /\ Cardinality({ x.p : x \in P.V } \cup { Cut(ev, P, e).p : e \in tags }) = Cardinality(P.V) + Cardinality(tags)

StepC12(ev, PP, QQ) ==
  ev.op \in RefineOps =>
    LET m == Slot(ev)  P == PP[m]  Q == QQ[ev.a[2] + 1] IN
    /\ ev.x = 0
    /\ QQ[m] = P                                                              \* the input is not touched
    /\ (ev.f = 0 /\ InScope(ev, P)) =>
         /\ Closed(Q) /\ RefOrder(Q) /\ NoDup(Q) /\ NoDupSeg(Q)
         /\ RefineGeo(P, Q, { Cut(ev, P, e) : e \in RTags(ev, P) })
         /\ ev.a[3] # 0 => \A g \in P.S : g.e[D+1] # {} => HasSeg(Q, g.i)
         /\ ev.a[3] = 0 => Q.S = {}

\* longest-edge closure
EdgeLen2(P, key) == LET a == CHOOSE x \in key : TRUE  b == CHOOSE x \in key : x # a IN Dist2(Point(P, a), Point(P, b))
Longest(P, c) == { k \in Subs(c, D, 1) : \A j \in Subs(c, D, 1) : EdgeLen2(P, j) <= EdgeLen2(P, k) }
QueryC12(ev, P) ==
  ev.op = "rl" =>
    LET t0 == { Key(P, 1, id) : id \in Range(Tl(ev.a, 2)) }
        t1 == { Key(P, 1, id) : id \in Range(ev.r) }
    IN /\ ev.x = 0
       /\ t0 \subseteq t1
       /\ \A c \in P.E[D] : Subs(c, D, 1) \cap t1 # {} => Longest(P, c) \cap t1 # {}
       /\ \A k \in t1 \ t0 : \E c \in P.E[D] : k \in Longest(P, c) /\ (Subs(c, D, 1) \cap t1) \ {k} # {}
=============================================================================
