-------------------------------- MODULE Copy --------------------------------
(* Selective copies between two meshes: there is a map from the vertices of  *)
(* the copied elements to vertices of the destination that carries every     *)
(* copied element to an element there; the map merges with a vertex that is  *)
(* already there exactly if one lies within the tolerance.                   *)
EXTENDS Mesh

CopyOps == {"yf", "ys", "yg", "ye", "yh", "y1"}
Near(p, q, t) == 4 * Dist2(p, q) < t * t                  \* t in halves
Fresh(B, A) == { y \in A.V : y.i \notin Ids(B, 0) }
\* all maps that send each vertex of S to one of its candidates
RECURSIVE VMaps(_, _)
VMaps(S, cand) == IF S = {} THEN { <<>> }
                  ELSE LET v == CHOOSE x \in S : TRUE IN { f @@ (v :> y) : f \in VMaps(S \ {v}, cand), y \in cand[v] }
Image(f, vs) == [j \in 1..Len(vs) |-> f[vs[j]]]

\* elements E (all of level l) of mesh P are copied into mesh B, giving A; t: tolerance in halves, 0: never merge
Scoped(P, E, t) ==         \* merging must not collapse an element
  \A e \in E : Cardinality(VS(e)) = Len(e.v) /\ \A u, v \in VS(e) : u # v => Dist2(Point(P, u), Point(P, v)) >= t * t /\ Point(P, u) # Point(P, v)
CopyMaps(P, E, l, B, A, t) ==
  LET used == UNION { VS(e) : e \in E }
      fresh == Fresh(B, A)
      cand == [v \in used |-> IF t > 0 THEN { y.i : y \in { z \in A.V : Near(z.p, Point(P, v), t) } }
                              ELSE { y.i : y \in { z \in fresh : z.p = Point(P, v) } }]
      new == { e \in A.E[l] : e.i \notin Ids(B, l) }
  IN { f \in VMaps(used, cand) :
         /\ \A y \in fresh : \E v \in used : f[v] = y.i /\ Point(P, v) = y.p
         /\ t = 0 => \A u, v \in used : u # v => f[u] # f[v]
         /\ IF l = D THEN /\ Cardinality(new) = Cardinality(E)
                          /\ { e.v : e \in new } = { Image(f, e.v) : e \in E }
            ELSE Keys(A, l) = Keys(B, l) \cup { Range(Image(f, e.v)) : e \in E } }
CopyInto(P, E, l, B, A, t) ==
  /\ B.V \subseteq A.V                                                \* what was there stays
  /\ \A k \in 1..D : IV(B, k) \subseteq IV(A, k)
  /\ NoDup(A)
  /\ Closed(B) /\ RefOrder(B) => Closed(A)
  /\ \A y \in Fresh(B, A) : t > 0 => \A z \in A.V : z.i \in Ids(B, 0) => ~Near(y.p, z.p, t)     \* a new vertex only where none was near
  /\ t > 0 => \A y, z \in Fresh(B, A) : y # z => ~Near(y.p, z.p, t)
  /\ CopyMaps(P, E, l, B, A, t) # {}
  /\ l < D => IV(A, D) = IV(B, D)
\* l-elements other than those below the copied ones do not appear
NoStray(P, E, l, B, A) == \A k \in 1..(l-1) : \A e \in A.E[k] : e.i \in Ids(B, k) \/ \E g \in A.E[l] : g.i \notin Ids(B, l) /\ VS(e) \in Subs(g, l, k)

Sel(ev, P) == CASE ev.op \in {"yf", "ys"} -> { c \in P.E[D] : c.i % ev.a[3] = ev.a[4] }
                [] ev.op \in {"ye", "yh"} -> { c \in P.E[D] : c.i \in Range(ev.r) }
SegsOf(M, k, id) == { g.i : g \in { h \in M.S : id \in h.e[k+1] } }
StepCopy(ev, P, Q) ==
  LET m == Slot(ev)  n == ev.a[2] + 1  src == P[m]  A == Q[n] IN
  /\ ev.x = 0
  /\ Q[m] = [src EXCEPT !.o = Q[m].o]                                \* the source is not touched
  /\ ev.op \in {"yf", "ys"} /\ Scoped(src, Sel(ev, src), 0) =>
       LET E == Sel(ev, src) IN
       /\ CopyInto(src, E, D, EmptyMesh, A, 0)
       /\ NoStray(src, E, D, EmptyMesh, A)
       /\ ev.op = "ys" /\ Cardinality({ VS(e) : e \in E }) = Cardinality(E) =>
            \E f \in CopyMaps(src, E, D, EmptyMesh, A, 0) :
              LET at(e) == (CHOOSE c \in A.E[D] : c.v = Image(f, e.v)).i IN
              /\ SIds(A) = UNION { SegsOf(src, D, e.i) : e \in E }
              /\ \A e \in E : SegsOf(A, D, at(e)) = SegsOf(src, D, e.i)
              /\ \A g \in A.S : \A k \in 1..(D+1) : g.e[k] = UNION { Down(A, D, c)[k] : c \in g.e[D+1] }
  /\ ev.op \in {"ye", "yh"} /\ Scoped(src, Sel(ev, src), ev.a[5]) =>
       /\ CopyInto(src, Sel(ev, src), D, P[n], A, ev.a[5])
       /\ NoStray(src, Sel(ev, src), D, P[n], A)
       /\ Mem(A) = Mem(P[n])
  /\ ev.op = "y1" /\ ev.f = 0 =>
       LET l == ev.a[3]  e == Elem(src, l, ev.r[1]) IN
       Scoped(src, {e}, ev.a[5]) =>
         /\ CopyInto(src, {e}, l, P[n], A, ev.a[5])
         /\ Mem(A) = Mem(P[n])
         /\ \E f \in CopyMaps(src, {e}, l, P[n], A, ev.a[5]) : Key(A, l, ev.r[2]) = Range(Image(f, e.v))
  /\ ev.op = "yg" =>
       /\ MeshOf(A) = MeshOf(src)
       /\ SIds(A) = { g.i : g \in { h \in src.S : h.e # None } }
       /\ \A s \in SIds(A) : Mem(A)[s] = Mem(src)[s]
StepC09All(ev, P, Q, gd) == IF ev.op \in CopyOps THEN ev.f = 1 \/ StepCopy(ev, P, Q) ELSE StepC09(ev, P[Slot(ev)], Q[Slot(ev)], gd)
=============================================================================
