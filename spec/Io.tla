--------------------------------- MODULE Io ---------------------------------
(* C14: what the readers make of netgen, bnd, poly and tess files (written   *)
(* by the driver, content in ev.r).  C25: what the vmesh, opendx and mphtxt  *)
(* writers put into their files (parsed by the driver, content in ev.r).     *)
EXTENDS Vtk, Geo

\* a segment that holds exactly these cells and what they consist of
HoldsCells(M, g, ids) == \A k \in 1..(D+1) : g.e[k] = UNION { Down(M, D, c)[k] : c \in ids } /\ g.c[k] = Cardinality(g.e[k])
Fit(M) == Closed(M) /\ M.o = 0 /\ M.n[1] = Cardinality(M.V) /\ M.n[D+1] = Cardinality(M.E[D])
\* only the elements the cells consist of
Tight(M) == \A k \in 1..(D-1) : Keys(M, k) = UNION { Subs(c, D, k) : c \in M.E[D] }

StepNg(ev, P, Q) ==
  LET m == Slot(ev)  n == 3 - m  r == ev.r  d == Q[n]
      tup(j) == [x \in 1..(Len(r.C[j]) - 1) |-> r.C[j][x+1]]
      segs == { r.C[j][1] : j \in 1..Len(r.C) } IN
  \/ ev.f = 1
  \/ /\ Q[m] = P[m] /\ ev.x = 0
     /\ IF r.cut = 1 THEN r.t = 1
        ELSE /\ r.t = 0 /\ Fit(d) /\ Tight(d)
             /\ d.V = { [i |-> j-1, p |-> r.X[j]] : j \in 1..Len(r.X) }
             /\ IV(d, D) = { [i |-> j-1, v |-> tup(j)] : j \in 1..Len(r.C) }
             /\ IF ev.a[3] = 1 THEN d.S = {}
                ELSE /\ SIds(d) = segs
                     /\ \A s \in segs : HoldsCells(d, SegOf(d, s), { j-1 : j \in { x \in 1..Len(r.C) : r.C[x][1] = s } })

StepBd(ev, P, Q) ==
  LET m == Slot(ev)  n == 3 - m  r == ev.r  d == Q[n]
      pset(c) == { r.X[x+1] : x \in Range(c) }
      dset(M, c) == { Point(M, i) : i \in VS(c) }
      want == UNION { { pset(r.C[f+1]) : f \in Range(r.L[s]) } : s \in 1..Len(r.L) }
      fset(x) == Range(x) IN
  \/ ev.f = 1
  \/ ~UniquePts(P[m])
  \/ /\ Q[m] = P[m] /\ ev.x = 0 /\ Fit(d) /\ Tight(d)
     /\ UniquePts(d) /\ { x.p : x \in d.V } = UNION want
     /\ { dset(d, c) : c \in d.E[D] } = want /\ Cardinality(d.E[D]) = Cardinality(want)
     /\ SIds(d) = 0..(Len(r.L) - 1)
     /\ \A s \in 1..Len(r.L) : HoldsCells(d, SegOf(d, s-1), { c.i : c \in { x \in d.E[D] : dset(d, x) \in { pset(r.C[f+1]) : f \in Range(r.L[s]) } } })
     \* the raw content
     /\ r.h.d = 3 /\ r.h.X = r.X /\ Len(r.h.S) = Len(r.L)
     /\ \A s \in 1..Len(r.L) :
          /\ r.h.S[s].n = 1 /\ r.h.S[s].m = 1 /\ Len(r.h.S[s].f) = Len(r.L[s])
          /\ \A j \in 1..Len(r.L[s]) : Len(r.h.S[s].f[j]) = 3 /\ fset(r.h.S[s].f[j]) = Range(r.C[r.L[s][j]+1])
     /\ r.h.n = (IF r.nc > 0 THEN 1 ELSE 0) /\ r.h.cn = 1 /\ Len(r.h.cf) = r.nc
     /\ r.nc > 0 => Range(r.h.cf[1]) = Range(r.C[1])
     /\ r.nc > 1 => Range(r.h.cf[2]) = Range(r.C[Len(r.C)])

\* polygons to lines: one vertex gives none, two vertices one, more vertices a closed ring
RingLines(p) == IF Len(p) < 2 THEN {} ELSE { {p[j], p[(j % Len(p)) + 1]} : j \in 1..Len(p) }
PlcOK(r) ==
  LET g == r.G
      lines(f) == UNION { RingLines(r.F[f].P[j]) : j \in 1..Len(r.F[f].P) }
      verts(f) == UNION { Range(r.F[f].P[j]) : j \in 1..Len(r.F[f].P) } IN
  /\ Range(g.V) = Range(r.V) /\ Len(g.V) = Len(r.V)
  /\ { Range(x) : x \in Range(g.L) } = UNION { lines(f) : f \in 1..Len(r.F) } /\ Len(g.L) = Cardinality({ Range(x) : x \in Range(g.L) })
  /\ Len(g.C) = Len(r.F)
  /\ \A f \in 1..Len(r.F) :
       /\ Range(g.C[f].V) = verts(f) /\ Len(g.C[f].V) = Cardinality(verts(f))
       /\ { Range(x) : x \in Range(g.C[f].L) } = lines(f) /\ Len(g.C[f].L) = Cardinality(lines(f))
       /\ g.C[f].H = r.F[f].H
  /\ r.hh = 1 => r.gH = r.H
  /\ r.hs = 1 => r.gS = r.S
StepC14(ev, P, Q) == CASE ev.op = "ng" -> StepNg(ev, P, Q) [] ev.op = "bd" -> StepBd(ev, P, Q)
                       [] OTHER -> ev.op \notin {"sm", "sn", "si", "sr"} => ev.x = 0
QueryC14(ev, M) == ev.x = 0 /\ (ev.op \in {"pt", "pn"} => PlcOK(ev.r))

-----------------------------------------------------------------------------
\* the vertex at a position of the point list of a file
AtPt(M, X, j) == (CHOOSE x \in M.V : x.p = X[j+1]).i
PtsOK(M, X) == Len(X) = Cardinality(M.V) /\ Range(X) = { x.p : x \in M.V }
TupsOK(M, X, L, want) == Len(L) = Cardinality(want) /\ (\A t \in Range(L) : Range(t) \subseteq 0..(Len(X)-1)) /\ { [j \in 1..Len(t) |-> AtPt(M, X, t[j])] : t \in Range(L) } = want
VmeshOK(M, r, gd) ==
  /\ r.f = "in/put.mesh" /\ r.d = gd /\ r.v = Cardinality(M.V) /\ r.c = Cardinality(M.E[D]) /\ r.n = Cardinality(M.S) /\ Len(r.S) = r.n
  /\ Range(r.S) = { << g.i, Cardinality(g.e[1]), Cardinality(g.e[D+1]) >> : g \in M.S }
DxOK(M, r, gd, sty) ==
  /\ r.xs = gd /\ r.cs = gd + 1 /\ PtsOK(M, r.X)
  /\ TupsOK(M, r.X, r.C, { c.v : c \in M.E[D] })
  /\ CASE sty % 2 = 1 -> r.dep = "positions" /\ r.zn = Len(r.X) /\ \A j \in 1..Len(r.X) : r.Z[j] = << 1000 + AtPt(M, r.X, j-1) >>
       [] sty = 2 -> r.dep = "connections" /\ r.zn = Len(r.C)
                     /\ \A j \in 1..Len(r.C) : LET v == [x \in 1..Len(r.C[j]) |-> AtPt(M, r.X, r.C[j][x])] IN
                                              r.Z[j] = << 5000 + (CHOOSE c \in M.E[D] : c.v = v).i >>
       [] OTHER -> r.zn = -1
  /\ gd > 1 => r.ty = (IF gd = 2 THEN "triangles" ELSE "tetrahedra")
RECURSIVE GrowSet(_, _)
GrowSet(S, R) == LET n == S \cup { p[2] : p \in { q \in R : q[1] \in S } } IN IF n = S THEN S ELSE GrowSet(n, R)
MphOK(M, r) ==
  LET bnd(s) == { f \in M.E[2] : VS(f) \in MustFacet(M, SegOf(M, s).e) }
      tri == UNION { bnd(s) : s \in SIds(M) }
      of(c) == CHOOSE s \in SIds(M) : c.i \in SegOf(M, s).e[4]
      el(t) == [j \in 1..Len(t) |-> AtPt(M, r.X, t[j])]
      face(j) == CHOOSE f \in tri : f.v = el(r.T[j])
      p(i) == Point(M, i)
      nrm(f) == Cross(Sub3(p(f.v[2]), p(f.v[1])), Sub3(p(f.v[3]), p(f.v[1])))
      cells(f) == { c \in M.E[3] : VS(f) \subseteq VS(c) }
      apex(c, f) == p(CHOOSE i \in VS(c) : i \notin VS(f))
      side(c, f) == Dot(nrm(f), Sub3(p(f.v[1]), apex(c, f)))
      sids(f) == { g.i : g \in { x \in M.S : f.i \in x.e[3] } }
      sane == /\ \A c \in M.E[3] : Trip(Sub3(p(c.v[2]), p(c.v[1])), Sub3(p(c.v[3]), p(c.v[1])), Sub3(p(c.v[4]), p(c.v[1]))) # 0
              /\ \A f \in M.E[2] : Cardinality(cells(f)) <= 2 /\ \A c, e \in cells(f) : c # e => (side(c, f) > 0) # (side(e, f) > 0)
      up(f) == LET c == { x \in cells(f) : side(x, f) > 0 } IN IF c = {} THEN 0 ELSE of(CHOOSE x \in c : TRUE) + 1
      down(f) == LET c == { x \in cells(f) : side(x, f) < 0 } IN IF c = {} THEN 0 ELSE of(CHOOSE x \in c : TRUE) + 1
      adj == { q \in tri \X tri : q[1] # q[2] /\ VS(q[1]) \cap VS(q[2]) # {} /\ sids(q[1]) = sids(q[2]) /\ Cross(nrm(q[1]), nrm(q[2])) = Zero3 }
      n == Len(r.T)
  IN
  /\ r.ok = 1 /\ r.d = 3 /\ r.low = 0 /\ r.types = 2 /\ PtsOK(M, r.X)
  /\ TupsOK(M, r.X, r.C, { c.v : c \in M.E[3] })
  /\ \A j \in 1..Len(r.C) : r.D[j] = of(CHOOSE c \in M.E[3] : c.v = el(r.C[j])) + 1
  /\ sane =>
       /\ TupsOK(M, r.X, r.T, { f.v : f \in tri })
       /\ \A j \in 1..n : r.U[j] = << up(face(j)), down(face(j)) >>
       /\ \E comp \in { [j \in 1..n |-> GrowSet({ face(j) }, adj)] } :
            /\ \A i, j \in 1..n : (r.K[i] = r.K[j]) <=> (face(j) \in comp[i])
            /\ Range(r.K) = 0..(Cardinality(Range(comp)) - 1)
QueryC25(ev, M, gd) ==
  /\ ev.x = 0
  /\ ev.op = "wv" => VmeshOK(M, ev.r, gd)
  /\ ev.op = "wd" /\ UniquePts(M) => DxOK(M, ev.r, gd, ev.a[2])
  /\ ev.op = "wm" /\ UniquePts(M) /\ SegClosed(M) => MphOK(M, ev.r)
=============================================================================
