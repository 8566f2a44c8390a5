-------------------------------- MODULE Vtk --------------------------------
(* C13: a mesh written to VTK files and read back.  The state of the slots   *)
(* before and after, the content of the files (F, read independently of the  *)
(* library), the data delivered by the reader (D) and the data names (N, G). *)
EXTENDS Mesh

VtkType == CASE T = "line" -> 3 [] T = "tri" -> 5 [] T = "quad" -> 9 [] T = "tet" -> 10 [] T = "hex" -> 12
\* position in the VTK order of the j-th vertex of a cell
VtkPos(j) == IF T \in {"quad", "hex"} THEN (CASE j \in {3, 7} -> j + 1 [] j \in {4, 8} -> j - 1 [] OTHER -> j) ELSE j
NCV == CASE T = "line" -> 2 [] T = "tri" -> 3 [] T = "quad" -> 4 [] T = "tet" -> 4 [] T = "hex" -> 8
Pad3(p) == [x \in 1..3 |-> IF x <= Len(p) THEN p[x] ELSE 0]
PtOf(M, i) == Pad3(Point(M, i))
CellPts(M, c) == [j \in 1..Len(c.v) |-> PtOf(M, c.v[j])]
Els(s) == { s[j] : j \in 1..Len(s) }
UniquePts(M) == \A x, y \in M.V : x.p = y.p => x = y

\* the quantities: index, name, components; data of element i of kind k (0 vertex, 1 cell) in segment s (-1: global)
QName == << "Phi", "a b", "E", "sP", "sE" >>
QComp(q) == IF q \in {2, 4} THEN 3 ELSE 1
QVal(k, q, s, i) == LET b == 1000000000 + k * 100000000 + q * 10000000 + (s + 1) * 1000000 + i IN
                    IF QComp(q) = 1 THEN <<b>> ELSE << b, -(b + 100000), b + 200000 >>
Bit(m, j) == (m \div (CASE j = 0 -> 1 [] j = 1 -> 2 [] j = 2 -> 4 [] j = 3 -> 8 [] j = 4 -> 16 [] j = 5 -> 32 [] j = 6 -> 64 [] j = 7 -> 128 [] j = 8 -> 256)) % 2 = 1
\* the quantities of kind k in the file of segment s (-1: the only file)
HasQ(mask, k, q, s) ==
  CASE q \in {0, 1} -> Bit(mask, 2 * k)
    [] q = 2 -> Bit(mask, 2 * k + 1)
    [] q = 3 -> s >= 0 /\ Bit(mask, 4 + 2 * k) /\ (Bit(mask, 8) => s % 2 = 0)
    [] q = 4 -> s >= 0 /\ Bit(mask, 5 + 2 * k) /\ (Bit(mask, 8) => s % 2 = 0)
QSeg(q, s) == IF q >= 3 THEN s ELSE -1
Quants(mask, k, s) == { q \in 0..4 : HasQ(mask, k, q, s) }

\* ---- the files ----
FilePts(f) == [j \in 1..(Len(f.X) \div 3) |-> << f.X[3*j-2], f.X[3*j-1], f.X[3*j] >>]
FileCell(f, j) == [n \in 1..NCV |-> f.co[(j-1) * NCV + VtkPos(n)] + 1]
FileCells(f) == LET x == FilePts(f) IN [j \in 1..f.nc |-> [n \in 1..NCV |-> x[FileCell(f, j)[n]]]]
ArraysOK(arrs, mask, k, s, n, at(_)) ==
  /\ Len(arrs) = Cardinality(Quants(mask, k, s))
  /\ \A q \in Quants(mask, k, s) : \E a \in Els(arrs) :
       /\ a.n = QName[q+1] /\ a.c = QComp(q) /\ Len(a.v) = n * a.c
       /\ \A j \in 1..n : SubSeq(a.v, (j-1) * a.c + 1, j * a.c) = QVal(k, q, QSeg(q, s), at(j))
FileOK(M, f, H, s, mask) ==
  LET cells == { c \in M.E[D] : c.i \in H[D+1] }
      used == { x \in M.V : \E c \in cells : x.i \in VS(c) }
      np == Cardinality(used)  x == FilePts(f)
      fc == FileCells(f)
      vat(j) == (CHOOSE y \in used : Pad3(y.p) = x[j]).i
      cat(j) == (CHOOSE c \in cells : CellPts(M, c) = fc[j]).i IN
  /\ f.s = s /\ f.np = np /\ Len(f.X) = 3 * np /\ Range(x) = { Pad3(y.p) : y \in used }
  /\ f.nc = Cardinality(cells) /\ Len(f.co) = NCV * f.nc /\ \A j \in 1..Len(f.co) : f.co[j] \in 0..(np-1)
  /\ f.of = [j \in 1..f.nc |-> j * NCV] /\ f.ty = [j \in 1..f.nc |-> VtkType]
  /\ Range(fc) = { CellPts(M, c) : c \in cells }
  /\ ArraysOK(f.PD, mask, 0, s, np, vat) /\ ArraysOK(f.CD, mask, 1, s, f.nc, cat)

\* ---- what the reader delivers ----
\* hosts: function from segment id (as read) to the set of source cells; src: id used in the data
ReadMesh(P, Q, cells, extra) ==
  LET used == { x \in P.V : extra \/ \E c \in cells : x.i \in VS(c) } IN
  /\ Q.n[1] = Cardinality(used) /\ { x.p : x \in Q.V } = { x.p : x \in used }
  /\ Q.n[D+1] = Cardinality(cells) /\ { CellPts(Q, c) : c \in Q.E[D] } = { CellPts(P, c) : c \in cells }
ReadSegs(P, Q, host) ==
  /\ SIds(Q) = DOMAIN host
  /\ \A s \in DOMAIN host : LET m == SegOf(Q, s).e IN
       /\ { CellPts(Q, c) : c \in { d \in Q.E[D] : d.i \in m[D+1] } } = { CellPts(P, c) : c \in host[s] }
       /\ m[1] = UNION { VS(c) : c \in { d \in Q.E[D] : d.i \in m[D+1] } }
\* id in the source of an element read
SrcV(P, Q, i) == (CHOOSE y \in P.V : y.p = Point(Q, i)).i
SrcC(P, Q, i) == (CHOOSE c \in P.E[D] : CellPts(P, c) = CellPts(Q, Elem(Q, D, i))).i
SrcId(P, Q, k, i) == IF k = 0 THEN SrcV(P, Q, i) ELSE SrcC(P, Q, i)
Digit(r, j) == (r \div (CASE j = 0 -> 1 [] j = 1 -> 3 [] j = 2 -> 9 [] j = 3 -> 27)) % 3
VReg(r, k, q) == Digit(r, 2 * k + (IF QComp(q) = 3 THEN 1 ELSE 0))
EntryIds(d) == { d.v[j][1] : j \in 1..Len(d.v) }
\* members(s, k): ids in Q of the elements of kind k for which the file of segment s carries data; sid(s): segment id of the data
DataOK(P, Q, D0, mask, reg, segs, members(_, _), sid(_), hasseg) ==
  LET want(k, q) == { s \in segs : HasQ(mask, k, q, sid(s)) }
      ents(k, q, s, g) == { d \in Els(D0) : d.k = k /\ d.q = q /\ d.s = s /\ d.g = g }
      good(k, q, d, ids, ss) ==
        /\ Len(d.v) = Cardinality(ids) /\ EntryIds(d) = ids
        /\ \A j \in 1..Len(d.v) : \E s \in ss : d.v[j][1] \in members(s, k)
                                      /\ d.v[j][2] = QVal(k, q, QSeg(q, sid(s)), SrcId(P, Q, k, d.v[j][1]))
      one(k, q, s, g, ids, ss) == IF ids = {} THEN \A d \in ents(k, q, s, g) : d.v = <<>>
                                  ELSE Cardinality(ents(k, q, s, g)) = 1 /\ \A d \in ents(k, q, s, g) : good(k, q, d, ids, ss)
  IN
  /\ \A k \in 0..1 : \A q \in 0..4 :
       CASE VReg(reg, k, q) = 1 -> one(k, q, -1, 1, UNION { members(s, k) : s \in want(k, q) }, want(k, q))
         [] VReg(reg, k, q) = 2 -> \A s \in want(k, q) : one(k, q, s, 1, members(s, k), {s})
         [] OTHER -> (hasseg \/ (k = 1 /\ Cardinality(segs) = 1)) => \A s \in want(k, q) : one(k, q, s, 0, members(s, k), {s})
  \* nothing else
  /\ \A d \in Els(D0) : /\ d.g = (IF VReg(reg, d.k, d.q) = 0 THEN 0 ELSE 1)
                        /\ IF d.g = 1 /\ d.s = -1 THEN want(d.k, d.q) # {} ELSE d.s \in want(d.k, d.q)
NamesOK(r, mask, segs, sid(_)) ==
  LET want == UNION { { << k, QComp(q), s, QName[q+1] >> : q \in Quants(mask, k, sid(s)) } : k \in 0..1, s \in segs } IN
  /\ Range(r.N) = want /\ Len(r.N) = Cardinality(want)
  /\ Range(r.G) = want /\ Len(r.G) = Cardinality(want)

\* a = source, destination, mode (0 mesh, 1 mesh and segmentation), api (0 with segmentation, 1 without), mask, reg, style
StepVtk(ev, P, Q) ==
  LET a == ev.a  m == Slot(ev)  n == 3 - m
      src == P[m]  dst == Q[n]
      many == ev.op = "vt" /\ a[3] = 1 /\ Cardinality(src.S) >= 2
      segs == IF many THEN SIds(src) ELSE {0}
      sid(s) == IF many THEN s ELSE -1
      hostcells(s) == IF many THEN { c \in src.E[D] : c.i \in SegOf(src, s).e[D+1] } ELSE src.E[D]
      cells == UNION { hostcells(s) : s \in segs }
      extra == ev.op = "vx" /\ (a[7] \div 64) % 2 = 1
      qcells(s) == { c \in dst.E[D] : CellPts(dst, c) \in { CellPts(src, d) : d \in hostcells(s) } }
      members(s, k) == IF k = 1 THEN { c.i : c \in qcells(s) }
                       ELSE IF extra THEN Ids(dst, 0) ELSE UNION { VS(c) : c \in qcells(s) }
      seenV(s, k) == IF k = 0 /\ extra THEN UNION { VS(c) : c \in qcells(s) } ELSE members(s, k)
  IN
  \/ ev.f = 1
  \/ ~UniquePts(src) \/ ~SegClosed(src)
  \/ /\ ev.x = 0
     /\ Q[m] = P[m]
     /\ ev.op = "vt" =>
          IF many THEN /\ Len(ev.r.F) = Cardinality(segs) /\ { f.s : f \in Els(ev.r.F) } = segs
                       /\ \A f \in Els(ev.r.F) : FileOK(src, f, SegOf(src, f.s).e, f.s, a[5])
          ELSE Len(ev.r.F) = 1 /\ FileOK(src, ev.r.F[1], Whole(src), -1, a[5])
     /\ ReadMesh(src, dst, cells, extra)
     /\ IF a[4] = 1 THEN dst.S = {} ELSE ReadSegs(src, dst, [s \in segs |-> hostcells(s)])
     /\ NamesOK(ev.r, a[5], segs, sid)
     /\ LET reg == a[6] IN
        IF ~extra THEN DataOK(src, dst, ev.r.D, a[5], reg, segs, members, sid, a[4] = 0)
        ELSE \* points outside the cells: registered data reach them, the fields are queried for the segment only
             \A d \in Els(ev.r.D) : \A j \in 1..Len(d.v) :
                d.v[j][2] = QVal(d.k, d.q, -1, SrcId(src, dst, d.k, d.v[j][1]))
StepC13(ev, P, Q) == IF ev.op \in {"vt", "vx"} THEN StepVtk(ev, P, Q) ELSE ev.op \notin {"sm", "sn", "si", "sr"} => ev.x = 0
=============================================================================
