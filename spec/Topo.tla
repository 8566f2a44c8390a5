------------------------------- MODULE Topo -------------------------------
(* Reference topology of the cell types ViennaGrid supports: for every cell *)
(* type and every lower dimension, the list of sub-elements in reference    *)
(* order, each as a tuple of 1-based local vertex positions.  Written from  *)
(* the documentation (reference orientation figures), not from the code     *)
(* that generates boundary elements.                                        *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

\* topological dimension and number of vertices
Dim(t) == CASE t = "vertex" -> 0 [] t = "line" -> 1 [] t \in {"tri","quad"} -> 2 [] OTHER -> 3
NVert(t) == CASE t = "vertex" -> 1 [] t = "line" -> 2 [] t = "tri" -> 3 [] t = "quad" -> 4
              [] t = "tet" -> 4 [] t = "hex" -> 8

\* type of the level-k elements in a mesh whose cells have type t
LevelType(t, k) == CASE k = 0 -> "vertex" [] k = Dim(t) -> t [] k = 1 -> "line"
                     [] t = "hex" -> "quad" [] OTHER -> "tri"

SubIdx(t, k) ==
  IF k = 0 THEN [i \in 1..NVert(t) |-> <<i>>]
  ELSE IF k = Dim(t) THEN << [i \in 1..NVert(t) |-> i] >>
  ELSE CASE t = "tri"  -> << <<1,2>>, <<1,3>>, <<2,3>> >>
         [] t = "quad" -> << <<1,2>>, <<1,3>>, <<2,4>>, <<3,4>> >>
         [] t = "tet"  -> IF k = 1 THEN << <<1,2>>, <<1,3>>, <<1,4>>, <<2,3>>, <<2,4>>, <<3,4>> >>
                          ELSE << <<1,2,3>>, <<1,2,4>>, <<1,3,4>>, <<2,3,4>> >>
         [] t = "hex"  -> IF k = 1 THEN << <<1,2>>, <<1,3>>, <<1,5>>, <<2,4>>, <<2,6>>, <<3,4>>,
                                           <<3,7>>, <<4,8>>, <<5,6>>, <<5,7>>, <<6,8>>, <<7,8>> >>
                          ELSE << <<1,2,3,4>>, <<1,2,5,6>>, <<1,3,5,7>>, <<2,4,6,8>>, <<3,4,7,8>>, <<5,6,7,8>> >>

\* the level-k sub-elements of an element of type t with vertex tuple v: in reference order / as vertex sets
SubSeq2(t, v, k) == [j \in 1..Len(SubIdx(t, k)) |-> { v[SubIdx(t, k)[j][n]] : n \in 1..Len(SubIdx(t, k)[j]) }]
SubSets(t, v, k) == { { v[SubIdx(t, k)[j][n]] : n \in 1..Len(SubIdx(t, k)[j]) } : j \in 1..Len(SubIdx(t, k)) }

\* sanity of the tables themselves (checked by TLC in MCTopo): every facet of a cell is covered by its own
\* sub-elements, every ridge of a cell lies in exactly two of its facets, Euler characteristic of the boundary
Types == {"line", "tri", "quad", "tet", "hex"}
TopoOK ==
  \A t \in Types : LET d == Dim(t)  v == [i \in 1..NVert(t) |-> i] IN
    /\ \A k \in 1..(d-1) : \A f \in Range(SubSeq2(t, v, k)) :
         Cardinality(f) = NVert(LevelType(t, k))
    /\ \A k \in 0..(d-1) : Cardinality(SubSets(t, v, k)) = Len(SubIdx(t, k))
    /\ (d >= 2 => \A r \in SubSets(t, v, d-2) :
           Cardinality({ f \in SubSets(t, v, d-1) : r \subseteq f }) = 2)
    /\ (d = 3 => /\ \A j \in 1..Len(SubIdx(t, 2)) :
                      LET fv == SubIdx(t, 2)[j] IN SubSets(LevelType(t, 2), fv, 1) \subseteq SubSets(t, v, 1)
                 /\ NVert(t) + Len(SubIdx(t, 2)) = Len(SubIdx(t, 1)) + 2)
=============================================================================
