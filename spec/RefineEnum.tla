----------------------------- MODULE RefineEnum -----------------------------
(* Exhaustive small scopes for refinement: every subset of the edges of the  *)
(* given cells, for the given geometries and vertex orders.  One line per    *)
(* mesh: the script "R;v ...;c ...;rf ...;rf ...".                           *)
EXTENDS MeshSpec
CONSTANTS Geos,       \* sequence of sequences of points
          Cells,      \* set of sequences of cells (vertex tuples)
          AllMasks,   \* refine with every subset of the edges, or only with those of size <= 2 and >= all - 1
          SegFlag
VARIABLE st
RECURSIVE CatS(_, _)
CatS(s, sep) == IF s = <<>> THEN "" ELSE sep \o s[1] \o CatS(Tail(s), sep)
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
EdgesOf(cells) == UNION { SubSets(LTy(D), cells[j], 1) : j \in 1..Len(cells) }
EName(e) == LET a == CHOOSE x \in e : \A y \in e : x <= y  b == CHOOSE x \in e : x # a IN ToString(a) \o "," \o ToString(b)
Masks(E) == IF AllMasks THEN SUBSET E ELSE { X \in SUBSET E : Cardinality(X) <= 2 \/ Cardinality(X) >= Cardinality(E) - 1 }
Script(g, cells) ==
  "R" \o CatS([j \in 1..Len(g) |-> "v 0 " \o JoinS(g[j], " ")], ";")
      \o (IF SegFlag = 1 THEN ";sm 0;sm 0" ELSE "")
      \o CatS([j \in 1..Len(cells) |-> (IF SegFlag = 1 THEN "sc 0 " \o ToString(j % 2) ELSE "c 0") \o " " \o JoinS(cells[j], " ")], ";")
Init == \E g \in 1..Len(Geos) : \E c \in Cells : st = <<g, c>>
Emit == LET g == Geos[st[1]]  c == st[2]  E == EdgesOf(c)  sc == Script(g, c)
            names == [e \in E |-> EName(e)] IN
        PrintT("@" \o sc \o CatS(AnySeq({ "rf 0 1 " \o ToString(SegFlag) \o CatS(AnySeq({ names[e] : e \in X }), " ") : X \in Masks(E) }), ";"))
Spec == Init /\ [][FALSE]_st
=============================================================================
