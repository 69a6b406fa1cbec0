------------------------------- MODULE GenOps -------------------------------
(***************************************************************************)
(* Enumerates every surface reachable by edits (as MCOps does) and, for    *)
(* every half-edge of each and every editing operation, the outcome the    *)
(* specification demands under given positions.  The cases are printed and *)
(* replayed against the implementation.                                    *)
(***************************************************************************)
EXTENDS MCOps, Json, IOUtils

Pos == JsonDeserialize(IOEnv.POS)         \* position of identity n is Pos[n + 1]
pos == [v \in Ids |-> Pos[v + 1]]

SetToSeq(S) == LET n == Cardinality(S)
                   RECURSIVE go(_)
                   go(R) == IF R = {} THEN <<>>
                            ELSE LET x == CHOOSE x \in R : TRUE IN <<x>> \o go(R \ {x})
               IN  go(S)

(* op, a, b, answer (2: either), triangles removed and added on success *)
Case(op, a, b, ret, T1) == <<op, a, b, ret, SetToSeq(T \ T1), SetToSeq(T1 \ T)>>

Cases ==
  LET half == DirEdges(T) \cup HoleEdges(T)
      split(e) == IF SplitOK(T, e[1], e[2])
                  THEN Case("split", e[1], e[2], 1, SplitTri(T, e[1], e[2], MaxV))
                  ELSE Case("split", e[1], e[2], 0, T)
      flip(e) == IF FlipOK(T, e[1], e[2])
                 THEN Case("flip", e[1], e[2], 1, FlipTri(T, e[1], e[2]))
                 ELSE Case("flip", e[1], e[2], 0, T)
      coll(e) == IF MustCollapse(T, pos, e[1], e[2])
                 THEN Case("collapse", e[1], e[2], 1, CollapseTri(T, e[1], e[2]))
                 ELSE IF MayCollapse(T, pos, e[1], e[2])
                 THEN Case("collapse", e[1], e[2], 2, CollapseTri(T, e[1], e[2]))
                 ELSE Case("collapse", e[1], e[2], 0, T)
  IN  {split(e) : e \in half} \cup {flip(e) : e \in half} \cup {coll(e) : e \in half}

Emit == PrintT("CASE " \o ToJson([tri |-> SetToSeq(T), cases |-> SetToSeq(Cases)]))
=============================================================================
