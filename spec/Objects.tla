------------------------------- MODULE Objects -------------------------------
(* Meshes as objects a program holds: what each kind of call may change, and *)
(* which other meshes it may affect (none).  A mesh keeps its triangles and  *)
(* its positions in cells of a store; a clone gets cells of its own.         *)
(*   Share = "none":  the clone copies both cells.                           *)
(*   Share = "tri" or "pos": it keeps using that cell of the original.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS MaxMesh, MaxVal, MaxCells, Share

VARIABLES cell,     \* cell -> value
          mesh,     \* mesh -> [tri, pos] (cells); destroyed meshes are gone
          view      \* ghost: mesh -> << triangles, positions >> it must show
vars == << cell, mesh, view >>

Live == DOMAIN mesh
Shown(m) == << cell[mesh[m].tri], cell[mesh[m].pos] >>
Put(f, k, v) == [x \in DOMAIN f \cup { k } |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ { k } |-> f[x]]
FreeCells == 1 .. MaxCells \ UNION { { mesh[m].tri, mesh[m].pos } : m \in Live }
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Init == /\ cell = [c \in 1 .. MaxCells |-> 0]
        /\ mesh = (1 :> [tri |-> 1, pos |-> 2])
        /\ view = (1 :> << 0, 0 >>)

\* an edit may change triangles and positions, of this mesh only
Edit(m, t, p) == /\ cell' = [cell EXCEPT ![mesh[m].tri] = t, ![mesh[m].pos] = p]
                 /\ view' = [view EXCEPT ![m] = << t, p >>]
                 /\ UNCHANGED mesh
\* a filter moves vertices
Move(m, p) == /\ cell' = [cell EXCEPT ![mesh[m].pos] = p]
              /\ view' = [view EXCEPT ![m][2] = p]
              /\ UNCHANGED mesh
\* measuring, saving, analysing
Read(m) == UNCHANGED vars
Clone(m, n) ==
    /\ n \notin Live /\ Cardinality(FreeCells) >= 2
    /\ LET t == IF Share = "tri" THEN mesh[m].tri ELSE Least(FreeCells)
           p == IF Share = "pos" THEN mesh[m].pos ELSE Least(FreeCells \ { t }) IN
       /\ mesh' = Put(mesh, n, [tri |-> t, pos |-> p])
       /\ cell' = [[cell EXCEPT ![t] = cell[mesh[m].tri]] EXCEPT ![p] = cell[mesh[m].pos]]
       /\ view' = Put(view, n, view[m])
Destroy(m) == /\ Cardinality(Live) > 1
              /\ mesh' = Drop(mesh, m) /\ view' = Drop(view, m)
              /\ UNCHANGED cell

Next == \E m \in Live : \/ \E t, p \in 0 .. MaxVal : Edit(m, t, p)
                        \/ \E p \in 0 .. MaxVal : Move(m, p)
                        \/ Read(m)
                        \/ \E n \in 1 .. MaxMesh : Clone(m, n)
                        \/ Destroy(m)
Spec == Init /\ [][Next]_vars

\* every mesh shows what was done to it, and nothing else
Independent == \A m \in Live : Shown(m) = view[m]
\* filters leave the triangles alone, reads everything
Frame == [][ /\ (\E m \in Live, p \in 0 .. MaxVal : Move(m, p)) =>
                   \A m \in Live \cap DOMAIN mesh' : cell'[mesh'[m].tri] = cell[mesh[m].tri] \/ Share # "none"
             /\ (\A m \in Live : m \in DOMAIN mesh' /\ view'[m] = view[m]) /\ DOMAIN mesh' = Live =>
                   \A m \in Live : << cell'[mesh'[m].tri], cell'[mesh'[m].pos] >> = view[m] ]_vars
=============================================================================
