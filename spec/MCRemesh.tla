------------------------------ MODULE MCRemesh ------------------------------
(* All passes of remeshing on small surfaces, for every lock set, every      *)
(* choice of long and short edges and every order.                           *)
EXTENDS Remesh, TLC
CONSTANTS Shape, MaxV, Rounds, Mode   \* Mode: "remesh", "simplify" or a wrong one

VARIABLES T, L, pass, round, n
vars == <<T, L, pass, round, n>>

Bipyr(k) == {Canon(i, (i + 1) % k, k) : i \in 0..(k - 1)} \cup {Canon((i + 1) % k, i, k + 1) : i \in 0..(k - 1)}
Ring(k) == {Canon(i, (i + 1) % k, k + i) : i \in 0..(k - 1)} \cup {Canon((i + 1) % k, k + ((i + 1) % k), k + i) : i \in 0..(k - 1)}
Cap(k) == Ring(k) \cup {Canon((i + 1) % k, i, 2 * k) : i \in 0..(k - 1)}
S0 == CASE Shape = "bipyr5" -> Bipyr(5) [] Shape = "bipyr6" -> Bipyr(6)
        [] Shape = "cap4" -> Cap(4) [] Shape = "cap5" -> Cap(5) [] Shape = "cap6" -> Cap(6)

V == Verts(T)
Pairs == {e \in DirEdges(T) : Rev(e) \in DirEdges(T)}
Init == T = S0 /\ L \in {K \in SUBSET Verts(S0) : Cardinality(K) <= 1} /\ pass = "split" /\ round = 1 /\ n = Cardinality(Verts(S0))

Split == /\ pass = "split" /\ n < MaxV
         /\ \E e \in Pairs : SplitOK(T, e[1], e[2]) /\ T' = SplitTri(T, e[1], e[2], n)
         /\ n' = n + 1 /\ UNCHANGED <<L, pass, round>>
(* positions may refuse any collapse, so every legal one may happen *)
Collapse == /\ pass = "collapse"
            /\ \E e \in Pairs :
                 /\ CollapseTopoOK(T, e[1], e[2])
                 /\ Mode = "nolock" \/ Mode = "simplify" \/ LockFree(T, L, e[1], e[2])
                 /\ Mode = "simplify" => ~OnBoundary(T, e[1]) /\ ~OnBoundary(T, e[2])
                 /\ T' = CollapseTri(T, e[1], e[2])
            /\ UNCHANGED <<L, pass, round, n>>
Flip == /\ pass = "flip"
        /\ \E e \in Pairs : /\ FlipOK(T, e[1], e[2])
                            /\ Mode = "simplify" \/ LockFree(T, L, e[1], e[2])
                            /\ Lowers(T, e[1], e[2])
                            /\ T' = FlipTri(T, e[1], e[2])
        /\ UNCHANGED <<L, pass, round, n>>
Turn == /\ CASE pass = "split" -> pass' = "collapse" /\ round' = round
             [] pass = "collapse" -> pass' = "flip" /\ round' = round
             [] pass = "flip" -> round < Rounds /\ pass' = "split" /\ round' = round + 1
        /\ UNCHANGED <<T, L, n>>
Next == Split \/ Collapse \/ Flip \/ Turn
Spec == Init /\ [][Next]_vars

Surfaces == KeepsSurface(S0, T)
LocksKept == Mode # "simplify" => L \subseteq Verts(T)
Boundary == Mode = "simplify" => KeepsBoundary(S0, T)
(* flips alone cannot go on for ever: the total deviation falls *)
Total == LET RECURSIVE Add(_)
             Add(W) == IF W = {} THEN 0 ELSE LET v == CHOOSE v \in W : TRUE IN Off(T, v, 0) + Add(W \ {v})
         IN  Add(V)
FlipsEnd == [][Flip => Total' < Total]_vars
=============================================================================
