----------------------------- MODULE MCCoherent -----------------------------
(***************************************************************************)
(* All fillings of a small surface with a hole by any triangulation, with  *)
(* or without a vertex inside, and all improvements by up to MaxV vertices.*)
(* Merging an original vertex into the filling ("any") loses triangles.    *)
(***************************************************************************)
EXTENDS Coherent, TLC
CONSTANTS Shape, MaxV, Rule
VARIABLES T, n, filled

Wheel(k) == {Canon(i, (i + 1) % k, k) : i \in 0..(k - 1)}
Band(k) == {Canon(i, (i + 1) % k, k + i) : i \in 0..(k - 1)} \cup {Canon((i + 1) % k, k + ((i + 1) % k), k + i) : i \in 0..(k - 1)}
Cup(k) == Band(k) \cup {Canon((i + 1) % k, i, 2 * k) : i \in 0..(k - 1)}
S0 == CASE Shape = "wheel4" -> Wheel(4) [] Shape = "wheel5" -> Wheel(5)
        [] Shape = "cup3" -> Cup(3) [] Shape = "cup4" -> Cup(4) [] Shape = "cup5" -> Cup(5) [] Shape = "band3" -> Band(3)

Pairs == {e \in DirEdges(T) : Rev(e) \in DirEdges(T)}
Cone(l, a) == {Canon(l[j], l[(j % Len(l)) + 1], a) : j \in 1..Len(l)}
Init == T = S0 /\ n = 20 /\ filled = FALSE
Close == /\ ~filled
         /\ \E l \in HoleLoops(T) :
              \/ /\ ChordFree(T, l) /\ \E N \in Triangulations(l) : T' = T \cup N
                 /\ n' = n
              \/ T' = T \cup Cone(l, n) /\ n' = n + 1
         /\ filled' = (HoleLoops(T') = {})
Improve == /\ filled /\ UNCHANGED filled
           /\ \/ n < 20 + MaxV /\ n' = n + 1
                 /\ \E e \in Pairs : MaySplit(S0, T, e[1], e[2]) /\ T' = SplitTri(T, e[1], e[2], n)
              \/ n' = n /\ \E e \in Pairs : MayFlip(S0, T, e[1], e[2]) /\ T' = FlipTri(T, e[1], e[2])
              \/ n' = n /\ \E e \in Pairs :
                   /\ IF Rule = "any" THEN CollapseTopoOK(T, e[1], e[2]) /\ (Inside(S0, e[1]) \/ Inside(S0, e[2]))
                                      ELSE MayMerge(S0, T, e[1], e[2])
                   /\ T' = CollapseTri(T, e[1], e[2])
Next == Close \/ Improve
Spec == Init /\ [][Next]_<<T, n, filled>>
Kept == S0 \subseteq T
Filled == filled => Closes(S0, T)
=============================================================================
