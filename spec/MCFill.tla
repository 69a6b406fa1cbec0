------------------------------ MODULE MCFill ------------------------------
(***************************************************************************)
(* Edit histories in which holes are filled as well, by any triangulation: *)
(* the surface stays a manifold, a filling removes exactly one loop and    *)
(* adds one to the Euler characteristic, and nothing that was there goes.  *)
(***************************************************************************)
EXTENDS MCOps, Fill

FillOne(l, N) == T' = T \cup N

FNext ==
  \/ Next
  \/ \E l \in HoleLoops(T) :
       /\ ChordFree(T, l)
       /\ Len(l) <= 6
       /\ \E N \in Triangulations(l) : FillOne(l, N)
       /\ topo' = topo

FSpec == Init /\ [][FNext]_<<T, topo>>

FillEffect ==
  [][ (Cardinality(HoleLoops(T')) # Cardinality(HoleLoops(T))) =>
        /\ T \subseteq T'
        /\ IsSurface(T')
        /\ Verts(T') = Verts(T)
        /\ HoleLoops(T') \subseteq HoleLoops(T)
        /\ Cardinality(HoleLoops(T')) = Cardinality(HoleLoops(T)) - 1
        /\ Euler(T') = Euler(T) + 1
        /\ LET l == CHOOSE l \in HoleLoops(T) : l \notin HoleLoops(T')
           IN  /\ Cardinality(T' \ T) = Len(l) - 2
               /\ \A j \in 1..Len(l) : LET x == l[j]  y == l[(j % Len(l)) + 1] IN InteriorEdge(T', x, y)
    ]_<<T, topo>>
=============================================================================
