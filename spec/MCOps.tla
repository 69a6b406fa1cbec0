------------------------------- MODULE MCOps -------------------------------
(***************************************************************************)
(* Exhaustive exploration of all edit histories on small surfaces, without *)
(* positions: a collapse that positions might forbid is explored both ways.*)
(* Checked: every reachable triangle set is an oriented manifold with the  *)
(* topology it started with (C09 on the level of the specification), and   *)
(* each operation adds and removes exactly what it should.                 *)
(***************************************************************************)
EXTENDS MeshOps, TLC
CONSTANT MaxV,       \* number of vertex identities available
         Shape       \* which starting surface

VARIABLES T, topo

Ids == 0..(MaxV - 1)

Fan(c, n) == {Canon(c, i, (i % n) + 1) : i \in 1..n}     \* disk around c with rim 1..n

Tetra == {Canon(0,1,2), Canon(0,2,3), Canon(0,3,1), Canon(1,3,2)}
Octa  == {Canon(0,1,2), Canon(0,2,3), Canon(0,3,4), Canon(0,4,1),
          Canon(5,2,1), Canon(5,3,2), Canon(5,4,3), Canon(5,1,4)}
Strip == {Canon(0,1,2), Canon(1,3,2), Canon(2,3,4), Canon(3,5,4)}
(* annulus: outer rim 0..3, inner rim 4..7 is too large for small MaxV: use 3+3 *)
Annulus == UNION {{Canon(i, (i+1)%3, 3+i), Canon((i+1)%3, 3+((i+1)%3), 3+i)} : i \in 0..2}
(* seven-vertex torus *)
Torus7 == UNION {{Canon(i, (i+1)%7, (i+3)%7), Canon((i+1)%7, (i+4)%7, (i+3)%7)} : i \in 0..6}
(* two tetrahedra *)
Two == Tetra \cup {Canon(4,5,6), Canon(4,6,7), Canon(4,7,5), Canon(5,7,6)}

(* a triple of edges round no triangle, with a vertex of five edges inside and the boundary outside *)
Pocket == {Canon(0,1,3), Canon(2,0,3), Canon(1,2,4), Canon(2,3,4), Canon(3,1,5), Canon(1,4,5), Canon(4,3,5),
           Canon(0,2,7), Canon(0,7,6), Canon(0,6,1)}

Start == CASE Shape = "tetra" -> Tetra
           [] Shape = "octa" -> Octa
           [] Shape = "fan4" -> Fan(0, 4)
           [] Shape = "fan5" -> Fan(0, 5)
           [] Shape = "strip" -> Strip
           [] Shape = "annulus" -> Annulus
           [] Shape = "torus" -> Torus7
           [] Shape = "two" -> Two
           [] Shape = "pocket" -> Pocket

Init == T = Start /\ topo = Topology(Start)

Fresh == Ids \ Verts(T)
NewId == CHOOSE n \in Fresh : \A m \in Fresh : n <= m

Split(a, b)    == SplitOK(T, a, b) /\ Fresh # {} /\ T' = SplitTri(T, a, b, NewId)
Flip(a, b)     == FlipOK(T, a, b) /\ T' = FlipTri(T, a, b)
Collapse(a, b) == CollapseTopoOK(T, a, b) /\ T' = CollapseTri(T, a, b)

Next == /\ UNCHANGED topo
        /\ \E e \in DirEdges(T) : \/ Split(e[1], e[2])
                                  \/ Flip(e[1], e[2])
                                  \/ Collapse(e[1], e[2])

Spec == Init /\ [][Next]_<<T, topo>>

Manifold == IsSurface(T)
SameTopology == Topology(T) = topo

(* effect of each operation in terms of what is added and removed *)
StepEffect ==
  [][ LET F == Cardinality(T)  F1 == Cardinality(T')
          V == Cardinality(Verts(T))  V1 == Cardinality(Verts(T'))
      IN  \/ F1 = F + 2 /\ V1 = V + 1 /\ Cardinality(T \ T') = 2
          \/ F1 = F /\ V1 = V /\ Cardinality(T \ T') = 2 /\ NumEdges(T') = NumEdges(T)
          \/ F1 = F - 2 /\ V1 = V - 1
    ]_<<T, topo>>
=============================================================================
