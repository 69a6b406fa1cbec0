------------------------------ MODULE MCBuild ------------------------------
(***************************************************************************)
(* Every triangle list, up to renaming of positions, of at most MaxT       *)
(* triangles on at most MaxV positions: grown one triangle at a time (with *)
(* positions named in order of first appearance, so that each list stands  *)
(* for all its renamings).  Emit prints the specified outcome of each list *)
(* for replay into the implementation.                                     *)
(***************************************************************************)
EXTENDS Build, TLC, Json
CONSTANTS MaxT, MaxV, Rot     \* Rot: FALSE to list each triangle in one rotation only

VARIABLES c
Init == c = <<>>

Next ==
  /\ NTri(c) < MaxT
  /\ LET n == NumVerts(c)
     IN  \E x \in 0..n, y \in 0..(n + 1), z \in 0..(n + 2) :
           /\ x < MaxV /\ y < MaxV /\ z < MaxV
           /\ y <= (IF x = n THEN n + 1 ELSE n)
           /\ z <= (LET top == IF x = n THEN n + 1 ELSE n
                    IN  IF y = top THEN top + 1 ELSE top)
           /\ Rot \/ (x # y /\ y # z /\ z # x /\
                       (IF n = 0 THEN TRUE ELSE (x < n \/ y < n \/ z < n) /\
                          (\A r \in {<<y, z, x>>, <<z, x, y>>} : x <= r[1] \/ r[1] >= n)))
           /\ c' = c \o <<x, y, z>>
Spec == Init /\ [][Next]_c

(* What is kept never overlaps, and everything listed and left out has a reason. *)
Sound ==
  \A T \in Candidates(c) :
    /\ EdgeManifold(T)
    /\ \A k \in 1..NTri(c) :
         LET t == Listed(c)[k]
         IN  Degenerate(t) \/ CanonT(t) \in T \/ EdgesOf(CanonT(t)) \cap DirEdges(T) # {}

(* A clean list gives exactly its triangles, in any order. *)
Clean(l) == /\ \A k \in 1..Len(l) : ~Degenerate(l[k])
            /\ \A j, k \in 1..Len(l) : j # k => EdgesOf(CanonT(l[j])) \cap EdgesOf(CanonT(l[k])) = {}
Faithful ==
  LET l == Listed(c)
  IN  Clean(l) => Candidates(c) = {{CanonT(l[k]) : k \in 1..Len(l)}}

(* Counts of the surface satisfy the handshake relations *)
Counts ==
  \A T \in Results(c) :
    /\ NumHalfedges(T) = 3 * Cardinality(T) + Cardinality(BoundaryEdges(T))
    /\ \A v \in Verts(T) : Cardinality(GapPairs(T, v)) = (IF OnBoundary(T, v) THEN 1 ELSE 0)

Emit == PrintT("CASE " \o ToJson([c |-> c, n |-> NumVerts(c), fail |-> MayFail(c),
          res |-> {[tri |-> T, holes |-> HoleLoops(T)] : T \in Results(c)}]))
=============================================================================
