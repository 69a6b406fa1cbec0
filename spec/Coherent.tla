------------------------------ MODULE Coherent ------------------------------
(***************************************************************************)
(* Context-coherent filling: all holes are closed, and the filling is then *)
(* improved by edits of edges that have an end inside of it.  What was     *)
(* there stays: every triangle of the surface given is in the result.      *)
(***************************************************************************)
EXTENDS MeshOps, Fill

Inside(T0, v) == v \notin Verts(T0)

(* the edits that may improve a filling of T0 *)
MaySplit(T0, T, a, b) == SplitOK(T, a, b) /\ (Inside(T0, a) \/ Inside(T0, b))
MayFlip(T0, T, a, b)  == FlipOK(T, a, b) /\ (Inside(T0, a) \/ Inside(T0, b))
MayMerge(T0, T, a, b) == CollapseTopoOK(T, a, b) /\ Inside(T0, a) /\ Inside(T0, b)

(* T is a filling of T0 *)
Closes(T0, T) ==
  /\ IsSurface(T)
  /\ BoundaryEdges(T) = {}
  /\ T0 \subseteq T
  /\ Euler(T) = Euler(T0) + Cardinality(HoleLoops(T0))
  /\ CompCount(T) = CompCount(T0)
=============================================================================
