------------------------------- MODULE Remesh -------------------------------
(***************************************************************************)
(* Remeshing and simplification on the level of surfaces: passes of edits, *)
(* each under the rule of its kind.  Lengths are left open here (any edge  *)
(* may be long or short); they are measured and judged in TraceRemesh.     *)
(***************************************************************************)
EXTENDS MeshOps, Integers

(* The two triangles beside an edge have no locked corner. *)
LockFree(T, L, a, b) == {a, b, Opp(T, a, b), Opp(T, b, a)} \cap L = {}

Ideal(T, v) == IF OnBoundary(T, v) THEN 4 ELSE 6
Off(T, v, d) == Abs(Degree(T, v) + d - Ideal(T, v))

(* deviation of the four vertices now, and if a-b were flipped *)
Score(T, a, b) == Off(T, a, 0) + Off(T, b, 0) + Off(T, Opp(T, a, b), 0) + Off(T, Opp(T, b, a), 0)
Flipped(T, a, b) == Off(T, a, -1) + Off(T, b, -1) + Off(T, Opp(T, a, b), 1) + Off(T, Opp(T, b, a), 1)
Lowers(T, a, b) == Flipped(T, a, b) < Score(T, a, b)

(* what remeshing keeps *)
KeepsSurface(S, T) == IsSurface(T) /\ Topology(T) = Topology(S)

(* what simplification keeps: the boundary, edge by edge *)
KeepsBoundary(S, T) == BoundaryEdges(S) = BoundaryEdges(T)
(* n faces, target t, m faces at the end *)
StopsAt(n, t, m) == IF n <= t THEN m = n
                    ELSE /\ m <= n /\ m >= t - 1
                         /\ (n - m) % 2 = 0
=============================================================================
