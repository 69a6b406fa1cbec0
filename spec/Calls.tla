------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Which calls of the library are proper, and what a caller may see.       *)
(*                                                                         *)
(* A call either does its work ("done") or is reported to the caller       *)
(* ("reported").  Improper ones have to be reported: a list that is not    *)
(* made of triangles over the given entries, a number that names nothing,  *)
(* a filter or an analysis that needs triangles on a mesh with another     *)
(* face, a target that cannot be met.  Proper ones have to be done.  For   *)
(* the few calls on which the documentation is silent both are allowed.    *)
(*                                                                         *)
(* A call is a record e with e.call and the arguments it is judged by:     *)
(*   build, ply, obj, bvh   n entries, ix the list (counted from 0)        *)
(*   vertex, halfedge, face k the number asked for, n the number there are *)
(*   gaussian, bilateral,                                                  *)
(*   curvature, derivatives,                                               *)
(*   field, flags           loops: lengths of the hole loops; k iterations *)
(*   triangle, share        k corners of the face; own: it has the vertex  *)
(*   simplify               k the target                                   *)
(*   modes                  k modes of n vertices                          *)
(*   laplacian              k the kind                                     *)
(*   nearest                n triangles to look among                      *)
(*   open                   how: what there is to load                     *)
(***************************************************************************)
EXTENDS Build

ListProper(n, ix) ==
  /\ Len(ix) % 3 = 0
  /\ \A j \in 1..Len(ix) : ix[j] \in 0..(n - 1)

AllTriangles(loops) == \A j \in 1..Len(loops) : loops[j] = 3

ListCalls == {"build", "ply", "obj"}
FilterCalls == {"gaussian", "bilateral"}
AnalysisCalls == {"curvature", "derivatives", "field", "flags"}
NumberCalls == {"vertex", "halfedge", "face"}

Corners(e) == [k \in 1..Len(e.ix) |-> e.pt[e.ix[k] + 1]]

(* the outcomes a caller may see *)
ListOutcomes(e) ==
  IF ~ListProper(e.n, e.ix) THEN {"reported"}
  ELSE LET c == Corners(e)
       IN  (IF Results(c) # {} THEN {"done"} ELSE {}) \cup (IF MayFail(c) THEN {"reported"} ELSE {})

Outcomes(e) ==
  CASE e.call \in ListCalls -> ListOutcomes(e)
    [] e.call = "bvh" -> IF ListProper(e.n, e.ix) THEN {"done"} ELSE {"reported"}
    [] e.call \in NumberCalls -> IF e.k \in 0..(e.n - 1) THEN {"done"} ELSE {"reported"}
    [] e.call \in FilterCalls ->
         IF AllTriangles(e.loops) THEN {"done"}
         ELSE IF e.k > 0 THEN {"reported"} ELSE {"done", "reported"}
    [] e.call \in AnalysisCalls -> IF AllTriangles(e.loops) THEN {"done"} ELSE {"reported"}
    [] e.call = "triangle" -> IF e.k = 3 THEN {"done"} ELSE {"reported"}
    [] e.call = "share" -> IF e.k = 3 /\ e.own THEN {"done"} ELSE {"reported"}
    [] e.call = "simplify" -> IF e.k > 0 THEN {"done"} ELSE {"reported"}
    [] e.call = "modes" -> IF e.k >= e.n THEN {"reported"} ELSE {"done", "reported"}
    [] e.call = "laplacian" -> IF e.k \in 0..2 THEN {"done"} ELSE {"reported"}
    [] e.call = "nearest" -> IF e.n > 0 THEN {"done"} ELSE {"reported"}
    [] e.call = "open" -> CASE e.how = "good" -> {"done"}
                            [] e.how = "layout" -> {"done", "reported"}   \* read right or not at all
                            [] OTHER -> {"reported"}
=============================================================================
