----------------------------- MODULE MCQuadric -----------------------------
(* A pass over a small surface, for every choice of errors, every order      *)
(* among equals and every refusal.  Vertices stand in a row; when one is     *)
(* taken out the last moves into its place.                                  *)
EXTENDS Quadric
CONSTANTS Shape, Costs, Rule, Few
(* Rule "right"; "places": marks stay with places in the row, not with the   *)
(* vertices; "source": the first end is moved, whichever end stays; "moved": *)
(* a refused merge leaves its vertex moved; "dear": dearest first.           *)
(* Few: every choice of at most three edges instead of all                   *)

VARIABLES T, cost, row, marks, todo, done, at
vars == <<T, cost, row, marks, todo, done, at>>

Ring(k) == {Canon(i, (i + 1) % k, k + i) : i \in 0..(k - 1)} \cup {Canon((i + 1) % k, k + ((i + 1) % k), k + i) : i \in 0..(k - 1)}
Cap(k) == Ring(k) \cup {Canon((i + 1) % k, i, 2 * k) : i \in 0..(k - 1)}
(* a ring with both sides closed: every vertex has degree four or five *)
Drum(k) == Ring(k) \cup {Canon((i + 1) % k, i, 2 * k) : i \in 0..(k - 1)}
                   \cup {Canon(k + i, k + ((i + 1) % k), 2 * k + 1) : i \in 0..(k - 1)}
S0 == CASE Shape = "drum4" -> Drum(4) [] Shape = "drum5" -> Drum(5)
        [] Shape = "cap4" -> Cap(4) [] Shape = "cap5" -> Cap(5) [] Shape = "cap6" -> Cap(6)

(* those with an end on the boundary are passed over at once *)
Edges0 == {e \in DirEdges(S0) : e[1] < e[2] /\ ~OnBoundary(S0, e[1]) /\ ~OnBoundary(S0, e[2])}
(* errors by the vertex of the smaller name, to keep their number small *)
Cost(e) == cost[e[1]]
Low == {e[1] : e \in Edges0}
V0 == Verts(S0)
N0 == Cardinality(V0)

Init == /\ T = S0 /\ cost \in [Low -> Costs]
        /\ row = [k \in 1..N0 |-> k - 1] /\ marks = {} /\ done = <<>>
        /\ at = [v \in V0 |-> "old"]
        /\ todo \in (IF Few THEN {{e, f, g} : e, f, g \in Edges0} ELSE {Edges0})

Place(v) == CHOOSE k \in 1..Len(row) : row[k] = v
Mark(v) == IF Rule = "places" THEN Place(v) ELSE v
Without(v) == LET k == Place(v) IN SubSeq([row EXCEPT ![k] = row[Len(row)]], 1, Len(row) - 1)

Next0(e) == IF Rule = "dear" THEN \A f \in todo : Cost(f) <= Cost(e) ELSE \A f \in todo : Cost(f) >= Cost(e)
Alive(e) == e \in DirEdges(T)
Free(e) == /\ Mark(e[1]) \notin marks /\ Mark(e[2]) \notin marks
           /\ ~OnBoundary(T, e[1]) /\ ~OnBoundary(T, e[2])
           /\ Degree(T, e[1]) > 3 /\ Degree(T, e[2]) > 3

Pass(e) == UNCHANGED <<T, row, marks, done, at>>
Ends(a, b) == <<Keep(T, a, b), Gone(T, a, b)>>
Merge(a, b) ==
  LET k == Ends(a, b)
      m == IF Rule = "source" THEN a ELSE k[1]
  IN  /\ CollapseTopoOK(T, k[1], k[2])
      /\ marks' = marks \cup {Mark(m)}
      /\ T' = CollapseTri(T, k[1], k[2])
      /\ row' = Without(k[2])
      /\ done' = Append(done, <<k[1], k[2], Cost(<<Min2(a, b), Max2(a, b)>>)>>)
      /\ at' = [at EXCEPT ![m] = "best"]
Refuse(a, b) ==
  LET m == IF Rule = "source" THEN a ELSE Keep(T, a, b)
  IN  /\ marks' = marks \cup {Mark(m)}
      /\ at' = [at EXCEPT ![m] = IF Rule = "moved" THEN "best" ELSE @]
      /\ UNCHANGED <<T, row, done>>

(* never free again, so of no more interest (unless marks get lost) *)
Settled(D, e) == Rule # "places" /\ (e \notin D \/ e[1] \in marks' \/ e[2] \in marks')
Next == \E e \in todo :
  /\ Next0(e) /\ UNCHANGED cost
  /\ IF ~Alive(e) \/ ~Free(e) THEN Pass(e)
     ELSE \/ Merge(e[1], e[2]) \/ Merge(e[2], e[1])
          \/ Refuse(e[1], e[2]) \/ Refuse(e[2], e[1])
  /\ \E D \in {DirEdges(T')} : todo' = {f \in todo \ {e} : ~Settled(D, f)}
Spec == Init /\ [][Next]_vars

Surface == IsSurface(T) /\ Topology(T) = Topology(S0)
Ordered == \A k \in 1..(Len(done) - 1) : done[k][3] <= done[k + 1][3]
Once == \A k, l \in 1..Len(done) : k # l => {done[k][1], done[k][2]} \cap {done[l][1], done[l][2]} = {}
Placed == \A v \in Verts(T) : (at[v] = "best") = (\E k \in 1..Len(done) : done[k][1] = v)
=============================================================================
