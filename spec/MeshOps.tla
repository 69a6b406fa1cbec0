------------------------------ MODULE MeshOps ------------------------------
(***************************************************************************)
(* The editing operations of a mesh, on the level of surfaces.             *)
(*                                                                         *)
(* A mesh value is a record [tri, pos, lock]: the set of triangles over    *)
(* vertex identities, the position of each vertex and the set of locked    *)
(* vertices.  Each operation is given as                                   *)
(*   - the condition under which it must refuse,                           *)
(*   - the condition under which it must succeed, and                      *)
(*   - the mesh that results if it does.                                   *)
(* For split and flip the two conditions are complementary.  For collapse  *)
(* they leave one gap: positions for which the orientation test meets an   *)
(* exact zero, where rounding decides.                                     *)
(***************************************************************************)
EXTENDS Surface, Geom

(*--------------------------------- split ---------------------------------*)
SplitOK(T, a, b) ==
  /\ InteriorEdge(T, a, b)
  /\ Degree(T, a) >= 3
  /\ Degree(T, b) >= 3

SplitTri(T, a, b, n) ==
  LET c == Opp(T, a, b)
      d == Opp(T, b, a)
  IN  (T \ {Canon(a, b, c), Canon(b, a, d)})
      \cup {Canon(a, n, c), Canon(n, b, c), Canon(b, n, d), Canon(n, a, d)}

(*---------------------------------- flip ---------------------------------*)
FlipOK(T, a, b) ==
  /\ InteriorEdge(T, a, b)
  /\ Degree(T, a) > 4
  /\ Degree(T, b) > 4
  /\ ~Adjacent(T, Opp(T, a, b), Opp(T, b, a))

FlipTri(T, a, b) ==
  LET c == Opp(T, a, b)
      d == Opp(T, b, a)
  IN  (T \ {Canon(a, b, c), Canon(b, a, d)}) \cup {Canon(a, d, c), Canon(d, b, c)}

(*-------------------------------- collapse -------------------------------*)
Keep(T, a, b) == IF Degree(T, a) > Degree(T, b) THEN b ELSE a
Gone(T, a, b) == IF Degree(T, a) > Degree(T, b) THEN a ELSE b

(* What does not depend on positions. *)
CollapseTopoOK(T, a, b) ==
  /\ InteriorEdge(T, a, b)
  /\ LET c == Opp(T, a, b)
         d == Opp(T, b, a)
     IN  /\ ~BoundaryTri(T, <<a, b, c>>)
         /\ ~BoundaryTri(T, <<b, a, d>>)
         /\ ~(OnBoundary(T, a) /\ OnBoundary(T, b))
         /\ Degree(T, a) > 3
         /\ Degree(T, b) > 3
         /\ Degree(T, c) > 4
         /\ Degree(T, d) > 4
         /\ Cardinality(Nbrs(T, a) \cap Nbrs(T, b)) = 2

(* The ring of the vertex that goes, as pairs of consecutive neighbours. *)
RingPairs(T, v) == LinkPairs(T, v) \cup GapPairs(T, v)

RingNormal(T, pos, v) ==
  LET R == RingPairs(T, v)
  IN  VSumSet([p \in R |-> Cross(VSub(pos[p[1]], pos[v]), VSub(pos[p[2]], pos[v]))], R)

(* Signs of the ring's triangles, seen along the ring normal, when their   *)
(* apex is moved from g to k.  The two pairs that contain k vanish.        *)
RingSigns(T, pos, k, g) ==
  LET N == RingNormal(T, pos, g)
  IN  {Sgn(Dot(N, Cross(VSub(pos[p[1]], pos[k]), VSub(pos[p[2]], pos[k])))) :
         p \in {q \in RingPairs(T, g) : q[1] # k /\ q[2] # k}}

(* "refuse" / "accept" / "either": what positions say about a collapse.    *)
CollapseShape(T, pos, a, b) ==
  LET k == Keep(T, a, b)
      g == Gone(T, a, b)
  IN  IF RingNormal(T, pos, g) = Zero3 THEN "refuse"
      ELSE LET S == RingSigns(T, pos, k, g)
           IN  IF -1 \in S /\ 1 \in S THEN "refuse"
               ELSE IF 0 \in S THEN "either"
               ELSE "accept"

MustCollapse(T, pos, a, b) == CollapseTopoOK(T, a, b) /\ CollapseShape(T, pos, a, b) = "accept"
MayCollapse(T, pos, a, b)  == CollapseTopoOK(T, a, b) /\ CollapseShape(T, pos, a, b) # "refuse"

Redirect(t, g, k) ==
  CanonT([i \in 1..3 |-> IF t[i] = g THEN k ELSE t[i]])

CollapseTri(T, a, b) ==
  LET k == Keep(T, a, b)
      g == Gone(T, a, b)
      S == Star(T, g)
  IN  (T \ S) \cup {Redirect(t, g, k) : t \in {u \in S : k \notin VertsOf(u)}}

(*------------------------------ mesh values ------------------------------*)
(* Restriction of a function to a set. *)
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

SplitMesh(m, a, b, n) ==
  [tri  |-> SplitTri(m.tri, a, b, n),
   pos  |-> [v \in DOMAIN m.pos \cup {n} |->
               IF v = n THEN MidPoint(m.pos[a], m.pos[b]) ELSE m.pos[v]],
   lock |-> m.lock]

FlipMesh(m, a, b) == [m EXCEPT !.tri = FlipTri(@, a, b)]

CollapseMesh(m, a, b) ==
  LET g == Gone(m.tri, a, b)
  IN  [tri  |-> CollapseTri(m.tri, a, b),
       pos  |-> Only(m.pos, DOMAIN m.pos \ {g}),
       lock |-> m.lock \ {g}]
=============================================================================
