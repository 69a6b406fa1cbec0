------------------------------ MODULE MCField ------------------------------
(***************************************************************************)
(* All sign patterns of an edge; all markings of the triangles of a closed *)
(* surface.  Rule: "aligned" as specified, "plain" without comparing the   *)
(* directions of the ends (refuted: depends on arbitrary signs).           *)
(***************************************************************************)
EXTENDS Field
CONSTANTS What, Rule
VARIABLES r, cls

S3 == {-1, 0, 1}
Patterns == [s1 : S3, s2 : S3, d : {-1, 1}, x1 : S3, x2 : S3, u1 : BOOLEAN, u2 : BOOLEAN, m1 : S3, m2 : S3]
Octa == {Canon(t[1], t[2], t[3]) : t \in {<<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 5>>, <<1, 5, 2>>,
                                          <<6, 3, 2>>, <<6, 4, 3>>, <<6, 5, 4>>, <<6, 2, 5>>}}
Place == <<<<0, 0, 9>>, <<9, 0, 0>>, <<0, 9, 0>>, <<-9, 0, 0>>, <<0, -9, 0>>, <<0, 0, -9>>>>

Class(q) == IF Rule = "aligned" THEN EdgeClass(q) ELSE EdgeClass([q EXCEPT !.d = 1])

Init == IF What = "edge" THEN r \in Patterns /\ cls = [t \in Octa |-> None]
        ELSE r = [s1 |-> 0] /\ cls \in [Octa -> {None, Ridge, Valley}]
Next == UNCHANGED <<r, cls>>
Spec == Init /\ [][Next]_<<r, cls>>

Symmetric == What = "edge" => Class(OtherEnd(r)) = Class(r)
TurnFree == What = "edge" => Class(Turned(r)) = Class(r)
(* a ridge and a valley exclude each other, and changing the sign of both derivatives exchanges nothing else *)
Kinds == What = "edge" =>
  /\ Class(r) = Ridge => r.m1 > 0 /\ r.m2 > 0
  /\ Class(r) = Valley => r.m1 < 0 /\ r.m2 < 0
  /\ Class([r EXCEPT !.s1 = -@, !.s2 = -@, !.m1 = -@, !.m2 = -@]) = -Class(r)

B == Border(Octa, cls)
AtBorder == What = "faces" =>
  \A v \in Verts(Octa) : Marked(B, v) =>
     /\ \E t \in Star(Octa, v) : cls[t] = None
     /\ \E t \in Star(Octa, v) : cls[t] # None
NoStrip == (What = "faces" /\ \A t \in Octa : cls[t] = None) => B = {}
Once == What = "faces" => \A t \in Octa : Cardinality(B \cap EdgesOf(t)) <= 1
(* exchanging ridges and valleys turns the directions round *)
Other == [t \in Octa |-> -cls[t]]
Opposite == What = "faces" =>
  /\ Border(Octa, Other) = B
  /\ \A v \in Verts(Octa) :
       \E own \in {{d \in B : v \in {d[1], d[2]}}} : own # {} =>
          \E p \in {Pointing(Octa, Place, cls, own, v)} : \E q \in {Pointing(Octa, Place, Other, own, v)} :
             \A k \in 1..3 : Abs(p[k] + q[k]) <= 1
=============================================================================
