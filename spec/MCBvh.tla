-------------------------------- MODULE MCBvh --------------------------------
(* Search of a hierarchy of boxes.  Things are boxes or points of a small     *)
(* plane lattice; any way of splitting them and any order of visits is        *)
(* allowed.  A part is entered only if its box is not farther than the best   *)
(* found so far.                                                              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS R, N, Rule        \* Rule: "box", or a wrong one: "centre", "inner"
VARIABLES thing, open, best
vars == <<thing, open, best>>
None == 1000000

Ids == 1..N
Max2(a, b) == IF a > b THEN a ELSE b
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Pts == (0..R) \X (0..R)
(* a thing is a segment along an axis; the query is the origin *)
Things == {<<p, p2>> \in Pts \X Pts : (p[1] = p2[1] \/ p[2] = p2[2]) /\ p[1] <= p2[1] /\ p[2] <= p2[2]}
Lo(S, k) == Min({thing[i][1][k] : i \in S})
Hi(S, k) == Max({thing[i][2][k] : i \in S})
Gap(lo, hi) == IF lo > 0 THEN lo ELSE IF hi < 0 THEN -hi ELSE 0
D2(i) == LET a == Gap(thing[i][1][1], thing[i][2][1])  b == Gap(thing[i][1][2], thing[i][2][2]) IN a * a + b * b
BoxD2(S) == LET a == Gap(Lo(S, 1), Hi(S, 1))  b == Gap(Lo(S, 2), Hi(S, 2)) IN a * a + b * b
Bound(S) ==
  CASE Rule = "box" -> BoxD2(S)
    [] Rule = "centre" -> LET a == (Lo(S, 1) + Hi(S, 1)) \div 2  b == (Lo(S, 2) + Hi(S, 2)) \div 2 IN a * a + b * b
    [] Rule = "inner" -> LET i == CHOOSE i \in S : TRUE IN D2(i)
Init == thing \in [Ids -> Things] /\ open = {Ids} /\ best = None
Visit == \E S \in open :
  IF Cardinality(S) = 1
  THEN /\ open' = open \ {S}
       /\ best' = LET d == D2(CHOOSE i \in S : TRUE) IN IF d < best THEN d ELSE best
       /\ UNCHANGED thing
  ELSE IF Bound(S) <= best
       THEN \E A \in SUBSET S : /\ A # {} /\ A # S
                                /\ open' = (open \ {S}) \cup {A, S \ A}
                                /\ UNCHANGED <<thing, best>>
       ELSE open' = open \ {S} /\ UNCHANGED <<thing, best>>
Next == Visit
Spec == Init /\ [][Next]_vars
Right == open = {} => best = Min({D2(i) : i \in Ids})
NeverBelow == best # None => best >= Min({D2(i) : i \in Ids})
=============================================================================
