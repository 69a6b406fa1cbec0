----------------------------- MODULE MCChoice -----------------------------
(***************************************************************************)
(* The rule of Fill on all small tables: the choice is always a            *)
(* triangulation; for a loop of four, a cover worse in both bending and    *)
(* area is never chosen, and with a vanishing bound the smaller worst      *)
(* bending is.                                                             *)
(***************************************************************************)
EXTENDS Fill, TLC
CONSTANTS N, Top, Bounds      \* loop length, largest table value, bounds tried

VARIABLES w      \* weights, from which the tables are formed
Places == 1..N
Tri3 == {<<i, j, k>> \in Places \X Places \X Places : i < j /\ j < k}

(* bending depends on the edge and the two apexes through a weight per triangle *)
Tab(v, b) == [bend |-> [x \in Places |-> [y \in Places |-> [p \in Places |-> [q \in 1..(N + 1) |->
                 IF x >= y THEN 0
                 ELSE IF q = N + 1 THEN v.o[x] * p % (Top + 2)
                 ELSE (v.t[1] * (x + y) + v.t[2] * (p + q)) % (Top + 2)]]]],
              area |-> [i \in Places |-> [j \in Places |-> [k \in Places |-> (v.a[1] * i + v.a[2] * j + k) % (Top + 2)]]],
              bound |-> b, epsB |-> 0, epsA |-> 0]

Init == w \in [o : [Places -> 0..Top], t : [1..2 -> 0..Top], a : [1..2 -> 0..Top]]
Next == UNCHANGED w
Spec == Init /\ [][Next]_w

IsCover(C) == LET l == [i \in Places |-> i]
              IN  {CanonT(t) : t \in C} \in Triangulations(l)
Covers == \A b \in Bounds : LET S == Chosen(Tab(w, b), N) IN S # {} /\ \A C \in S : IsCover(C)

(* with exact comparison only equal bendings leave a choice open, and only one *)
Two(d) == LET A == Outcome(Max2(Max2(d.bend[1][2][4][5], d.bend[2][4][1][3]), Max2(d.bend[2][3][4][5], d.bend[3][4][2][5])),
                           d.area[1][2][4] + d.area[2][3][4], 2, <<>>)
              B == Outcome(Max2(Max2(d.bend[1][3][4][2], d.bend[3][4][1][5]), Max2(d.bend[1][2][3][5], d.bend[2][3][1][5])),
                           d.area[1][3][4] + d.area[1][2][3], 3, <<>>)
          IN  <<A, B>>
CoverOf(at) == IF at = 2 THEN {<<1, 2, 4>>, <<2, 3, 4>>} ELSE {<<1, 3, 4>>, <<1, 2, 3>>}
FourChoice ==
  N = 4 => \A b \in Bounds :
    LET d == Tab(w, b)
        p == Two(d)
        S == Chosen(d, 4)
    IN  \A x \in 1..2 :
          LET me == p[x]  other == p[3 - x]
          IN  /\ (me.b > other.b /\ me.a > other.a) => CoverOf(me.at) \notin S
              /\ (b = 0 /\ me.b > other.b) => CoverOf(me.at) \notin S
=============================================================================
