----------------------------- MODULE MCFairing -----------------------------
(***************************************************************************)
(* The implicit step on a small graph, over all small new heights q and    *)
(* weights: q determines the old heights p = q - e (c(q) - q).  It stays   *)
(* in the range of p, for every strength; different q have different p;    *)
(* equal heights stay.  Other rules are told apart: the explicit step      *)
(* leaves the range.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, Top, Rule, Strengths        \* strengths in halves
VARIABLES q, r, w, e
V == 1..N
(* a ring with a chord through weight w[0]; weights sum to W at every vertex *)
Left(v) == IF v = 1 THEN N ELSE v - 1
Right(v) == IF v = N THEN 1 ELSE v + 1
Far(v) == ((v - 1 + N \div 2) % N) + 1
W == w[1] + w[2] + w[3]
Sum(h, v) == w[1] * h[Left(v)] + w[2] * h[Right(v)] + w[3] * h[Far(v)]
(* what is left of the other heights: 2 W p for the implicit, 2 W q for the explicit rule *)
Old(h) == [v \in V |-> 2 * W * h[v] - e * (Sum(h, v) - W * h[v])]
New(h) == [v \in V |-> 2 * W * h[v] + e * (Sum(h, v) - W * h[v])]
Lo(h) == CHOOSE x \in {h[v] : v \in V} : \A v \in V : x <= h[v]
Hi(h) == CHOOSE x \in {h[v] : v \in V} : \A v \in V : x >= h[v]
Init == /\ q \in [V -> 0..Top] /\ r \in [V -> 0..1]
        /\ w \in [1..3 -> 0..2] /\ W > 0
        /\ e \in Strengths
Next == UNCHANGED <<q, r, w, e>>
Spec == Init /\ [][Next]_<<q, r, w, e>>
InRange == IF Rule = "implicit"
           THEN Lo(Old(q)) <= 2 * W * Lo(q) /\ 2 * W * Hi(q) <= Hi(Old(q))
           ELSE 2 * W * Lo(q) <= Lo(New(q)) /\ Hi(New(q)) <= 2 * W * Hi(q)
Unique == q # r => Old(q) # Old(r)
Equal == Lo(q) = Hi(q) => Old(q) = [v \in V |-> 2 * W * q[v]]
=============================================================================
