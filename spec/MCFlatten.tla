---------------------------- MODULE MCFlatten ----------------------------
(***************************************************************************)
(* A round of L0 denoising on a tetrahedron with one coordinate, over all  *)
(* small new values q, old values x, rows and weights: q determines the    *)
(* values given, p.  The sum of all values stays, q is the only minimum of *)
(*   |q - p|^2 + al |R q|^2 + be |D q - kept|^2,                           *)
(* the choice of what to keep is a minimum of be |D x - kept|^2 plus lam   *)
(* for everything kept, and constants stay.  Told apart: another limit for *)
(* keeping, and rows that are not zero on constants.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Top, Rule
VARIABLES q, x, w, al, be, lam
V == 1..4
E == {<<1, 3, 2, 4>>, <<1, 4, 3, 2>>, <<1, 2, 4, 3>>, <<2, 1, 3, 4>>, <<2, 3, 4, 1>>, <<3, 1, 4, 2>>}   \* end, apex, end, apex
Row == IF Rule = "open" THEN <<-1, w, -2, 4 - w>> ELSE <<-2, w, -2, 4 - w>>
R == <<1, -1, 1, -1>>
At(r, e, h) == r[1] * h[e[1]] + r[2] * h[e[2]] + r[3] * h[e[3]] + r[4] * h[e[4]]
Of(r, e, v) == r[CHOOSE k \in 1..4 : e[k] = v]
Small(y) == IF Rule = "plain" THEN (IF y < 0 THEN -y ELSE y) * be < lam ELSE y * y * be < lam
Kept(y) == IF Small(y) THEN 0 ELSE y
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + Sum(f, S \ {s})
D(e) == Kept(At(Row, e, x))
P == [v \in V |-> q[v] + Sum([e \in E |-> al * Of(R, e, v) * At(R, e, q)
                                          + be * Of(Row, e, v) * (At(Row, e, q) - D(e))], E)]
Sq(a) == a * a
Cost(h, p, d) == Sum([v \in V |-> Sq(h[v] - p[v])], V) + Sum([e \in E |-> al * Sq(At(R, e, h)) + be * Sq(At(Row, e, h) - d[e])], E)
Init == /\ q \in [V -> 0..Top] /\ x \in [V -> 0..1]
        /\ w \in 1..2 /\ al \in 0..2 /\ be \in 1..3 /\ lam \in {2, 20}
Next == UNCHANGED <<q, x, w, al, be, lam>>
Spec == Init /\ [][Next]_<<q, x, w, al, be, lam>>
Centre == \E p \in {P} : Sum(p, V) = Sum(q, V)
Least == \E p \in {TLCEval(P)} : \E d \in {TLCEval([e \in E |-> D(e)])} : \E c \in {Cost(q, p, d)} :
           \A v \in V, u \in V, a \in {0, 1}, b \in {-1, 1} :
             u < v => Cost([q EXCEPT ![v] = @ + a, ![u] = @ + b], p, d) > c
Best == \A e \in E :
          LET y == At(Row, e, x)
              cost(k) == be * Sq(y - k) + (IF k = 0 THEN 0 ELSE lam)
          IN  \A k \in -8..8 : cost(Kept(y)) <= cost(k)
Constant == (\A v \in V : q[v] = q[1] /\ x[v] = x[1]) => P = q
=============================================================================
