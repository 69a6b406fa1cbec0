------------------------------ MODULE Fairing ------------------------------
(***************************************************************************)
(* Implicit fairing.  The new positions q of all vertices together satisfy *)
(*    q = p + e (c(q) - q),                                                *)
(* c(q) being the average of the neighbours' new positions with the        *)
(* cotangent weights of the old surface.  Stated where all weights are     *)
(* positive: then there is exactly one such q, and it stays in the range   *)
(* of p.                                                                   *)
(***************************************************************************)
EXTENDS Smooth

(* a / 10^6 times b, |a| <= 10^6, |b| < 10^6 *)
Mul6(a, b) == ((a \div 1000) * b + ((a % 1000) * b) \div 1000) \div 1000

(* twice the weights of the edges at v in units of 1 / CU *)
WeightsAt(T, pos, v) == TLCEval([x \in Nbrs(T, v) |-> CotWeight(T, pos, v, x)])
Fair(w) == \A x \in DOMAIN w : w[x] # CotBad /\ w[x] >= 0
Enough(w) == SumOver(w, DOMAIN w) > CU \div 2

(* the equation at v; q in units of 1/1000 of the grid of pos, w fair and enough *)
Balanced(pos, w, v, num, den, q) ==
  \E N \in {DOMAIN w} :
  \E W \in {SumOver(w, N)} :
  \E lam \in {TLCEval([x \in N |-> FixDiv(w[x], W, 6)])} :
  \E off \in {TLCEval([x \in N |-> FixDiv(3 + w[x] \div 20000, W, 6)])} :
    \A k \in 1..3 :
      LET pull == SumOver([x \in N |-> Mul6(lam[x], q[x][k] - q[v][k])], N)
          slack == SumOver([x \in N |-> 2 + Mul6(off[x], 2 * Abs(q[x][k] - q[v][k]))], N)
      IN  Abs(den * (q[v][k] - 1000 * pos[v][k]) - num * pull) <= num * slack + 4 * den
=============================================================================
