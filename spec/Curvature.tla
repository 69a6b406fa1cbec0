----------------------------- MODULE Curvature -----------------------------
(***************************************************************************)
(* What must hold of principal curvatures and heat kernel signatures       *)
(* whatever the surface: relations between the values at one vertex, and   *)
(* between the values of a surface and of its image.  Curvatures are in    *)
(* 10^-5 of the inverse mean edge length, directions in 10^-4.             *)
(***************************************************************************)
EXTENDS Geom, Sequences

U == 10000
Unit(t) == Abs(Norm2(t) - U * U) <= 60000
Null(t) == Norm2(t) = 0
Orthogonal(s, t) == Abs(Dot(s, t)) <= 60000
Parallel(s, t) == Abs(Abs(Dot(s, t)) - U * U) <= 300000    \* within four degrees

(* at one vertex *)
Frame(k1, k2, t1, t2) ==
  /\ k1 >= k2
  /\ \/ Unit(t1) /\ Unit(t2) /\ Orthogonal(t1, t2)
     \/ Null(t1) /\ Null(t2) /\ k1 - k2 <= 20              \* no direction is preferred

(* two answers for the same vertex *)
Agree(k1, k2, t1, t2, j1, j2, s1, s2) ==
  /\ Abs(k1 - j1) <= 20 + Abs(k1) \div 5000
  /\ Abs(k2 - j2) <= 20 + Abs(k2) \div 5000
  /\ k1 - k2 > 2000 => Parallel(t1, s1) /\ Parallel(t2, s2)

(* derivatives along the directions, up to the choice of their signs *)
SameRate(e, d) == Abs(e - d) <= 20 + e \div 1000

(* a signature: not negative and not growing with time; 10^-7 *)
Signature(h) == /\ \A n \in DOMAIN h : h[n] >= 0
                /\ \A n \in 1..(Len(h) - 1) : h[n + 1] <= h[n] + 1

(*---------------------- the heat kernel of a graph -----------------------*)
(* All values in units of 10^-4. *)
Mul(a, b) == (((a \div 100) * b) \div 100) + (((a % 100) * b) \div 10000)
Ln2 == 6931
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 THEN x ELSE Halve((x + 1) \div 2, n - 1)
(* exp(-x), x >= 0 *)
ExpNeg(x) ==
  IF x > 120000 THEN 0
  ELSE LET n == x \div Ln2
           r == x % Ln2
           p2 == Mul(r, r) \div 2
           p3 == Mul(p2, r) \div 3
           p4 == Mul(p3, r) \div 4
           p5 == Mul(p4, r) \div 5
       IN  Halve(U - r + p2 - p3 + p4 - p5, n)

RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)

(* lam, u: eigenvalues, rising, and an orthonormal basis of eigenvectors   *)
(* of the graph Laplacian of E on 1..n                                     *)
Eigenbasis(n, E, lam, u) ==
  /\ \A i \in 1..(n - 1) : lam[i] <= lam[i + 1]
  /\ lam[1] \in -3..3
  /\ \A i \in 1..n : \A j \in 1..i :
       Abs(SumSeq([v \in 1..n |-> u[i][v] * u[j][v]], n) - (IF i = j THEN U * U ELSE 0)) <= 100000
  /\ \A v \in 1..n : \E Nb \in {{w \in 1..n : <<v, w>> \in E \/ <<w, v>> \in E}} :
       \A i \in 1..n :
         Abs(SumSeq([w \in 1..n |-> IF w \in Nb THEN u[i][v] - u[i][w] ELSE 0], n) - Mul(lam[i], u[i][v])) <= 40

(* times between the scales of the K-th and the second eigenvalue, in     *)
(* geometric progression; 4 ln 10 = 9.2103                                 *)
Times(lam, K, t) ==
  /\ Abs(Mul(lam[K], t[1]) - 92103) <= 30
  /\ Abs(Mul(lam[2], t[Len(t)]) - 92103) <= 30
  /\ \A j \in 2..(Len(t) - 1) : Abs(Mul(t[j], t[j]) - Mul(t[j - 1], t[j + 1])) <= 20 + t[j] \div 500

(* the heat that stays at v after time t, from the first K modes *)
Heat(lam, u, K, v, t) == SumSeq([i \in 1..K |-> Mul(Mul(u[i][v], u[i][v]), ExpNeg(Mul(Max2(lam[i], 0), t)))], K)
=============================================================================
