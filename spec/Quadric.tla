------------------------------ MODULE Quadric ------------------------------
(***************************************************************************)
(* One pass of simplification.  Every vertex has the planes of its         *)
(* triangles at the start of the pass, those with an edge on the boundary  *)
(* left out; the error of a point for an edge is the sum of its squared    *)
(* distances from the planes of both ends, a plane of both counted twice.  *)
(* Edges are merged in the order of their least errors.  The vertex that   *)
(* stays is put where the error is least, or in the middle of the edge if  *)
(* there is no single such point, and takes no part in another merge of    *)
(* the pass.  Edges are turned afterwards, if that brings the degrees of   *)
(* the four vertices closer to six.                                        *)
(*                                                                         *)
(* Lengths are in 10^-4 of the mean edge length, unit normals in 10^-4.    *)
(* Normals are roots: they come as witnesses and are verified.             *)
(***************************************************************************)
EXTENDS Remesh, Geom, FiniteSets, Sequences, TLC

(*------------------------- exact, on small numbers -----------------------*)
(* planes << normal, point >>, normals of any length *)
Off1(pl, v) == Dot(pl[1], VSub(v, pl[2]))
RECURSIVE ErrSum(_, _)
ErrSum(q, v) == IF q = <<>> THEN 0 ELSE Off1(Head(q), v) * Off1(Head(q), v) + ErrSum(Tail(q), v)
RECURSIVE Slope(_, _)
Slope(q, v) == IF q = <<>> THEN Zero3 ELSE VAdd(VScale(Off1(Head(q), v), Head(q)[1]), Slope(Tail(q), v))
Stationary(q, v) == Slope(q, v) = Zero3

(*------------------------------ the surface ------------------------------*)
Sides(f) == {<<f[1], f[2]>>, <<f[2], f[3]>>, <<f[3], f[1]>>}
(* F: sequence of triangles.  The triangles around v without a boundary edge *)
Inner(F) ==
  LET D == TLCEval(UNION {Sides(F[k]) : k \in 1..Len(F)})
  IN  TLCEval({k \in 1..Len(F) : \A e \in Sides(F[k]) : <<e[2], e[1]>> \in D})
Around(F, I, v) == {k \in I : v \in {F[k][1], F[k][2], F[k][3]}}

(* the deviation from six *)
Off6(T, v, d) == Abs(Degree(T, v) + d - 6)
Lowers6(T, a, b) ==
  LET c == Opp(T, a, b)
      d == Opp(T, b, a)
  IN  Off6(T, a, -1) + Off6(T, b, -1) + Off6(T, c, 1) + Off6(T, d, 1)
        < Off6(T, a, 0) + Off6(T, b, 0) + Off6(T, c, 0) + Off6(T, d, 0)

(*---------------------------- in fixed point -----------------------------*)
One == 10000
DotN(n, x) == Dot(n, x) \div One
Size1(x) == Abs(x[1]) + Abs(x[2]) + Abs(x[3])
NormalOf(P, f, n) ==
  LET e == VSub(P[f[2]], P[f[1]])
      g == VSub(P[f[3]], P[f[1]])
  IN  /\ Abs(Norm2(n) - One * One) <= 30000
      /\ Size1(e) > 100000 \/ Abs(DotN(n, e)) <= 4 + Size1(e) \div 10000
      /\ Size1(g) > 100000 \/ Abs(DotN(n, g)) <= 4 + Size1(g) \div 10000

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN f[k] + Sum(f, S \ {k})

(* the planes of one end, as seen from v: offset, and how well it is known *)
Seen(F, P, N, R, v) ==
  TLCEval([k \in R |-> LET x == VSub(v, P[F[k][1]]) IN <<DotN(N[k], x), 3 + Size1(x) \div 12000>>])
InReach(F, P, R, v) == \A k \in R : LET x == VSub(v, P[F[k][1]]) IN \A c \in 1..3 : Abs(x[c]) <= 30000
Known(N, R) == \A k \in R : Norm2(N[k]) > 0

Pull(N, R, s, c) == Sum([k \in R |-> (N[k][c] * s[k][1]) \div One], R)
PullOff(R, s) == Sum([k \in R |-> s[k][2] + 2 + Abs(s[k][1]) \div 10000], R)
(* no force: the error has no slope here *)
Least(N, Ra, Rb, sa, sb) ==
  \A c \in 1..3 : Abs(Pull(N, Ra, sa, c) + Pull(N, Rb, sb, c)) <= PullOff(Ra, sa) + PullOff(Rb, sb)
Middle(P, a, b, v) == \A c \in 1..3 : Abs(2 * v[c] - P[a][c] - P[b][c]) <= 4

(* one plane only, or none *)
Same(m, n) == (\A c \in 1..3 : Abs(m[c] - n[c]) <= 2) \/ (\A c \in 1..3 : Abs(m[c] + n[c]) <= 2)
Flat(N, R) == \A k, l \in R : Same(N[k], N[l])
(* determinant of the sum of the n n', scaled to trace 3000 *)
Gram(N, Ra, Rb, i, j) ==
  (3 * (Sum([k \in Ra |-> (N[k][i] * N[k][j]) \div 10000], Ra) + Sum([k \in Rb |-> (N[k][i] * N[k][j]) \div 10000], Rb)))
    \div (10 * (Cardinality(Ra) + Cardinality(Rb)))
Spread(N, Ra, Rb) ==
  LET g(i, j) == Gram(N, Ra, Rb, i, j)
      a == g(1, 1)  b == g(2, 2)  c == g(3, 3)
      d == g(1, 2)  e == g(1, 3)  f == g(2, 3)
  IN  a * (b * c - f * f) - d * (d * c - e * f) + e * (d * f - e * b)
(* far from having more than one least point *)
Single(N, Ra, Rb) == Ra \cup Rb # {} /\ Spread(N, Ra, Rb) > 540000

PlacedOK(F, P, N, a, b, Ra, Rb, sa, sb, v) ==
  IF Flat(N, Ra \cup Rb) THEN Middle(P, a, b, v)
  ELSE Least(N, Ra, Rb, sa, sb) \/ (Middle(P, a, b, v) /\ ~Single(N, Ra, Rb))

Err(R, s) == Sum([k \in R |-> (s[k][1] * s[k][1]) \div 64], R)
ErrOff(R, s) == Sum([k \in R |-> (2 * Abs(s[k][1]) * s[k][2] + s[k][2] * s[k][2]) \div 64 + 1], R)
=============================================================================
