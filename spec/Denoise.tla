------------------------------ MODULE Denoise ------------------------------
(***************************************************************************)
(* Normal filtering of a closed surface.  One iteration smooths positions  *)
(* by three Taubin steps, replaces the normal of each triangle by the      *)
(* direction of the weighted sum of the normals of the triangles across    *)
(* its edges, and moves each vertex towards the planes through the         *)
(* centroids of its triangles along the new normals, weighted by area.     *)
(* A neighbour weighs with its area, with the Gaussian of the distance of  *)
(* the centroids in units of sigma mean edge lengths, and for the          *)
(* bilateral filter with the Gaussian of the difference of the normals in  *)
(* units of their own sigma.                                               *)
(*                                                                         *)
(* Lengths are in 10^-3 of the grid, unit vectors in 10^-4, doubled areas  *)
(* in 10^-4 of the squared grid, ratios in 10^-4.  Normals, areas and      *)
(* distances are roots: they come as witnesses and are verified.           *)
(***************************************************************************)
EXTENDS Measure, Curvature

Mul6(a, b) == ((a \div 1000) * b + ((a % 1000) * b) \div 1000) \div 1000
VMul(a, n) == <<Mul(n[1], a), Mul(n[2], a), Mul(n[3], a)>>     \* a length, n a unit vector
DotMul(n, d) == Mul(n[1], d[1]) + Mul(n[2], d[2]) + Mul(n[3], d[3])
VDiv(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>

(* The Gaussian, one at zero, cut off smoothly between two and four; x in  *)
(* 10^-4, value in 10^-7.                                                  *)
Kernel(x) ==
  IF x < 20000 THEN 1000 * ExpNeg(Mul(x, x) \div 2)
  ELSE IF x < 40000
  THEN LET a2 == Mul(40000 - x, 40000 - x) IN (Mul(a2, a2) * 8458) \div 1000     \* 10 / (16 e^2) = 0.08458
  ELSE 0

(*------------------------------- witnesses -------------------------------*)
NormalOf(P, t, n) ==
  LET e1 == VSub(P[t[2]], P[t[1]])
      e2 == VSub(P[t[3]], P[t[1]])
  IN  /\ Unit(n)
      /\ Abs(DotMul(n, e1)) <= 7 + (Abs(e1[1]) + Abs(e1[2]) + Abs(e1[3])) \div 5000
      /\ Abs(DotMul(n, e2)) <= 7 + (Abs(e2[1]) + Abs(e2[2]) + Abs(e2[3])) \div 5000
AreaOf(P, t, n, a) ==
  LET x == VDiv(Cross(VSub(P[t[2]], P[t[1]]), VSub(P[t[3]], P[t[1]])), 100)
  IN  a > 0 /\ Abs(DotMul(n, x) - a) <= 400 + a \div 200
Cent3(P, t) == VAdd(P[t[1]], VAdd(P[t[2]], P[t[3]]))           \* three times the centroid
DistOf(P, s, t, d) ==
  LET x == VDiv(VSub(Cent3(P, s), Cent3(P, t)), 10)
      y == (3 * d) \div 10
  IN  d >= 0 /\ Abs(Norm2(x) - y * y) <= 8 * (y + 4)

(* triangle across each edge *)
Across(F) ==
  LET D == UNION {{<<F[f][1], F[f][2]>>, <<F[f][2], F[f][3]>>, <<F[f][3], F[f][1]>>} : f \in 1..Len(F)}
      own == TLCEval([d \in D |-> CHOOSE f \in 1..Len(F) :
                        d \in {<<F[f][1], F[f][2]>>, <<F[f][2], F[f][3]>>, <<F[f][3], F[f][1]>>}])
  IN  TLCEval([f \in 1..Len(F) |-> <<own[<<F[f][2], F[f][1]>>], own[<<F[f][3], F[f][2]>>], own[<<F[f][1], F[f][3]>>]>>])

(*------------------------------- the filter ------------------------------*)
Top3(s) == Max2(s[1], Max2(s[2], s[3]))
Ratio(s) == LET m == Top3(s) IN <<FixDiv(s[1], m, 4), FixDiv(s[2], m, 4), FixDiv(s[3], m, 4)>>

(* kc, ks: the two Gaussians (10^-7), a: areas, of the three neighbours *)
Weights(kc, ks, a) ==
  LET rc == Ratio(kc)
      rs == Ratio(ks)
      ra == Ratio(a)
  IN  [k \in 1..3 |-> Mul(Mul(rc[k], rs[k]), ra[k])]

NoWeight(kc, ks) == \A k \in 1..3 : kc[k] = 0 \/ ks[k] = 0
(* the weights are known well enough to tell the direction *)
Clear(kc, ks, w, sum) == Top3(kc) >= 3000 /\ Top3(ks) >= 3000 /\ Top3(w) >= 1000 /\ Norm2(VDiv(sum, 2)) >= 4000000

WeightedSum(w, n) == VAdd(VMul(w[1], n[1]), VAdd(VMul(w[2], n[2]), VMul(w[3], n[3])))
(* n is the direction of s, |s| >= 4000 *)
Along(n, s) == /\ Unit(n)
               /\ Dot(n, s) > 0
               /\ \A c \in {Cross(VDiv(n, 10), VDiv(s, 10))} : \A k \in 1..3 :
                    Abs(c[k]) <= 3000 + 3 * (Abs(s[1]) + Abs(s[2]) + Abs(s[3]))

(* where v goes; own: its triangles, n: new normals, a: areas *)
Target(P, F, v, own, n, a) ==
  LET A == SumOver(a, own)
      s == TLCEval([f \in own |-> DotMul(n[f], VSub(Cent3(P, F[f]), VScale(3, P[v]))) \div 3])
      mv == TLCEval([f \in own |-> VMul(Mul6(FixDiv(a[f], A, 6), s[f]), n[f])])
  IN  <<VAdd(P[v], VSumSet(mv, own)), 8 + 2 * Cardinality(own) + SumOver([f \in own |-> Abs(s[f]) \div 800], own)>>
=============================================================================
