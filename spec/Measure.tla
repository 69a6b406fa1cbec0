------------------------------ MODULE Measure ------------------------------
(***************************************************************************)
(* Lengths, areas, shares of corners and Laplacians of a surface with      *)
(* integer positions.  Irrational values are in units of 1 / CU (10^-5).   *)
(***************************************************************************)
EXTENDS Smooth

(* sqrt(n) to 10^-5: integer root of n k^2, one Newton step, divided by k *)
SqrtFix(n) ==
  IF n = 0 THEN 0
  ELSE LET s == ScaleUp(n, 1)
           r == ISqrt(s[1])
       IN  FixDiv(10000 * r + FixDiv(s[1] - r * r, 2 * r, 4), s[2], 1)

EdgeLength(pos, a, b) == SqrtFix(Norm2(VSub(pos[a], pos[b])))
Normal(pos, t) == Cross(VSub(pos[t[2]], pos[t[1]]), VSub(pos[t[3]], pos[t[1]]))
(* twice the area *)
Area2(pos, t) == SqrtFix(Norm2(Normal(pos, t)))

(* The share of corner o in triangle o, a, b, eightfold: the part nearest  *)
(* to o, or a half / a quarter of the triangle if it has an obtuse angle.  *)
CornerDot(pos, o, a, b) == Dot(VSub(pos[a], pos[o]), VSub(pos[b], pos[o]))
Share8(pos, o, a, b) ==
  IF CornerDot(pos, o, a, b) < 0 THEN 2 * Area2(pos, <<o, a, b>>)
  ELSE IF CornerDot(pos, a, b, o) < 0 \/ CornerDot(pos, b, o, a) < 0 THEN Area2(pos, <<o, a, b>>)
  ELSE Norm2(VSub(pos[a], pos[o])) * Cot(pos[b], pos[o], pos[a])
       + Norm2(VSub(pos[b], pos[o])) * Cot(pos[a], pos[b], pos[o])

(*------------------------------- Laplacians ------------------------------*)
(* wanted entry of row v, column w; w a neighbour of v *)
AdjEntry(T, v, w) == -1
(* twice the cotangent entry, or CotBad *)
CotEntry2(T, pos, v, w) ==
  LET c == CotWeight(T, pos, v, w) IN IF c = CotBad THEN CotBad ELSE -c
(* logarithm of the Gaussian weight, lnc = ln (4 pi h) *)
GaussLog(pos, v, w, h, lnc) == -FixDiv(25 * Norm2(VSub(pos[v], pos[w])), h, 8) - lnc   \* - l^2 / (4 h) - lnc

RECURSIVE SumEdges(_, _)
SumEdges(pos, E) == IF E = {} THEN 0
                    ELSE LET e == CHOOSE e \in E : TRUE IN EdgeLength(pos, e[1], e[2]) + SumEdges(pos, E \ {e})
=============================================================================
