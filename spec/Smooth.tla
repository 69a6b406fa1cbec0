------------------------------ MODULE Smooth ------------------------------
(***************************************************************************)
(* Vertex smoothing.  A step of strength e moves each free vertex p to     *)
(* (1 - e) p + e c, c being the weighted average of its neighbours before  *)
(* the step; vertices on the boundary and locked ones stay.                *)
(***************************************************************************)
EXTENDS Surface, Geom, TLC

Free(T, lock) == {v \in Verts(T) : ~OnBoundary(T, v) /\ v \notin lock}

(* the displacement e * (c - p) of a vertex for uniform weights, as the    *)
(* pair <<numerator vector, denominator>>, e = num / den                   *)
UniformMove(T, pos, v, num, den) ==
  LET N == Nbrs(T, v)
      d == Cardinality(N)
  IN  <<VScale(num, VSub(VSumSet(pos, N), VScale(d, pos[v]))), d * den>>

(* nearest integer to a / b, b > 0 *)
Round(a, b) == (2 * a + b) \div (2 * b)
VRound(a, b) == <<Round(a[1], b), Round(a[2], b), Round(a[3], b)>>

UniformStep(T, lock, pos, num, den) ==
  LET F == TLCEval(Free(T, lock)) IN TLCEval(
  [v \in DOMAIN pos |->
     IF v \in F
     THEN LET mv == UniformMove(T, pos, v, num, den) IN VAdd(pos[v], VRound(mv[1], mv[2]))
     ELSE pos[v]])

(***************************************************************************)
(* Cotangent weights on integer positions.  cot = dot / |cross|; the       *)
(* square root is taken in integers after scaling by a square, and values  *)
(* are in units of 1 / CU.                                                 *)
(***************************************************************************)
CU == 100000

RECURSIVE SqrtBits(_, _, _)
SqrtBits(n, r, bit) ==
  IF bit = 0 THEN r
  ELSE LET s == r + bit IN SqrtBits(n, IF s <= 46340 /\ s * s <= n THEN s ELSE r, bit \div 2)
ISqrt(n) == SqrtBits(n, 0, 32768)      \* n < 2^31, result < 46341

RECURSIVE ScaleUp(_, _)
ScaleUp(n, k) == IF n > 500000000 THEN <<n, k>> ELSE ScaleUp(n * 4, k * 2)

RECURSIVE Digits(_, _, _, _)
(* (q + rem / d) with k more decimal digits *)
Digits(q, rem, d, k) == IF k = 0 THEN q
                        ELSE Digits(10 * q + (10 * rem) \div d, (10 * rem) % d, d, k - 1)
(* a / d, d > 0, in units of 10^-k *)
FixDiv(a, d, k) == IF a < 0 THEN -Digits((-a) \div d, (-a) % d, d, k) ELSE Digits(a \div d, a % d, d, k)

(* cotangent at apex o of the triangle o, a, b; CotBad if it is too thin *)
CotBad == 99999999
Cot(o, a, b) ==
  LET u == VSub(a, o)
      w == VSub(b, o)
      n2 == Norm2(Cross(u, w))
      d == Dot(u, w)
  IN  IF n2 = 0 \/ Abs(d) > 10 * ISqrt(n2) THEN CotBad
      ELSE LET s == ScaleUp(n2, 1) IN FixDiv(d * s[2], ISqrt(s[1]), 5)

(* weights of the edges at interior vertex v, twice the cotangent weight   *)
CotWeight(T, pos, v, w) ==
  LET a == Cot(pos[Opp(T, v, w)], pos[v], pos[w])
      b == Cot(pos[Opp(T, w, v)], pos[v], pos[w])
  IN  IF a = CotBad \/ b = CotBad THEN CotBad ELSE a + b

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* q (in units of 1/1000 of the integer grid) is where v goes; only judged *)
(* if the triangles round v are not thin and the weights do not cancel     *)
(* (binding by \E over a one-element set makes TLC evaluate a value once)  *)
CotMoved(T, pos, v, num, den, q) ==
  \E N \in {Nbrs(T, v)} :
  \E w \in {TLCEval([x \in N |-> CotWeight(T, pos, v, x)])} :
  \E W \in {SumOver(w, N)} :
  (\A x \in N : w[x] # CotBad) /\ W > CU \div 2 =>
      \A k \in 1..3 :
        \E D \in {SumOver([x \in N |-> w[x] * (pos[x][k] - pos[v][k])], N)} :
        \E err \in {SumOver([x \in N |-> (3 + Abs(w[x]) \div 20000) * Abs(pos[x][k] - pos[v][k])], N)} :
        \E cp \in {FixDiv(D, W, 3)} :           \* c - p
          LET slack == FixDiv(err, W, 3) + 2 + (2 * Abs(cp)) \div 10000
              lo == num * (cp - slack)
              hi == num * (cp + slack)
              got == den * (q[k] - 1000 * pos[v][k])
          IN  got >= Min2(lo, hi) - 2 * den /\ got <= Max2(lo, hi) + 2 * den
=============================================================================
