-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Vectors as sequences of numbers, and boxes as pairs of corners.  Every  *)
(* operation acts on each component alone.  Numbers are in units of 1/Q so *)
(* that halves are exact.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Q
VAbs(a) == IF a < 0 THEN -a ELSE a
VMin(a, b) == IF a < b THEN a ELSE b
VMax(a, b) == IF a > b THEN a ELSE b

Map2(x, y, f(_, _)) == [k \in DOMAIN x |-> f(x[k], y[k])]
Fill(n, s) == [k \in 1..n |-> s]

Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == (a * b) \div Q          \* exact when Q divides a * b
Over(a, b) == (a * Q) \div b           \* exact when b divides a * Q

Result(op, x, y, s) ==
  CASE op = "add" -> Map2(x, y, Plus)
    [] op = "sub" -> Map2(x, y, Minus)
    [] op = "mul" -> Map2(x, y, Times)
    [] op = "div" -> Map2(x, y, Over)
    [] op = "min" -> Map2(x, y, VMin)
    [] op = "max" -> Map2(x, y, VMax)
    [] op = "neg" -> [k \in DOMAIN x |-> -x[k]]
    [] op = "abs" -> [k \in DOMAIN x |-> VAbs(x[k])]
    [] op = "copy" -> x
    [] op = "subs" -> [k \in DOMAIN x |-> x[k] - s]
    [] op = "ssub" -> [k \in DOMAIN x |-> s - x[k]]
    [] op = "scale" -> [k \in DOMAIN x |-> Times(x[k], s)]
    [] op = "quot" -> [k \in DOMAIN x |-> Over(x[k], s)]
    [] op = "cross" -> <<Times(x[2], y[3]) - Times(x[3], y[2]), Times(x[3], y[1]) - Times(x[1], y[3]),
                         Times(x[1], y[2]) - Times(x[2], y[1])>>
    [] op = "fill" -> Fill(Len(x), s)

RECURSIVE DotUpTo(_, _, _)
DotUpTo(x, y, n) == IF n = 0 THEN 0 ELSE x[n] * y[n] + DotUpTo(x, y, n - 1)
DotQ(x, y) == DotUpTo(x, y, Len(x))    \* units of 1 / Q^2

(* some divisor is zero *)
Refused(op, y, s) == \/ op = "div" /\ \E k \in DOMAIN y : y[k] = 0
                     \/ op = "quot" /\ s = 0

(*--------------------------------- boxes ---------------------------------*)
Far == 1000000000
NoBox(n) == <<Fill(n, Far), Fill(n, -Far)>>
WithPoint(b, p) == <<Map2(b[1], p, VMin), Map2(b[2], p, VMax)>>
WithBox(b, c) == <<Map2(b[1], c[1], VMin), Map2(b[2], c[2], VMax)>>
Inside(b, p) == \A k \in DOMAIN p : b[1][k] <= p[k] /\ p[k] <= b[2][k]
Gap(b, p) == [k \in DOMAIN p |-> IF p[k] < b[1][k] THEN b[1][k] - p[k]
                                 ELSE IF b[2][k] < p[k] THEN p[k] - b[2][k] ELSE 0]
DistQ(b, p) == DotQ(Gap(b, p), Gap(b, p))     \* squared, 1 / Q^2
Extent(b) == Map2(b[2], b[1], Minus)
AreaQ(b) == LET d == Extent(b) IN 2 * (d[1] * d[2] + d[2] * d[3] + d[3] * d[1])
Widest(b) == LET d == Extent(b) IN {k \in DOMAIN d : \A l \in DOMAIN d : d[l] <= d[k]}
=============================================================================
