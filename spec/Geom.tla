------------------------------- MODULE Geom -------------------------------
(***************************************************************************)
(* Exact geometry on integer coordinates.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2],
                 a[3] * b[1] - a[1] * b[3],
                 a[1] * b[2] - a[2] * b[1]>>
Zero3 == <<0, 0, 0>>
Norm2(a) == Dot(a, a)
MidPoint(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2>>

RECURSIVE VSumSet(_, _)
(* sum of f[x] over x \in S, f a function to vectors *)
VSumSet(f, S) == IF S = {} THEN Zero3
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN  VAdd(f[x], VSumSet(f, S \ {x}))
=============================================================================
