------------------------------ MODULE Flatten ------------------------------
(***************************************************************************)
(* L0 denoising of a closed surface.  Every edge a - b with the opposite   *)
(* corners o, u has two rows that are zero on flat surfaces: D, computed   *)
(* from the positions P after Taubin smoothing, and R = (1, -1, 1, -1) on  *)
(* (a, o, b, u).  With weights al and be, given in mean edge lengths, each *)
(* round keeps y = D x of an edge if it is large, |y|^2 be >= lam, and     *)
(* wants zero of the others; then all positions together solve             *)
(*    x + al R'R x + be D'(D x - kept) = p.                                *)
(* Rounds go on, be growing by the root of two and al halving, while be is *)
(* below a thousand.                                                       *)
(*                                                                         *)
(* Lengths in 10^-3 of the grid, weights in 10^-4, rows in 10^-5.          *)
(***************************************************************************)
EXTENDS Measure

MulC(c, x) == ((c \div 100) * x + ((c % 100) * x) \div 100) \div 1000     \* c in 10^-5
MulW(w, x) == ((w \div 10) * x + ((w % 10) * x) \div 10) \div 1000        \* w in 10^-4
V3(f(_, _), c, x) == <<f(c, x[1]), f(c, x[2]), f(c, x[3])>>
L1(x) == Abs(x[1]) + Abs(x[2]) + Abs(x[3])

RECURSIVE Down(_, _)
Down(c, k) == IF Abs(c[1]) <= 25000 /\ Abs(c[2]) <= 25000 /\ Abs(c[3]) <= 25000 THEN <<c, k>>
              ELSE Down(<<c[1] \div 2, c[2] \div 2, c[3] \div 2>>, 2 * k)
(* twice the area, in 16 * 10^-6 *)
AreaOf3(P, a, b, c) == LET d == Down(Cross(VSub(P[b], P[a]), VSub(P[c], P[a])), 1)
                       IN  (ISqrt(Norm2(d[1])) * d[2]) \div 16

Edges(T) == {e \in DirEdges(T) : e[1] < e[2]}
(* the four vertices of an edge and the row of D *)
Span(T, e) == <<e[1], Opp(T, e[1], e[2]), e[2], Opp(T, e[2], e[1])>>
Row(P, s) ==
  LET p1 == P[s[1]]
      p2 == P[s[2]]
      p3 == P[s[3]]
      p4 == P[s[4]]
      S2 == AreaOf3(P, s[1], s[2], s[3])
      S4 == AreaOf3(P, s[1], s[3], s[4])
      l2 == Norm2(VSub(p1, p3)) \div 8
      in2 == FixDiv(S2, S2 + S4, 5)
      in4 == 100000 - in2
      part(x) == FixDiv(x \div 8, l2, 5)
  IN  << MulC(in2, part(Dot(VSub(p4, p3), VSub(p3, p1)))) + MulC(in4, part(Dot(VSub(p1, p3), VSub(p3, p2)))),
         in4,
         MulC(in2, part(Dot(VSub(p3, p1), VSub(p1, p4)))) + MulC(in4, part(Dot(VSub(p2, p1), VSub(p1, p3)))),
         in2 >>
Modest(r) == \A k \in 1..4 : Abs(r[k]) <= 400000
(* rows vanish on constants, so only differences count *)
Apply(r, s, X) == VAdd(V3(MulC, r[2], VSub(X[s[2]], X[s[1]])),
                  VAdd(V3(MulC, r[3], VSub(X[s[3]], X[s[1]])), V3(MulC, r[4], VSub(X[s[4]], X[s[1]]))))
(* how well an entry of a row is known *)
RowOff(r) == 30 + (Abs(r[1]) + Abs(r[3])) \div 2000
ApplyOff(r, s, X) ==
  4 + MulC(RowOff(r), L1(VSub(X[s[2]], X[s[1]])) + L1(VSub(X[s[3]], X[s[1]])) + L1(VSub(X[s[4]], X[s[1]])))
Bend(s, X) == VSub(VAdd(X[s[1]], X[s[3]]), VAdd(X[s[2]], X[s[4]]))

(* the edges kept in a round with weight be; m: mean edge length, th: mean *)
(* angle between triangles in 10^-4; in units of (2 * 10^-3)^2             *)
Limit(m, th, be) == FixDiv(((m \div 10) * (m \div 10) * (th \div 100)) \div 50, be, 4) \div 4
KeptOK(y, lim, kept) ==
  LET n == Norm2(<<y[1] \div 2, y[2] \div 2, y[3] \div 2>>)
      t == lim \div 25 + 2000
  IN  IF kept THEN n >= lim - t ELSE n <= lim + t

(* number of rounds, be whole *)
RECURSIVE Rounds(_)
Rounds(b2) == IF b2 >= 1000000 THEN 0 ELSE 1 + Rounds(2 * b2)
=============================================================================
