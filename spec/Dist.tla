-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Exact distances between points and triangles on integer coordinates.    *)
(*                                                                         *)
(* The nearest point of a triangle to a point is rational, and so is the   *)
(* squared distance.  An answer is [n, d, x, e]: the squared distance n/d  *)
(* and the point x/e.  A triangle may be a segment or a point.             *)
(***************************************************************************)
EXTENDS Geom

(*------------------------------ fractions --------------------------------*)
RECURSIVE FracLess(_, _, _, _)
(* a/b < c/d for a, c >= 0 and b, d > 0, without large products *)
FracLess(a, b, c, d) ==
  LET p == a \div b  q == c \div d
      r == a % b     s == c % d
  IN  IF p # q THEN p < q
      ELSE IF s = 0 THEN FALSE
      ELSE IF r = 0 THEN TRUE
      ELSE FracLess(d, s, b, r)

(* a/b in millionths, rounded down; b below two million *)
Micro(a, b) ==
  LET i == a \div b
      r == (a % b) * 1000
      s == (r % b) * 1000
  IN  i * 1000000 + (r \div b) * 1000 + s \div b

(*------------------------- point, segment, plane -------------------------*)
AtPoint(p, q) == [n |-> Norm2(VSub(p, q)), d |-> 1, x |-> p, e |-> 1]

AtSegment(a, b, q) ==
  LET u == VSub(b, a)
      w == VSub(q, a)
      l == Norm2(u)
      t == Dot(w, u)
  IN  IF t <= 0 THEN AtPoint(a, q)            \* also when a = b
      ELSE IF t >= l THEN AtPoint(b, q)
      ELSE [n |-> Norm2(w) * l - t * t, d |-> l, x |-> VAdd(VScale(l, a), VScale(t, u)), e |-> l]

Nearer(r, s) == FracLess(r.n, r.d, s.n, s.d)
Pick(r, s) == IF Nearer(s, r) THEN s ELSE r

(* the foot of q on the plane lies in the triangle *)
FootInside(a, b, c, q) ==
  LET n == Cross(VSub(b, a), VSub(c, a))
  IN  /\ n # Zero3
      /\ Dot(Cross(VSub(b, a), VSub(q, a)), n) >= 0
      /\ Dot(Cross(VSub(c, b), VSub(q, b)), n) >= 0
      /\ Dot(Cross(VSub(a, c), VSub(q, c)), n) >= 0

AtPlane(a, b, c, q) ==
  LET n == Cross(VSub(b, a), VSub(c, a))
      h == Dot(n, VSub(q, a))
      l == Norm2(n)
  IN  [n |-> h * h, d |-> l, x |-> VSub(VScale(l, q), VScale(h, n)), e |-> l]

Nearest(t, q) ==
  IF FootInside(t[1], t[2], t[3], q) THEN AtPlane(t[1], t[2], t[3], q)
  ELSE Pick(AtSegment(t[1], t[2], q), Pick(AtSegment(t[2], t[3], q), AtSegment(t[3], t[1], q)))

(*------------------------------ many triangles ---------------------------*)
RECURSIVE BestOf(_, _, _)
BestOf(ts, q, k) == IF k = 1 THEN Nearest(ts[1], q) ELSE Pick(BestOf(ts, q, k - 1), Nearest(ts[k], q))
Best(ts, q) == BestOf(ts, q, Len(ts))

(* all nearest points that are equally near *)
Nearests(ts, q) ==
  LET b == Best(ts, q)
  IN  {r \in {Nearest(ts[k], q) : k \in DOMAIN ts} : ~Nearer(b, r)}
=============================================================================
