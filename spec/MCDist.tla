------------------------------- MODULE MCDist -------------------------------
(* The definition of Dist on all triangles of a small lattice: the answer    *)
(* is a point of the triangle at the stated distance, and none of the        *)
(* triangle's points with barycentric coordinates k/K is nearer.             *)
EXTENDS Dist, TLC
CONSTANTS R, K, Flat       \* coordinates 0..R, third coordinate 0..Flat
VARIABLES t, q
vars == <<t, q>>

P == (0..R) \X (0..R) \X (0..Flat)
NoQuery == <<>>
Init == t \in {<<a, a, a>> : a \in P} /\ q = NoQuery
Next == /\ q = NoQuery
        /\ \E b \in P, c \in P : t' = <<t[1], b, c>>
        /\ q' \in (0..R) \X (0..R) \X {0, R}
Spec == Init /\ [][Next]_vars

AtDistance(r) ==
  LET v == VSub(VScale(r.e, q), r.x)     \* e times the way from the point to q
  IN  r.e * r.n = (Norm2(v) * r.d) \div r.e /\ (Norm2(v) * r.d) % r.e = 0
(* K times a point of the triangle *)
Bary(i, j) == VAdd(VScale(i, t[1]), VAdd(VScale(j, t[2]), VScale(K - i - j, t[3])))
NoneNearer(r) == \A i \in 0..K : \A j \in 0..(K - i) :
                   ~FracLess(Norm2(VSub(VScale(K, q), Bary(i, j))), K * K, r.n, r.d)
InHull(r) == \A k \in 1..3 :
            LET lo == Min2(t[1][k], Min2(t[2][k], t[3][k]))
                hi == Max2(t[1][k], Max2(t[2][k], t[3][k]))
            IN  lo * r.e <= r.x[k] /\ r.x[k] <= hi * r.e
InPlane(r) == Dot(Cross(VSub(t[2], t[1]), VSub(t[3], t[1])), VSub(r.x, VScale(r.e, t[1]))) = 0
Turned(r) == \A s \in {Nearest(<<t[2], t[3], t[1]>>, q), Nearest(<<t[2], t[1], t[3]>>, q)} : s.n * r.d = r.n * s.d
Defined == q # NoQuery =>
  \A r \in {Nearest(t, q)} : AtDistance(r) /\ NoneNearer(r) /\ InHull(r) /\ InPlane(r) /\ Turned(r)
=============================================================================
