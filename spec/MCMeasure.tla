------------------------------ MODULE MCMeasure ------------------------------
(* Identities of Measure on all tetrahedra of a small lattice: the shares of  *)
(* the corners of a triangle add up to it, square roots are accurate, the     *)
(* cotangent Laplacian is symmetric and annihilates nothing but constants on  *)
(* each row, and edge sums agree with degrees.                                *)
EXTENDS Measure
CONSTANT R
VARIABLES pos
P == (0..R) \X (0..R) \X (0..R)
T == {<<1, 2, 3>>, <<1, 4, 2>>, <<1, 3, 4>>, <<2, 4, 3>>}
Init == pos \in {<<a, b>> : a \in {<<0, 0, 0>>}, b \in {q \in P : q[1] >= q[2] /\ q[2] >= q[3]}}
Next == Len(pos) < 4 /\ \E c \in P : pos' = Append(pos, c)
Spec == Init /\ [][Next]_pos
Flat(t) == Norm2(Normal(pos, t)) = 0
Full == Len(pos) = 4 /\ \A t \in T : ~Flat(t)
Thin(t) == \E c \in 1..3 : Cot(pos[t[c]], pos[t[1 + (c % 3)]], pos[t[1 + ((c + 1) % 3)]]) = CotBad
SharesAdd == Full => \A t \in T : ~Thin(t) =>
   LET s == Share8(pos, t[1], t[2], t[3]) + Share8(pos, t[2], t[3], t[1]) + Share8(pos, t[3], t[1], t[2])
   IN  Abs(s - 4 * Area2(pos, t)) <= 60 * R * R + 20
Symmetric == Full => \A d \in DirEdges(T) : CotEntry2(T, pos, d[1], d[2]) = CotEntry2(T, pos, d[2], d[1])
Roots == \A n \in {Norm2(VSub(pos[k], pos[1])) : k \in DOMAIN pos} :
   LET r == SqrtFix(n) IN n <= 20000 => \* r^2 = n 10^10, compared in two parts
      LET a == r \div 100000  b == r % 100000
      IN  Abs((n - a * a) * 100000 - (2 * a * b) - (((b \div 100) * (b \div 100)) \div 10)) <= 2 * a + 400
Degrees == Full => SumOver([v \in Verts(T) |-> Degree(T, v)], Verts(T)) = Cardinality(DirEdges(T))
=============================================================================
