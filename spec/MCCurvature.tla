----------------------------- MODULE MCCurvature -----------------------------
(* Every symmetric tensor with small integer entries, seen from frames turned *)
(* by rational angles.  The greater curvature found by one Jacobi rotation    *)
(* belongs to the direction reported with it (Rule = "own"; with "other" the  *)
(* two directions change places), and neither depends on the frame as long as *)
(* the frame lies in the tangent plane ("slanted": its first axis leaves it,  *)
(* so that its shadow is too short).  The exponential is checked against its  *)
(* functional equation.                                                       *)
EXTENDS Curvature, Smooth
CONSTANTS R, Rule
VARIABLES m, turn
M5 == {<<1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<5, 12, 13>>, <<0, 1, 1>>}
Init == m \in {<<a, b, d>> : a \in -R..R, b \in -R..R, d \in -R..R} /\ turn = <<1, 0, 1>>
Next == turn = <<1, 0, 1>> /\ turn' \in M5 /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, turn>>

Form(t, x, y) == x[1] * y[1] * t[1] + (x[1] * y[2] + x[2] * y[1]) * t[2] + x[2] * y[2] * t[3]
(* the tensor in the turned frame, times the square of its scale (and 25) *)
X1 == IF Rule = "slanted" THEN <<4 * turn[1], 4 * turn[2]>> ELSE <<5 * turn[1], 5 * turn[2]>>
X2 == <<-5 * turn[2], 5 * turn[1]>>
Turned == <<Form(m, X1, X1), Form(m, X1, X2), Form(m, X2, X2)>>
S == 25 * turn[3] * turn[3]

Disc(t) == (t[1] - t[3]) * (t[1] - t[3]) + 4 * t[2] * t[2]
SameCurvatures == LET t == Turned IN /\ t[1] + t[3] = S * (m[1] + m[3])
                                     /\ t[1] * t[3] - t[2] * t[2] = S * S * (m[1] * m[3] - m[2] * m[2])

(* one Jacobi rotation: tan of its angle, 10^-4 *)
Tan(t) == IF t[2] = 0 THEN 0
          ELSE LET g == IF t[2] > 0 THEN t[3] - t[1] ELSE t[1] - t[3]     \* sign of h
                   r == ISqrt(Disc(t))
               IN  IF g < 0 THEN -((20000 * Abs(t[2])) \div (r - g)) ELSE (20000 * Abs(t[2])) \div (r + g)
First(t)  == <<U, -Tan(t)>>          \* carries t[1] - Tan t[2]
Second(t) == <<Tan(t), U>>           \* carries t[3] + Tan t[2]
GreaterIsSecond(t) == U * t[3] + 2 * Tan(t) * t[2] > U * t[1]
Direction(t) == IF (Rule = "other") # GreaterIsSecond(t) THEN Second(t) ELSE First(t)
Quarter(x) == <<-x[2], x[1]>>
Scaled(t) == <<16 * t[1], 16 * t[2], 16 * t[3]>>
Value(t, x) == Form(t, <<x[1] \div 100, x[2] \div 100>>, <<x[1] \div 100, x[2] \div 100>>)
(* clear cases: the discriminant is not close to zero *)
OwnDirection == turn = <<1, 0, 1>> /\ Disc(m) > 0 =>
                  LET t == Scaled(m) IN Value(t, Direction(t)) > Value(t, Quarter(Direction(t)))
Exponential == \A x \in 0..3, y \in 0..3 :
   LET a == 3000 * x + 500 * Abs(m[1])  b == 2000 * y + 700 * Abs(m[2])
   IN  Abs(ExpNeg(a + b) - Mul(ExpNeg(a), ExpNeg(b))) <= 6
=============================================================================
