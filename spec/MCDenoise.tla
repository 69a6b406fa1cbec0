----------------------------- MODULE MCDenoise -----------------------------
(***************************************************************************)
(* The weight of normal filtering over all distances: it falls with the    *)
(* distance and has no jumps; a kernel twice as narrow inside the same     *)
(* cut-off has one and is refuted.  A vertex in the plane of all its       *)
(* triangles stays, whatever their weights.                                *)
(***************************************************************************)
EXTENDS Denoise
CONSTANTS Step, Rule
VARIABLE x
K(y) == IF Rule = "narrow" /\ y < 20000 THEN 1000 * ExpNeg(Mul(y, y)) ELSE Kernel(y)
Init == x = 0
Next == x < 45000 /\ x' = x + Step
Spec == Init /\ [][Next]_x
Falls == K(x + Step) <= K(x) + 2000
NoJump == Abs(K(x + Step) - K(x)) <= 70 * Step * 10 + 5000
One == K(0) = 10000000 /\ K(40000) = 0

(* a flat fan: normals along one axis, centroids in the plane *)
Fan == <<<<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 2>>>>
Flat == LET P == <<<<x \div 9, 50, 700>>, <<9000, 0, 700>>, <<0, 8000, 700>>, <<-9000, -8000, 700>>>>
            n == <<<<0, 0, 10000>>, <<0, 0, 10000>>, <<0, 0, 10000>>>>
        IN  Target(P, Fan, 1, {1, 2, 3}, n, <<50000 + x, 70000, 1000 + 3 * x>>)[1] = P[1]
=============================================================================
