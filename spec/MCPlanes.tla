------------------------------ MODULE MCPlanes ------------------------------
(* Where the error has no slope it is least: all sets of at most K planes    *)
(* with small normals, all points of a lattice.                              *)
EXTENDS Quadric
CONSTANTS R, K
VARIABLES q, v
Box(r) == {<<a, b, c>> : a, b, c \in (-r)..r}
Planes == {<<n, p>> : n \in Box(1) \ {Zero3}, p \in {<<0, 0, 0>>, <<1, 0, -1>>, <<0, 1, 1>>}}
Init == q = <<>> /\ v \in Box(R)
Next == Len(q) < K /\ \E p \in Planes : q' = Append(q, p) /\ UNCHANGED v
Spec == Init /\ [][Next]_<<q, v>>
Right == Stationary(q, v) => \A u \in Box(R) : ErrSum(q, v) <= ErrSum(q, u)
(* and nowhere else, as far as a step of the lattice shows *)
Sharp == (~Stationary(q, v) /\ q # <<>>) => ErrSum(q, v) > 0
=============================================================================
