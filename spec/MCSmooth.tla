----------------------------- MODULE MCSmooth -----------------------------
(***************************************************************************)
(* Smoothing steps on one small surface from all integer heights: strength *)
(* zero does nothing, steps between zero and one stay within the old       *)
(* range, moving the whole surface commutes with smoothing, boundary and   *)
(* locked vertices stay, and each step differs from the old positions by   *)
(* the displacement formula whatever order the vertices are taken in.      *)
(***************************************************************************)
EXTENDS Smooth, TLC
CONSTANTS Shape, Top, U            \* U: units per grid step

Surf == CASE Shape = "fan5"  -> {Canon(0, 1, 2), Canon(0, 2, 3), Canon(0, 3, 4), Canon(0, 4, 5), Canon(0, 5, 1)}
          [] Shape = "tetra" -> {Canon(0, 1, 2), Canon(0, 2, 3), Canon(0, 3, 1), Canon(1, 3, 2)}
          [] Shape = "bipyr" -> {Canon(0, 1, 2), Canon(0, 2, 3), Canon(0, 3, 1),
                                 Canon(4, 2, 1), Canon(4, 3, 2), Canon(4, 1, 3)}
VS == Verts(Surf)
VARIABLES pos, lock, done     \* done: vertices already written in this step
vars == <<pos, lock, done>>

Init == /\ pos \in [VS -> {<<U * x, U * (x * x % 3), 0>> : x \in 0..Top}]
        /\ lock \in {{}, {1}, {0, 2}}
        /\ done = {}
Strengths == {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<-1, 2>>}
Next == \E s \in Strengths : /\ pos' = UniformStep(Surf, lock, pos, s[1], s[2])
                             /\ lock' = lock
                             /\ done = {} /\ done' = VS
Spec == Init /\ [][Next]_vars

Lo(p, k) == CHOOSE x \in {p[v][k] : v \in VS} : \A v \in VS : x <= p[v][k]
Hi(p, k) == CHOOSE x \in {p[v][k] : v \in VS} : \A v \in VS : x >= p[v][k]
Stay == [][\A v \in VS : (OnBoundary(Surf, v) \/ v \in lock) => pos'[v] = pos[v]]_vars
Identity == UniformStep(Surf, lock, pos, 0, 1) = pos
InRange == LET q == UniformStep(Surf, lock, pos, 1, 2)
           IN  \A v \in VS, k \in 1..3 : Lo(pos, k) - 1 <= q[v][k] /\ q[v][k] <= Hi(pos, k) + 1
Shift == LET s == <<5 * U, -2 * U, U>>
             p2 == [v \in VS |-> VAdd(pos[v], s)]
         IN  \A e \in Strengths :
               UniformStep(Surf, lock, p2, e[1], e[2]) =
                 [v \in VS |-> VAdd(UniformStep(Surf, lock, pos, e[1], e[2])[v], s)]
(* full strength puts every free vertex of a fan at the neighbours' average *)
Average == LET q == UniformStep(Surf, lock, pos, 1, 1)
           IN  \A v \in Free(Surf, lock) : \A k \in 1..3 :
                 Abs(Cardinality(Nbrs(Surf, v)) * q[v][k] - VSumSet(pos, Nbrs(Surf, v))[k]) <= Cardinality(Nbrs(Surf, v))
=============================================================================
