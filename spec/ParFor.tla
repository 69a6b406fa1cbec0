------------------------------- MODULE ParFor -------------------------------
(* A parallel loop over vertices, step by step.  Every thread works through  *)
(* its share of the iterations; an iteration reads the values it needs one   *)
(* by one and then writes one cell.  Threads interleave at single accesses.  *)
(* Phases are separated by a barrier.                                        *)
(*   Kind = "twophase": every new value goes to its own cell of a second     *)
(*      array, and a second loop copies it back.                             *)
(*   Kind = "inplace":  new values are written over the old ones.            *)
(*   Kind = "scratch":  the sum is gathered in one cell all threads share.   *)
(* Checked: whatever the number of threads and the interleaving, the values  *)
(* at the end are those of the sequential loop (Deterministic), and loops    *)
(* whose iterations do not touch what another one writes (Independent) are   *)
(* deterministic.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, MaxThreads, Kind, Ring

Iter == 0 .. N - 1
Nb(k) == IF Ring THEN << (k + N - 1) % N, (k + 1) % N >>
         ELSE [t \in 1 .. N - 1 |-> IF t - 1 < k THEN t - 1 ELSE t]
Start(k) == (k * k * 7 + 3) % 11

VARIABLES T, part, phase, pos, tmp, acc, th
vars == << T, part, phase, pos, tmp, acc, th >>

RECURSIVE SeqSum(_, _, _)
SeqSum(v, s, k) == IF k > Len(s) THEN 0 ELSE v[s[k]] + SeqSum(v, s, k + 1)
Gathered(v, k) == v[k] + 2 * SeqSum(v, Nb(k), 1)

Share(t, p) == SelectSeq([k \in 1 .. N |-> k - 1], LAMBDA k : p[k] = t)

Fresh(p, n) == [t \in 0 .. n - 1 |-> [todo |-> Share(t, p), at |-> 0, sum |-> 0]]

Init == /\ T \in 1 .. MaxThreads
        /\ part \in [Iter -> 0 .. T - 1]
        /\ phase = 1
        /\ pos = [k \in Iter |-> Start(k)]
        /\ tmp = [k \in Iter |-> 0]
        /\ acc = 0
        /\ th = Fresh(part, T)

\* one access of thread t
Read(t) ==
    LET me == th[t] IN
    /\ phase = 1 /\ me.todo # << >>
    /\ LET k == Head(me.todo)
           s == Nb(k) IN
       /\ me.at <= Len(s)
       /\ LET v == IF me.at = 0 THEN pos[k] ELSE 2 * pos[s[me.at]] IN
          IF Kind = "scratch"
          THEN /\ acc' = (IF me.at = 0 THEN v ELSE acc + v)
               /\ th' = [th EXCEPT ![t].at = @ + 1]
          ELSE /\ th' = [th EXCEPT ![t].at = @ + 1, ![t].sum = (IF me.at = 0 THEN v ELSE @ + v)]
               /\ UNCHANGED acc
    /\ UNCHANGED << T, part, phase, pos, tmp >>

Write(t) ==
    LET me == th[t] IN
    /\ phase = 1 /\ me.todo # << >>
    /\ LET k == Head(me.todo)
           v == IF Kind = "scratch" THEN acc ELSE me.sum IN
       /\ me.at = Len(Nb(k)) + 1
       /\ IF Kind = "inplace" THEN pos' = [pos EXCEPT ![k] = v] /\ UNCHANGED tmp
          ELSE tmp' = [tmp EXCEPT ![k] = v] /\ UNCHANGED pos
    /\ th' = [th EXCEPT ![t] = [todo |-> Tail(me.todo), at |-> 0, sum |-> 0]]
    /\ UNCHANGED << T, part, phase, acc >>

Barrier ==
    /\ phase = 1 /\ \A t \in DOMAIN th : th[t].todo = << >>
    /\ phase' = 2 /\ th' = Fresh(part, T)
    /\ UNCHANGED << T, part, pos, tmp, acc >>

Copy(t) ==
    /\ phase = 2 /\ th[t].todo # << >>
    /\ pos' = (IF Kind = "inplace" THEN pos ELSE [pos EXCEPT ![Head(th[t].todo)] = tmp[Head(th[t].todo)]])
    /\ th' = [th EXCEPT ![t].todo = Tail(@)]
    /\ UNCHANGED << T, part, phase, tmp, acc >>

Next == (\E t \in DOMAIN th : Read(t) \/ Write(t) \/ Copy(t)) \/ Barrier
Spec == Init /\ [][Next]_vars

AtEnd == phase = 2 /\ \A t \in DOMAIN th : th[t].todo = << >>

RECURSIVE InOrder(_, _)
InOrder(v, k) == IF k = N THEN v
                 ELSE InOrder([v EXCEPT ![k] = Gathered(v, k)], k + 1)
P0 == [k \in Iter |-> Start(k)]
Expected == IF Kind = "inplace" THEN InOrder(P0, 0) ELSE [k \in Iter |-> Gathered(P0, k)]

Deterministic == AtEnd => pos = Expected

(* What the iterations of the first loop touch: cells of pos (p), of the     *)
(* second array (t), the shared one (a).                                     *)
Foot(k) == [r |-> { << "p", k >> } \cup { << "p", Nb(k)[j] >> : j \in DOMAIN Nb(k) }
                  \cup (IF Kind = "scratch" THEN { << "a", 0 >> } ELSE {}),
            w |-> CASE Kind = "inplace" -> { << "p", k >> }
                    [] Kind = "scratch" -> { << "t", k >>, << "a", 0 >> }
                    [] OTHER -> { << "t", k >> }]

Apart(f, g) == /\ f.w \cap g.w = {}
               /\ f.w \cap g.r = {}
               /\ g.w \cap f.r = {}
Independent == \A j, k \in Iter : j # k => Apart(Foot(j), Foot(k))
Safe == Independent => Deterministic
=============================================================================
