------------------------------ MODULE MCCalls ------------------------------
(***************************************************************************)
(* How a call gets its report to the caller.  A call looks at its items,   *)
(* shared out among threads when the loop is parallel, and may meet an     *)
(* improper one; it also changes the object it was given.  A report raised *)
(* inside a parallel loop has no caller to go to and takes the whole       *)
(* process down; one raised after the object was changed leaves it half    *)
(* done.  Looking first (Where = "before") gives neither; the two other    *)
(* designs are refuted.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Items, Threads, Where    \* "before", "inside", "late"

VARIABLES bad, phase, todo, at, object, seen
vars == <<bad, phase, todo, at, object, seen>>
T == 1..Threads

Init ==
  /\ bad \in SUBSET (1..Items)
  /\ phase = "check" /\ todo = 1..Items /\ at = [t \in T |-> 0]
  /\ object = "as given" /\ seen = "none"

(* one look at everything, by the calling thread *)
Check ==
  /\ phase = "check"
  /\ phase' = IF Where = "before" /\ bad # {} THEN "over" ELSE "work"
  /\ seen' = IF Where = "before" /\ bad # {} THEN "reported" ELSE seen
  /\ UNCHANGED <<bad, todo, at, object>>

(* what is done to the object before the loop *)
Begin ==
  /\ phase = "work"
  /\ object' = "changed"
  /\ phase' = IF Where = "late" /\ bad # {} THEN "over" ELSE "loop"
  /\ seen' = IF Where = "late" /\ bad # {} THEN "reported" ELSE seen
  /\ UNCHANGED <<bad, todo, at>>

Take(t) ==
  /\ phase = "loop" /\ at[t] = 0
  /\ \E i \in todo : at' = [at EXCEPT ![t] = i] /\ todo' = todo \ {i}
  /\ UNCHANGED <<bad, phase, object, seen>>

Finish(t) ==
  /\ phase = "loop" /\ at[t] # 0
  /\ IF Where = "inside" /\ at[t] \in bad
     THEN phase' = "over" /\ seen' = "killed" /\ UNCHANGED at
     ELSE at' = [at EXCEPT ![t] = 0] /\ UNCHANGED <<phase, seen>>
  /\ UNCHANGED <<bad, todo, object>>

End ==
  /\ phase = "loop" /\ todo = {} /\ \A t \in T : at[t] = 0
  /\ phase' = "over" /\ seen' = "done"
  /\ UNCHANGED <<bad, todo, at, object>>

Next == Check \/ Begin \/ (\E t \in T : Take(t) \/ Finish(t)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Alive == seen # "killed"
Whole == seen = "reported" => object = "as given"
Right == phase = "over" => (seen = "reported") = (bad # {}) \/ seen = "killed"
Answered == <>(phase = "over")
=============================================================================
