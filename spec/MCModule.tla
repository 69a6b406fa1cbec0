------------------------------ MODULE MCModule ------------------------------
(* Calls of one function, written in every way: arguments one after the other *)
(* by position or by name; then what the library gets.  And meshes with       *)
(* handles: a mesh goes away only when neither its name nor a handle is left. *)
EXTENDS Module, TLC

CONSTANTS F,        \* the function called
          Keep      \* "handle": a handle keeps its mesh; "name": only the name does

VARIABLES pos, kw, done, named, held, freed
vars == <<pos, kw, done, named, held, freed>>

\* for each parameter a value of its own, and one that equals the default
Own(k) ==
  LET p == Sig(F)[k] IN
  CASE p.t = "float" -> {<<"float", ToString(k) \o ".5", ToString(k) \o ".5", "True">>, <<"int", "7", "7.0", "True">>}
    [] p.t = "int" -> {<<"int", ToString(10 + k), ToString(10 + k) \o ".0", "True">>}
    [] p.t = "bool" -> {<<"bool", "True", "1.0", "True">>}
    [] OTHER -> {<<p.t, "x" \o ToString(k), "", "">>}
Some == UNION {Own(k) : k \in 1..Len(Sig(F))} \cup {<<"str", "text", "", "">>}

Init == pos = <<>> /\ kw = <<>> /\ done = FALSE /\ named = TRUE /\ held = 0 /\ freed = FALSE

Given == Len(pos) + Len(kw)
ByPos == ~done /\ kw = <<>> /\ Len(pos) <= Len(Sig(F)) /\ \E v \in Some : pos' = Append(pos, v)
         /\ UNCHANGED <<kw, done, named, held, freed>>
ByKey == ~done /\ Given <= Len(Sig(F))
         /\ \E k \in 1..Len(Sig(F)) : \E v \in Own(k) : kw' = Append(kw, <<Sig(F)[k].n, v>>)
         /\ UNCHANGED <<pos, done, named, held, freed>>
Call == ~done /\ Possible(Sig(F), pos, kw) /\ done' = TRUE /\ UNCHANGED <<pos, kw, named, held, freed>>

Gone(n, h) == ~n /\ (Keep = "name" \/ h = 0)
Take == done /\ named /\ held < 2 /\ held' = held + 1 /\ UNCHANGED <<pos, kw, done, named, freed>>
Release == done /\ held > 0 /\ held' = held - 1 /\ freed' = (freed \/ Gone(named, held - 1)) /\ UNCHANGED <<pos, kw, done, named>>
Drop == done /\ named /\ named' = FALSE /\ freed' = (freed \/ Gone(FALSE, held)) /\ UNCHANGED <<pos, kw, done, held>>
Next == ByPos \/ ByKey \/ Call \/ Take \/ Release \/ Drop
Spec == Init /\ [][Next]_vars

Full == Bind(Sig(F), pos, kw)
\* a call that can be made gives every parameter exactly one value: the one
\* written for it, or its default
Complete ==
  done => /\ Len(Full) = Len(Sig(F))
          /\ Given = Cardinality({k \in 1..Len(Sig(F)) : k <= Len(pos) \/ ByName(kw, Sig(F)[k].n) # {}})
          /\ \A k \in 1..Len(Sig(F)) :
                \/ \E v \in Own(k) \cup Some : Full[k] = Arrives(Sig(F)[k], v)
                \/ k > Len(pos) /\ Sig(F)[k].opt /\ ByName(kw, Sig(F)[k].n) = {} /\ Full[k] = Sig(F)[k].d
\* the order of names does not matter
Unordered ==
  done => \A i, j \in 1..Len(kw) :
            LET sw == [x \in 1..Len(kw) |-> IF x = i THEN kw[j] ELSE IF x = j THEN kw[i] ELSE kw[x]]
            IN  Possible(Sig(F), pos, sw) /\ Bind(Sig(F), pos, sw) = Full
\* giving the last argument by position by name instead makes no difference
Alike ==
  done /\ pos # <<>> =>
     LET n == Len(pos)
         k2 == <<<<Sig(F)[n].n, pos[n]>>>> \o kw
         p2 == SubSeq(pos, 1, n - 1)
     IN  Possible(Sig(F), p2, k2) /\ Bind(Sig(F), p2, k2) = Full
\* what is held can be used
Usable == freed => held = 0
Constraint == Given <= Len(Sig(F)) + 1
=============================================================================
