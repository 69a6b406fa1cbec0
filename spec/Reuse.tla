------------------------------- MODULE Reuse -------------------------------
(***************************************************************************)
(* One mesh object that is built and loaded again and again, with edits in *)
(* between.  The object keeps three things from call to call: its vertex   *)
(* list, the triangle list consumed by the build step, and the surface     *)
(* built last.  Gather reads new contents into the first two, Assemble     *)
(* turns them into the surface or reports an error, Edit changes the       *)
(* surface only.  Whatever came before, a completed Gather/Assemble gives  *)
(* what a fresh object gives for the same contents.                        *)
(***************************************************************************)
EXTENDS Build, TLC
CONSTANTS Clears      \* TRUE: Gather empties what is kept (the design); FALSE: it appends
CONSTANTS Len3        \* number of triangles in the contents considered

VARIABLES verts, idx, surf, phase, want
vars == <<verts, idx, surf, phase, want>>

Contents == {c \in [1..(3 * Len3) -> 0..3] : TRUE}
None == {<<-1, -1, -1>>}

Fresh(c) == IF MayFail(c) THEN None ELSE CHOOSE T \in Results(c) : TRUE

Init == verts = <<>> /\ idx = <<>> /\ surf = {} /\ phase = "idle" /\ want = {}

(* numbering by first appearance, continued from what is already there *)
Gather(c) ==
  /\ phase = "idle"
  /\ idx' = IF Clears THEN c ELSE idx \o c
  /\ verts' = IF Clears THEN c ELSE verts \o c
  /\ want' = Fresh(c)
  /\ phase' = "gathered"
  /\ UNCHANGED surf
Assemble ==
  /\ phase = "gathered"
  /\ surf' = Fresh(idx)
  /\ phase' = "built"
  /\ UNCHANGED <<verts, idx, want>>
Edit ==
  /\ phase = "built" /\ surf # None /\ surf # {}
  /\ \E S \in {surf \ {t} : t \in surf} : surf' = S
  /\ phase' = "idle"
  /\ UNCHANGED <<verts, idx, want>>
Rest == phase = "built" /\ phase' = "idle" /\ UNCHANGED <<verts, idx, surf, want>>

Next == (\E c \in Contents : Gather(c)) \/ Assemble \/ Edit \/ Rest
Spec == Init /\ [][Next]_vars
Bounded == Len(idx) <= 12

AsFresh == phase = "built" => surf = want
=============================================================================
