----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Accepts recorded calls of the real library, made in the plain build and *)
(* in the build that goes into the Python module, if each had an outcome   *)
(* that Calls allows.  res is what was seen: "ok", "error" or "exception"  *)
(* (reports), "crash" or "hang" (neither).  kept tells whether a mesh that *)
(* was refused by a filter still had its exact positions, anew whether an  *)
(* object whose building was refused took other contents like a fresh one; *)
(* both are only there when the caller survives the report.                *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i

Seen(e) ==
  CASE e.res = "ok" -> "done"
    [] e.res \in {"error", "exception"} -> "reported"
    [] OTHER -> "neither"

CallOK(e) ==
  /\ Seen(e) \in Outcomes(e)
  /\ (Seen(e) = "reported" /\ e.mode = "module") => (e.kept /\ e.anew)

Init == i = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]
     IN  CASE e.op = "call" -> CallOK(e)
           [] OTHER -> TRUE
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
