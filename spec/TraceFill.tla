----------------------------- MODULE TraceFill -----------------------------
(***************************************************************************)
(* Accepts recorded hole fillings if the triangulation made is one that    *)
(* the rule of Fill may lead to for the loop's tables.                     *)
(***************************************************************************)
EXTENDS Fill, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i

Range(s) == {s[k] : k \in 1..Len(s)}
DpOK(e) ==
  LET d == [bend |-> e.bend, area |-> e.area, bound |-> e.bound, epsB |-> 3, epsA |-> 2 * e.n]
      made == {<<t[1], t[2], t[3]>> : t \in Range(e.tris)}
  IN  Len(e.tris) = e.n - 2 /\ made \in Chosen(d, e.n)

Init == i = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i + 1]
           IN  CASE e.op = "dp" -> DpOK(e)
                 [] e.op = "end" -> e.res = "ok" \/ e.call # "fill"
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
