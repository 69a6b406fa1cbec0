--------------------------- MODULE TraceCoherent ---------------------------
(***************************************************************************)
(* Accepts recorded context-coherent fillings (C31).                       *)
(***************************************************************************)
EXTENDS Coherent, HalfEdge, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

OK(e) ==
  CASE e.op = "coherent" ->
         \E T0 \in {AbsTri(e.a)} :
           (\A l \in HoleLoops(T0) : ChordFree(T0, l)) =>
             /\ Structured(e.m) /\ Numbered(e.m)
             /\ e.m.ok = 1
             /\ \A f \in FN(e.m) : e.m.fo[f] = 0
             /\ \A h \in HN(e.m) : e.m.hb[h] = 0
             /\ \A k \in 1..Len(e.kept) : e.kept[k] = 1      \* originals in place, bit by bit
             /\ e.finite = 1
             /\ \E T \in {AbsTri(e.m)} : Closes(T0, T) /\ AbsIds(e.m) = Verts(T)
    [] e.op = "end" -> e.res = "ok"

Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ OK(Trace[i + 1])
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
