----------------------------- MODULE TraceFiles -----------------------------
(* Acceptor for saving and loading.                                          *)
(*   save   a mesh (pos: names of its positions in single precision, tri:    *)
(*          triples of vertex numbers) and the file it wrote, parsed without *)
(*          the library; exact: all coordinates are single-precision         *)
(*          numbers; off: else, the largest distance of a written coordinate *)
(*          from the right one, counted in single-precision steps            *)
(*   load   the file just written, and the mesh it gave (names as above)     *)
(*   bad    a call that has to be reported: what, and how it ended           *)
(*   end    how the process of one history ended, and in which call          *)
EXTENDS Files, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES i, file, able   \* the file last written; whether it can be loaded
vars == <<i, file, able>>

SaveOk(e) == /\ IF e.exact = 1 THEN e.v = e.pos ELSE Len(e.v) = Len(e.pos) /\ e.off <= 1
             /\ Bag3(e.f) = Bag3(e.tri)
             /\ e.rest = 0       \* no other lines or elements
LoadOk(e) == able => SameSurface(file.v, file.f, e.pos, e.tri)

Judge(e) == CASE e.op = "save" -> SaveOk(e)
              [] e.op = "load" -> LoadOk(e)
              [] e.op = "bad"  -> e.res \in {"error", "exception"}
              [] e.op = "end"  -> \/ e.res = "ok"
                                  \/ e.call \notin {"save", "load"}
                                  \/ e.call = "load" /\ ~able
              [] OTHER -> FALSE

Init == i = 1 /\ file = <<>> /\ able = FALSE
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ \E e \in {Trace[i]} :
             /\ file' = (IF e.op = "save" THEN [v |-> e.v, f |-> e.f] ELSE file)
             /\ able' = (CASE e.op = "save" -> Distinct(e.v) /\ Simple(e.f)
                           [] e.op = "end" -> FALSE [] OTHER -> able)
             /\ Judge(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
