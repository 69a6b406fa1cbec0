---------------------------- MODULE TraceFilters ----------------------------
(* Acceptor for runs of the filters and of the read-only operations.         *)
(*   par     one filter on one mesh under many schedules and on equal meshes *)
(*           elsewhere in memory; runs[k] names the bit pattern of the       *)
(*           positions, 0 being the one of the first run (sequential).       *)
(*           foot lists, for the stretches between barriers, which cells     *)
(*           touched by several threads each of them read and wrote.         *)
(*   keep    one call, with everything observable of the mesh before and     *)
(*           after it.                                                       *)
(*   end     how the process of one history ended                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES i
vars == << i >>

Set(s) == { s[k] : k \in DOMAIN s }

\* ---------------------------------------------------------------- par
Apart(f, t, u) == /\ Set(f.w[t]) \cap Set(f.w[u]) = {}
                  /\ Set(f.w[t]) \cap Set(f.r[u]) = {}
                  /\ Set(f.r[t]) \cap Set(f.w[u]) = {}
Independent(f) == \A t, u \in DOMAIN f.w : t # u => Apart(f, t, u)

\* Independent stretches need no exploring (ParFor!Safe); where memory is
\* shared, switches must have been tried, and in any case all runs agree.
ParOk(e) == /\ \A k \in DOMAIN e.runs : e.runs[k] = 0
            /\ (e.shared = 0 => \A k \in DOMAIN e.foot : Independent(e.foot[k]))

\* --------------------------------------------------------------- keep
(* s: every pointer, index, lock, hole and count of the mesh; ind: the list  *)
(* of corners; pos, listed: names of the positions' bit patterns; ans: names *)
(* of the answers of a call and of its repetition.  Filters move vertices    *)
(* only; everything else changes nothing at all and answers the same again.  *)
SameStructure(a, b) == a.s = b.s /\ a.ind = b.ind
KeepOk(e) == /\ SameStructure(e.a, e.b)
             /\ (e.kind = "read" => e.a.pos = e.b.pos /\ e.a.listed = e.b.listed)
             /\ (e.kind = "read" => e.ans[1] = e.ans[2])

\* -----------------------------------------------------------------
Judge(e) == CASE e.op = "par"  -> (Focus = "C15" => ParOk(e))
              [] e.op = "keep" -> (Focus = "C16" => KeepOk(e))
              [] e.op = "end"  -> (e.res \in { "crash", "hang" } => Focus # e.blame)
              [] OTHER -> FALSE

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ \E e \in { Trace[i] } : Judge(e)
Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
