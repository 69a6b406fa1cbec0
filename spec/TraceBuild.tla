---------------------------- MODULE TraceBuild ----------------------------
(***************************************************************************)
(* Accepts recorded builds of real meshes if each had an outcome that      *)
(* Build allows.  A build event carries the input (pt: position token of   *)
(* each entry, bt: its bit-pattern token, ix: triangle list) and the       *)
(* outcome (res, and if a mesh was returned its structure m, the           *)
(* bit-pattern token ob of each vertex and its own triangle list gi).      *)
(* A reuse event carries the same contents in a reused object (m, ps) and  *)
(* in a fresh one (fm, fps), after the same later edits on both.           *)
(***************************************************************************)
EXTENDS Build, HalfEdge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES i

Corners(e) == [k \in 1..Len(e.ix) |-> e.pt[e.ix[k]]]

(* the returned mesh is exactly surface T with its vertices *)
Faithful(e, c, T) ==
  /\ Structured(e.m)
  /\ BoundaryFlags(e.m)
  /\ Numbered(e.m)
  /\ Represents(e.m, T)
  /\ Answers(e.m)
  /\ e.m.nv = Cardinality(Verts(T)) /\ e.m.nh = NumHalfedges(T)
  /\ e.m.ne = NumEdges(T) /\ e.m.nf = NumFaces(T)
  /\ AbsLock(e.m) = {}
  /\ Len(e.ob) = NumVerts(c)
  /\ LET at == EntryOf(c) IN \A v \in 0..(NumVerts(c) - 1) : e.ob[v + 1] = e.bt[e.ix[at[v]]]
  /\ Len(e.gi) = 3 * Cardinality(T)
  /\ {Canon(e.gi[3 * k - 2], e.gi[3 * k - 1], e.gi[3 * k]) : k \in 1..(Len(e.gi) \div 3)} = T

BuildOK(e) ==
  LET c == Corners(e)
  IN  CASE Focus = "C01" -> IF e.res = "ok" THEN \/ Results(c) = {}
                                               \/ \E T \in Results(c) : Faithful(e, c, T)
                            ELSE MayFail(c)
        [] Focus = "C02" -> /\ e.res \in {"ok", "error"}
                            /\ e.res = "ok" => Results(c) # {}
                            /\ e.res = "error" => MayFail(c)
        [] OTHER -> TRUE

ReuseOK(e) == Focus = "C03" => (e.res = e.fres /\ e.m = e.fm /\ e.ps = e.fps /\ e.gi = e.fgi)

Init == i = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]
     IN  CASE e.op = "build" -> BuildOK(e)
           [] e.op = "reuse" -> ReuseOK(e)
           [] e.op = "end" -> Focus = "C03" => e.res = "ok"
           [] OTHER -> TRUE
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
