---------------------------- MODULE TraceObjects ----------------------------
(* Acceptor for programs that hold several meshes, clone, edit and destroy.  *)
(* seen[k] names the complete observable state of mesh h[k] after the call   *)
(* (structure, locks, positions bit for bit).                                *)
(*   begin  a first mesh                                                     *)
(*   call   something done to mesh m                                         *)
(*   cloning  m is about to be cloned; tm, pm as below                       *)
(*   clone  of m, the clone being n; tm, tn: their triangles, as triples of  *)
(*          names of positions; pm, pn: their vertices                       *)
(*   drop   m is destroyed                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES i, seen,   \* mesh -> name of its state
          able       \* a clone is being made of a mesh that can be cloned
vars == << i, seen, able >>

Now(e) == [x \in { e.h[k] : k \in DOMAIN e.h } |-> e.seen[CHOOSE k \in DOMAIN e.h : e.h[k] = x]]

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* a triangle up to where its corners start
Turned(t) == LET a == Least({ t[1], t[2], t[3] }) IN
             IF t[1] = a THEN t ELSE IF t[2] = a THEN << t[2], t[3], t[1] >> ELSE << t[3], t[1], t[2] >>
Tris(s) == { Turned(s[k]) : k \in DOMAIN s }
Set(s) == { s[k] : k \in DOMAIN s }
Distinct(s) == Cardinality(Set(s)) = Len(s)

\* no two edges between the same vertices: filling a hole whose border has a
\* chord can double an edge, and lists of triangles cannot tell the two apart
Simple(s) == Cardinality(UNION { { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> } : t \in Set(s) }) = 3 * Len(s)

SameMesh(e) == /\ Len(e.tm) = Len(e.tn) /\ Tris(e.tm) = Tris(e.tn)
               /\ Len(e.pm) = Len(e.pn) /\ Set(e.pm) = Set(e.pn)

Others(e, m) == \A x \in DOMAIN seen \ { m } : x \in DOMAIN Now(e) /\ Now(e)[x] = seen[x]

Judge(e) == CASE e.op = "begin" -> TRUE
              [] e.op = "call"  -> Others(e, e.m)
              [] e.op = "drop"  -> Others(e, e.m)
              [] e.op = "clone" -> Others(e, -1) /\ (Distinct(e.pm) /\ Simple(e.tm) => SameMesh(e))
              [] e.op = "cloning" -> TRUE
              [] e.op = "end"   -> /\ e.res = "crash" => e.blame # Focus
                                   /\ able => e.blame # Focus
              [] OTHER -> FALSE

Init == i = 1 /\ seen = << >> /\ able = FALSE
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ \E e \in { Trace[i] } :
             /\ seen' = (CASE e.op = "end" -> << >> [] e.op = "cloning" -> seen [] OTHER -> Now(e))
             /\ able' = (e.op = "cloning" /\ Distinct(e.pm) /\ Simple(e.tm))
             /\ Judge(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
