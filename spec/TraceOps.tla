----------------------------- MODULE TraceOps -----------------------------
(***************************************************************************)
(* Accepts a recorded history of calls on real meshes if every call did    *)
(* what MeshOps says.  The state is the mesh value read off the half-edge  *)
(* structure after the call; Focus names the property under judgement, and *)
(* events outside its scope only carry the state forward, so that one      *)
(* property's verdict does not depend on another's.                        *)
(***************************************************************************)
EXTENDS MeshOps, HalfEdge, Fill, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES i,     \* events consumed
          m      \* current mesh value with its structure, or NoMesh

NoMesh == [none |-> TRUE]
HasMesh == "tri" \in DOMAIN m

PosOf(e) == [v \in AbsIds(e.m) |->
               e.p[CHOOSE k \in 1..Len(e.m.vd) : e.m.vd[k] = v]]
MeshOf(e) == [tri |-> AbsTri(e.m), pos |-> PosOf(e), lock |-> AbsLock(e.m), raw |-> e.m]
Readable(e) == Structured(e.m)
Value(e) == [tri |-> AbsTri(e.m), pos |-> PosOf(e), lock |-> AbsLock(e.m)]
Now == [tri |-> m.tri, pos |-> m.pos, lock |-> m.lock]

(* A structure fit to judge the next call by: it represents a surface.     *)
Good(raw) == LET T == AbsTri(raw)
             IN  BoundaryFlags(raw) /\ Numbered(raw) /\ IsSurface(T) /\ Represents(raw, T)

(* the structure shows exactly mesh value w *)
Shows(e, w) == /\ Readable(e)
               /\ Represents(e.m, w.tri)
               /\ Value(e) = w
               /\ BoundaryFlags(e.m)

SplitStep(e) ==
  IF SplitOK(m.tri, e.a, e.b)
  THEN e.ret = 1 /\ e.nn = 1 /\ Shows(e, SplitMesh(Now, e.a, e.b, e.n))
  ELSE e.ret = 0 /\ Shows(e, Now)

FlipStep(e) ==
  IF FlipOK(m.tri, e.a, e.b)
  THEN e.ret = 1 /\ Shows(e, FlipMesh(Now, e.a, e.b))
  ELSE e.ret = 0 /\ Shows(e, Now)

(* mesh values a collapse of a -> b may lead to, with its answer *)
CollapseOutcomes(w, a, b) ==
  (IF MayCollapse(w.tri, w.pos, a, b) THEN {<<1, CollapseMesh(w, a, b)>>} ELSE {})
  \cup (IF MustCollapse(w.tri, w.pos, a, b) THEN {} ELSE {<<0, w>>})

CollapseStep(e) == \E o \in CollapseOutcomes(Now, e.a, e.b) : e.ret = o[1] /\ Shows(e, o[2])

(* first edge a -> b, then the edge left opposite: from c to what became of b *)
FaceOutcomes(w, a, b, c) ==
  UNION {LET b1 == IF o[1] = 1 THEN Keep(w.tri, a, b) ELSE b
         IN  {<<IF o[1] = 1 \/ q[1] = 1 THEN 1 ELSE 0, q[2]>> : q \in CollapseOutcomes(o[2], c, b1)} :
         o \in CollapseOutcomes(w, a, b)}
CollapseFaceStep(e) == \E o \in FaceOutcomes(Now, e.a, e.b, e.c) : e.ret = o[1] /\ Shows(e, o[2])

Edits == {"split", "flip", "collapse", "collapseFace"}

(* C08: a refusal leaves everything, down to the numbering; a success does not *)
RefusalStep(e) ==
  IF e.ret = 0 THEN e.m = m.raw /\ PosOf(e) = m.pos
  ELSE Readable(e) => AbsTri(e.m) # m.tri

TopologyStep(e) ==
  /\ Readable(e)
  /\ IsSurface(AbsTri(e.m))
  /\ Topology(AbsTri(e.m)) = Topology(m.tri)

(* C10: hole loops L are covered *)
FillStep(e, L) ==
  /\ Readable(e)
  /\ LET T == AbsTri(e.m)
         new == T \ m.tri
     IN  /\ m.tri \subseteq T
         /\ Represents(e.m, T)
         /\ IsSurface(T)
         /\ HoleLoops(T) = HoleLoops(m.tri) \ L
         /\ \A l \in L : LET S == {l[k] : k \in 1..Len(l)}
                         IN  Cardinality({t \in new : VertsOf(t) \subseteq S}) = Len(l) - 2
         /\ \A t \in new : \E l \in L : VertsOf(t) \subseteq {l[k] : k \in 1..Len(l)}
         /\ PosOf(e) = m.pos
         /\ AbsLock(e.m) = m.lock
         /\ BoundaryFlags(e.m)
         /\ Answers(e.m)

(* C12: hole l is closed by some triangles, perhaps on new vertices *)
FrontStep(e, l) ==
  /\ Readable(e)
  /\ e.finite = 1
  /\ LET T == AbsTri(e.m)
     IN  /\ m.tri \subseteq T
         /\ IsSurface(T)
         /\ Represents(e.m, T)
         /\ HoleLoops(T) = HoleLoops(m.tri) \ {l}
         /\ CompCount(T) = CompCount(m.tri)
         /\ Euler(T) = Euler(m.tri) + 1
         /\ \A v \in DOMAIN m.pos : v \in AbsIds(e.m) /\ PosOf(e)[v] = m.pos[v]
         /\ BoundaryFlags(e.m) /\ Numbered(e.m) /\ Answers(e.m)

(* The known finding of C12: if a mesh edge outside the hole joins two      *)
(* vertices of the loop, the front may close along that same edge once     *)
(* more.  Nothing else may be different then.                              *)
UsedBy(T, a, b) == {t \in T : <<a, b>> \in EdgesOf(t)}
ChordStep(e, l) ==
  /\ ~ChordFree(m.tri, l)
  /\ Readable(e)
  /\ e.finite = 1
  /\ LET T == AbsTri(e.m)
         on == {l[k] : k \in 1..Len(l)}
         twice == {d \in DirEdges(T) : Cardinality(UsedBy(T, d[1], d[2])) > 1}
     IN  /\ m.tri \subseteq T
         /\ twice # {}
         /\ \A d \in twice : d[1] \in on /\ d[2] \in on /\ Adjacent(m.tri, d[1], d[2])
         /\ AbsHoles(e.m) = HoleLoops(m.tri) \ {l}
         /\ \A v \in DOMAIN m.pos : v \in AbsIds(e.m) /\ PosOf(e)[v] = m.pos[v]
         /\ BoundaryFlags(e.m) /\ Numbered(e.m) /\ Answers(e.m)
         /\ PrintT("CASE known chord " \o ToString(l))

InScope(e) == CASE Focus = "C04" -> FALSE
                [] Focus = "C05" -> e.op = "split"
                [] Focus = "C06" -> e.op = "flip"
                [] Focus = "C07" -> e.op \in {"collapse", "collapseFace"}
                [] Focus = "C08" -> FALSE
                [] Focus = "C09" -> e.op \in Edits
                [] Focus = "C10" -> e.op \in {"fill", "fillall"}
                [] Focus = "C12" -> e.op = "front"

Judge(e) ==
  IF InScope(e) /\ ~Good(m.raw) THEN TRUE ELSE
  CASE Focus = "C04" -> WellFormed(e.m)
    [] Focus = "C05" -> e.op = "split" => SplitStep(e)
    [] Focus = "C06" -> e.op = "flip" => FlipStep(e)
    [] Focus = "C07" -> /\ e.op = "collapse" => CollapseStep(e)
                        /\ e.op = "collapseFace" => CollapseFaceStep(e)
    [] Focus = "C08" -> e.op \in Edits => RefusalStep(e)
    [] Focus = "C09" -> e.op \in Edits => TopologyStep(e)
    [] Focus = "C10" -> /\ e.op = "fill" => FillStep(e, {RotMin(e.loop)})
                        /\ e.op = "fillall" => FillStep(e, HoleLoops(m.tri))
    [] Focus = "C12" -> e.op = "front" => (FrontStep(e, RotMin(e.loop)) \/ ChordStep(e, RotMin(e.loop)))

(* which unfinished calls count against which property *)
Blame == CASE Focus = "C04" -> {""}
           [] Focus = "C05" -> {"split"}
           [] Focus = "C06" -> {"flip"}
           [] Focus = "C07" -> {"collapse", "collapseFace"}
           [] Focus = "C08" -> {}
           [] Focus = "C09" -> {"rebuild"}
           [] Focus = "C10" -> {"fill"}
           [] Focus = "C12" -> {"surefront"}

Init == i = 0 /\ m = NoMesh

Construct ==
  LET e == Trace[i + 1]
  IN  /\ i < Len(Trace)
      /\ e.op \in {"construct", "rebuild"}
      /\ m' = IF Readable(e) THEN MeshOf(e) ELSE NoMesh
      /\ i' = i + 1
      /\ Focus = "C04" => WellFormed(e.m)
      /\ Focus = "C09" /\ e.op = "rebuild" =>
           (Readable(e) /\ Topology(AbsTri(e.m)) = Topology(m.tri))

Call ==
  LET e == Trace[i + 1]
  IN  /\ i < Len(Trace)
      /\ e.op \in Edits \cup {"fill", "fillall", "front", "lock", "unlock", "move"}
      /\ HasMesh
      /\ m' = IF Readable(e) THEN MeshOf(e) ELSE NoMesh
      /\ i' = i + 1
      /\ Judge(e)        \* last: TLC caches LETs once the next state is known

(* after a history that ended in a broken structure, nothing is judged *)
Skip ==
  LET e == Trace[i + 1]
  IN  /\ i < Len(Trace)
      /\ e.op # "end" /\ e.op # "construct" /\ ~HasMesh
      /\ UNCHANGED m
      /\ i' = i + 1

End ==
  LET e == Trace[i + 1]
  IN  /\ i < Len(Trace)
      /\ e.op = "end"
      /\ e.res = "ok" \/ e.call \notin Blame
      /\ Focus = "C12" => ~(e.res = "crash" /\ e.call = "front")
      /\ m' = NoMesh
      /\ i' = i + 1

Next == Construct \/ Call \/ Skip \/ End
Spec == Init /\ [][Next]_<<i, m>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
