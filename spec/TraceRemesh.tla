----------------------------- MODULE TraceRemesh -----------------------------
(* Acceptor for recorded runs of remeshing and simplification.               *)
(*   start   structure m before the call; lock: locked vertices; cs: for the *)
(*           inner edges << a, b, cosine of the angle between the triangles  *)
(*           >>; cosk: cosine of the angle given (both in millionths);       *)
(*           short, long: the factors in millionths; pos: names of positions *)
(*   split, collapse, flip   successful edits made by the call: edge a -> b, *)
(*           c and d beside it, n the new vertex, nt triangles before it;    *)
(*           len: its length in millionths of the mean at the start; far:    *)
(*           largest distance (same unit) of a neighbour of b from a         *)
(*   final   structure and positions after the call                          *)
(*   end     how the process ended                                           *)
EXTENDS Remesh, HalfEdge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES i,
          T,      \* the surface as the edits make it
          s,      \* the start event, or << >>
          kept,   \* vertices that must be kept: locked, or on a sharp edge
          lost    \* an edit was met that does not fit T: others were made unseen
vars == <<i, T, s, kept, lost>>

Tol == 5
Set(q) == {q[k] : k \in DOMAIN q}
Sharp(e) == UNION {{x[1], x[2]} : x \in {y \in Set(e.cs) : y[3] > e.cosk + Tol}}
PosOf(e) == [v \in AbsIds(e.m) |-> e.pos[CHOOSE k \in 1..Len(e.m.vd) : e.m.vd[k] = v]]

Fits(e) == /\ Cardinality(T) = e.nt
           /\ HasEdge(T, e.a, e.b) /\ HasEdge(T, e.b, e.a)
           /\ Opp(T, e.a, e.b) = e.c /\ Opp(T, e.b, e.a) = e.d

Legal(e) == CASE e.op = "split" -> SplitOK(T, e.a, e.b)
              [] e.op = "flip" -> FlipOK(T, e.a, e.b)
              [] e.op = "collapse" -> CollapseTopoOK(T, e.a, e.b)
After(e) == CASE e.op = "split" -> SplitTri(T, e.a, e.b, e.n)
              [] e.op = "flip" -> FlipTri(T, e.a, e.b)
              [] e.op = "collapse" -> CollapseTri(T, e.a, e.b)

Ruled(e) == CASE e.op = "split" -> e.len >= s.long - Tol
              [] e.op = "collapse" -> e.len <= s.short + Tol /\ e.far <= s.long + Tol
              [] e.op = "flip" -> Lowers(T, e.a, e.b)

EditOk(e) == CASE s.call = "simplify" -> TRUE
               [] Focus = "C14" -> e.op \in {"collapse", "flip"} => LockFree(T, kept, e.a, e.b)
               [] Focus = "C17" -> Legal(e)
               [] Focus = "C18" -> Ruled(e)
               [] OTHER -> TRUE

KeptInPlace(e, K) == \A v \in K : v \in AbsIds(e.m) /\ PosOf(e)[v] = PosOf(s)[v]

RemeshOk(e) == CASE Focus = "C14" -> KeptInPlace(e, kept)
                 [] Focus = "C17" -> /\ WellFormed(e.m)
                                     /\ KeepsSurface(AbsTri(s.m), AbsTri(e.m))
                                     /\ ~lost => AbsTri(e.m) = T
                 [] OTHER -> TRUE
Unchanged(e) == e.m = s.m /\ e.pos = s.pos
SimplifyOk(e) ==
  Focus = "C19" =>
    /\ StopsAt(s.m.nf, s.target, e.m.nf)
    /\ s.m.nf <= s.target => Unchanged(e)
    /\ WellFormed(e.m)
    /\ KeepsSurface(AbsTri(s.m), AbsTri(e.m))
    /\ KeepsBoundary(AbsTri(s.m), AbsTri(e.m))
    /\ KeptInPlace(e, {v \in AbsIds(s.m) : OnBoundary(AbsTri(s.m), v)})
    /\ e.same = 1         \* as with the other setting of the verbose flag
    /\ e.m.nf > s.target => e.toward = 1      \* as with a lower target: not reached, it plays no part
FinalOk(e) == IF s.call = "remesh" THEN RemeshOk(e) ELSE SimplifyOk(e)

(* a call that does not come back *)
EndOk(e) == \/ e.res = "ok" \/ s = <<>>
            \/ Focus = "C17" /\ s.call # "remesh"
            \/ Focus = "C19" /\ s.call # "simplify"
            \/ Focus \notin {"C17", "C19"}

Init == i = 1 /\ T = {} /\ s = <<>> /\ kept = {} /\ lost = FALSE

Start == \E e \in {Trace[i]} :
  /\ e.op = "start"
  /\ s' = e /\ T' = AbsTri(e.m) /\ kept' = Set(e.lock) \cup Sharp(e) /\ lost' = FALSE
Edit == \E e \in {Trace[i]} :
  /\ e.op \in {"split", "flip", "collapse"}
  /\ lost' = (lost \/ ~Fits(e))
  /\ T' = (IF lost' \/ ~Legal(e) THEN T ELSE After(e))
  /\ UNCHANGED <<s, kept>>
  /\ lost' \/ EditOk(e)
Final == \E e \in {Trace[i]} :
  /\ e.op = "final" /\ UNCHANGED <<s, T, kept, lost>>
  /\ FinalOk(e)
End == \E e \in {Trace[i]} :
  /\ e.op = "end" /\ s' = <<>> /\ T' = {} /\ kept' = {} /\ lost' = FALSE
  /\ EndOk(e)

Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (Start \/ Edit \/ Final \/ End)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
