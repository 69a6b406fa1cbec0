----------------------------- MODULE HalfEdge -----------------------------
(***************************************************************************)
(* The half-edge structure that represents a surface, as observed through  *)
(* the public interface, when it is well formed, and which surface it      *)
(* represents.                                                             *)
(*                                                                         *)
(* A structure is a record of sequences (one entry per element, in list    *)
(* order; references are 1-based positions, 0 is null and -1 an element    *)
(* that is not in the mesh):                                               *)
(*   half-edges  hs source, hn next, hr opposite, hf face, hb boundary     *)
(*               flag, hi index, hp prev, hl lock test                     *)
(*   vertices    vh first half-edge, vi index, vl lock, vd identity,       *)
(*               vb boundary test, vg degree                               *)
(*   faces       fh first half-edge, fi index, fo hole test, fb boundary   *)
(*               test, fc number of corners, fl lock test                  *)
(*   counts nv nh nf ne, self-check ok, and the iterator walks iv*, if*.   *)
(***************************************************************************)
EXTENDS Surface

HN(m) == 1..Len(m.hs)
VN(m) == 1..Len(m.vh)
FN(m) == 1..Len(m.fh)

Dst(m, h) == m.hs[m.hn[h]]
Around(m, h) == m.hn[m.hr[h]]          \* next outgoing half-edge round the source

RECURSIVE OrbitV(_, _, _, _), OrbitF(_, _, _, _)
(* outgoing half-edges from h round its source; at most n steps *)
OrbitV(m, h, acc, n) ==
  LET g == Around(m, acc[Len(acc)])
  IN IF g = h \/ n = 0 THEN acc ELSE OrbitV(m, h, Append(acc, g), n - 1)
OrbitF(m, h, acc, n) ==
  LET g == m.hn[acc[Len(acc)]]
  IN IF g = h \/ n = 0 THEN acc ELSE OrbitF(m, h, Append(acc, g), n - 1)

RoundV(m, v) == OrbitV(m, m.vh[v], <<m.vh[v]>>, Len(m.hs))
RoundF(m, f) == OrbitF(m, m.fh[f], <<m.fh[f]>>, Len(m.hs))

(* (\E over a one-element set instead of LET makes TLC evaluate it once)   *)
(*--------------------------- well-formedness ----------------------------*)
RefsLive(m) ==
  /\ \A h \in HN(m) : /\ m.hs[h] \in VN(m)
                      /\ m.hn[h] \in HN(m)
                      /\ m.hr[h] \in HN(m)
                      /\ m.hf[h] \in FN(m)
  /\ \A v \in VN(m) : m.vh[v] \in HN(m)
  /\ \A f \in FN(m) : m.fh[f] \in HN(m)

Paired(m) ==
  \A h \in HN(m) : /\ m.hr[h] # h
                   /\ m.hr[m.hr[h]] = h
                   /\ m.hs[m.hr[h]] = Dst(m, h)
                   /\ m.hs[h] # Dst(m, h)

(* every half-edge is on exactly the cycle of its face and its source *)
FaceCycles(m) ==
  /\ \A h \in HN(m) : m.hf[m.hn[h]] = m.hf[h]
  /\ \A f \in FN(m) :
       \E r \in {RoundF(m, f)} :
           /\ {r[i] : i \in 1..Len(r)} = {h \in HN(m) : m.hf[h] = f}
           /\ m.fo[f] = 0 => Len(r) = 3
           /\ Len(r) >= 3

VertexCycles(m) ==
  \A v \in VN(m) :
    \E r \in {RoundV(m, v)} :
        {r[i] : i \in 1..Len(r)} = {h \in HN(m) : m.hs[h] = v}

HoleSide(m, h) == m.fo[m.hf[h]] = 1
BoundaryHE(m, h) == HoleSide(m, h) \/ HoleSide(m, m.hr[h])

(* holes are where the surface ends: never two holes beside one edge *)
BoundaryFlags(m) ==
  /\ \A h \in HN(m) : ~(HoleSide(m, h) /\ HoleSide(m, m.hr[h]))
  /\ \A h \in HN(m) : (m.hb[h] = 1) <=> BoundaryHE(m, h)

Numbered(m) ==
  /\ \A h \in HN(m) : m.hi[h] = h - 1
  /\ \A v \in VN(m) : m.vi[v] = v - 1
  /\ \A f \in FN(m) : m.fi[f] = f - 1
  /\ Cardinality({m.vd[v] : v \in VN(m)}) = Len(m.vd)

(* The pointers alone: enough to read off the surface. *)
Structured(m) == m.sane = 1 /\ RefsLive(m) /\ Paired(m) /\ FaceCycles(m) /\ VertexCycles(m)

(* What the mesh answers when asked. *)
Answers(m) ==
  /\ \A v \in VN(m) : /\ m.vg[v] = Len(RoundV(m, v))
                      /\ (m.vb[v] = 1) <=> (\E h \in HN(m) : m.hs[h] = v /\ BoundaryHE(m, h))
  /\ \A f \in FN(m) : /\ m.fc[f] = Len(RoundF(m, f))
                      /\ (m.fb[f] = 1) <=> (\E h \in HN(m) : m.hf[h] = f /\ BoundaryHE(m, h))
                      /\ (m.fl[f] = 1) <=> (\E h \in HN(m) : m.hf[h] = f /\ m.vl[m.hs[h]] = 1)
  /\ \A h \in HN(m) : /\ m.hn[m.hp[h]] = h
                      /\ (m.hl[h] = 1) <=> (m.vl[m.hs[h]] = 1 /\ m.vl[Dst(m, h)] = 1)
  /\ m.nv = Len(m.vh) /\ m.nh = Len(m.hs) /\ m.nf = Len(m.fh)
  /\ 2 * m.ne = Len(m.hs)
  /\ m.ok = 1

(* s goes once round the vertex, each step to the next in rotation *)
GoesRoundV(m, v, s) ==
  /\ Len(s) = Cardinality({h \in HN(m) : m.hs[h] = v})
  /\ \A i \in 1..Len(s) : /\ s[i] \in HN(m)
                          /\ m.hs[s[i]] = v
                          /\ Around(m, s[i]) = s[(i % Len(s)) + 1]
GoesRoundF(m, f, s) ==
  /\ Len(s) = Cardinality({h \in HN(m) : m.hf[h] = f})
  /\ \A i \in 1..Len(s) : /\ s[i] \in HN(m)
                          /\ m.hf[s[i]] = f
                          /\ m.hn[s[i]] = s[(i % Len(s)) + 1]
Map(s, f) == [i \in 1..Len(s) |-> f[s[i]]]

Iterators(m) ==
  "ivv" \in DOMAIN m =>
  LET dst == [h \in HN(m) |-> Dst(m, h)]
      far == [h \in HN(m) |-> m.hf[m.hr[h]]]
      rng(s) == {s[k] : k \in 1..Len(s)}
  IN
  /\ \A v \in VN(m) :
       /\ \A s \in rng(m.ivh[v]) : GoesRoundV(m, v, s)
       /\ \A s \in rng(m.ivv[v]) : \E h \in HN(m) :
            LET r == OrbitV(m, h, <<h>>, Len(m.hs)) IN m.hs[h] = v /\ s = Map(r, dst)
       /\ \A s \in rng(m.ivf[v]) : \E h \in HN(m) :
            LET r == OrbitV(m, h, <<h>>, Len(m.hs)) IN m.hs[h] = v /\ s = Map(r, m.hf)
  /\ \A f \in FN(m) :
       /\ \A s \in rng(m.ifh[f]) : GoesRoundF(m, f, s)
       /\ \A s \in rng(m.ifv[f]) : \E h \in HN(m) :
            m.hf[h] = f /\ s = Map(OrbitF(m, h, <<h>>, Len(m.hs)), m.hs)
       /\ \A s \in rng(m.iff[f]) : \E h \in HN(m) :
            m.hf[h] = f /\ s = Map(OrbitF(m, h, <<h>>, Len(m.hs)), far)

WellFormed(m) == Structured(m) /\ BoundaryFlags(m) /\ Numbered(m) /\ Answers(m) /\ Iterators(m)

(*-------------------------- abstraction function -------------------------*)
AbsTri(m) ==
  {LET h == m.fh[f]
       g == m.hn[h]
       k == m.hn[g]
   IN  Canon(m.vd[m.hs[h]], m.vd[m.hs[g]], m.vd[m.hs[k]]) : f \in {f \in FN(m) : m.fo[f] = 0}}

AbsHoles(m) ==
  {LET r == RoundF(m, f) IN RotMin([i \in 1..Len(r) |-> m.vd[m.hs[r[i]]]]) :
     f \in {f \in FN(m) : m.fo[f] = 1}}

AbsLock(m) == {m.vd[v] : v \in {v \in VN(m) : m.vl[v] = 1}}
AbsIds(m) == {m.vd[v] : v \in VN(m)}

(* The structure represents triangle set T: same triangles, each once, and *)
(* its hole faces are exactly T's boundary loops.                          *)
Represents(m, T) ==
  /\ IsSurface(T)
  /\ AbsTri(m) = T
  /\ Cardinality({f \in FN(m) : m.fo[f] = 0}) = Cardinality(T)
  /\ AbsHoles(m) = HoleLoops(T)
  /\ Cardinality({f \in FN(m) : m.fo[f] = 1}) = Cardinality(HoleLoops(T))
  /\ AbsIds(m) = Verts(T)
=============================================================================
