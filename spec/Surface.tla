------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* Oriented triangle surfaces.                                             *)
(*                                                                         *)
(* A surface is a finite set of triangles.  A triangle is a triple of      *)
(* vertex identities (integers) written with its smallest identity first,  *)
(* so that each oriented triangle has exactly one representation.  All     *)
(* notions the library offers for half-edge meshes (boundary, holes,       *)
(* degrees, neighbours, counts) are defined here from the set of triangles *)
(* alone; the half-edge representation is related to it in HalfEdge.tla.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Canon(a, b, c) ==
  IF a < b THEN IF a < c THEN <<a, b, c>> ELSE <<c, a, b>>
           ELSE IF b < c THEN <<b, c, a>> ELSE <<c, a, b>>

CanonT(t) == Canon(t[1], t[2], t[3])

VertsOf(t) == {t[1], t[2], t[3]}
EdgesOf(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}

Verts(T)    == UNION {VertsOf(t) : t \in T}
DirEdges(T) == UNION {EdgesOf(t) : t \in T}

Rev(e) == <<e[2], e[1]>>

(* No directed edge belongs to two triangles, no triangle repeats a corner. *)
EdgeManifold(T) == /\ \A t \in T : Cardinality(VertsOf(t)) = 3
                   /\ Cardinality(DirEdges(T)) = 3 * Cardinality(T)

Star(T, v) == {t \in T : v \in VertsOf(t)}

(* Rotate triangle t so that v comes first. *)
From(t, v) == IF t[1] = v THEN t
              ELSE IF t[2] = v THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>

Out(T, v) == {From(t, v)[2] : t \in Star(T, v)}   \* v -> b in some triangle
In(T, v)  == {From(t, v)[3] : t \in Star(T, v)}   \* c -> v in some triangle
Nbrs(T, v) == UNION {VertsOf(t) : t \in Star(T, v)} \ {v}
Degree(T, v) == Cardinality(Nbrs(T, v))
OnBoundary(T, v) == Out(T, v) # In(T, v)

HasEdge(T, a, b) == \E t \in T : <<a, b>> \in EdgesOf(t)
Adjacent(T, a, b) == HasEdge(T, a, b) \/ HasEdge(T, b, a)
InteriorEdge(T, a, b) == HasEdge(T, a, b) /\ HasEdge(T, b, a)

(* Third corner of the triangle left of the directed edge a -> b. *)
Opp(T, a, b) ==
  LET t == CHOOSE t \in T : <<a, b>> \in EdgesOf(t)
  IN  From(t, a)[3]

(* Edges seen from their surface side / from their hole side. *)
BoundaryEdges(T) == LET D == DirEdges(T) IN {e \in D : Rev(e) \notin D}
HoleEdges(T) == {Rev(e) : e \in BoundaryEdges(T)}

BoundaryTri(T, t) == \E e \in EdgesOf(t) : ~HasEdge(T, e[2], e[1])

(* The link of v as pairs <<b, c>> of consecutive neighbours, together with *)
(* the closing pair across the gap if v lies on the boundary.              *)
LinkPairs(T, v) == {<<From(t, v)[2], From(t, v)[3]>> : t \in Star(T, v)}
GapPairs(T, v) ==
  LET o == Out(T, v)  i == In(T, v)
  IN  {<<c, b>> : c \in i \ o, b \in o \ i}

RECURSIVE FanFrom(_, _, _)
(* the number of link pairs met when following the link from b *)
FanFrom(L, b, seen) ==
  LET nxt == {p \in L : p[1] = b} \ seen
  IN IF nxt = {} THEN Cardinality(seen)
     ELSE LET p == CHOOSE p \in nxt : TRUE IN FanFrom(L, p[2], seen \cup {p})

(* The triangles of v form one fan (open or closed). *)
SingleFan(T, v) ==
  LET L == LinkPairs(T, v)
      starts == {p[1] : p \in L} \ {p[2] : p \in L}
      b == IF starts = {} THEN (CHOOSE p \in L : TRUE)[1] ELSE CHOOSE s \in starts : TRUE
  IN  /\ Cardinality(starts) <= 1
      /\ FanFrom(L, b, {}) = Cardinality(L)

IsSurface(T) == EdgeManifold(T) /\ \A v \in Verts(T) : SingleFan(T, v)

(***************************************************************************)
(* Boundary loops.  A hole goes round along the hole-side directed edges;  *)
(* a loop is written starting with its smallest vertex.                    *)
(***************************************************************************)
RotMin(s) ==
  LET n == Len(s)
      k == CHOOSE i \in 1..n : \A j \in 1..n : s[i] <= s[j]
  IN  [j \in 1..n |-> s[((k + j - 2) % n) + 1]]

RECURSIVE LoopFrom(_, _, _)
LoopFrom(succ, a, acc) ==
  LET b == succ[a]
  IN IF b = acc[1] THEN acc ELSE LoopFrom(succ, b, Append(acc, b))

RECURSIVE LoopsOf(_, _)
LoopsOf(succ, left) ==
  IF left = {} THEN {}
  ELSE LET a == CHOOSE x \in left : \A y \in left : x <= y
           l == LoopFrom(succ, a, <<a>>)
       IN  {l} \cup LoopsOf(succ, left \ {l[i] : i \in 1..Len(l)})

(* meaningful for surfaces: each boundary vertex has one gap *)
HoleLoops(T) ==
  LET H == HoleEdges(T)
      D == {e[1] : e \in H}
      succ == [a \in D |-> (CHOOSE e \in H : e[1] = a)[2]]
  IN  LoopsOf(succ, D)

(***************************************************************************)
(* Topological invariants                                                  *)
(***************************************************************************)
NumEdges(T) == LET D == DirEdges(T)
                   B == {e \in D : Rev(e) \notin D}
               IN  (Cardinality(D) + Cardinality(B)) \div 2
Euler(T) == Cardinality(Verts(T)) - NumEdges(T) + Cardinality(T)

RECURSIVE Grow(_, _, _)
Grow(T, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == (UNION {VertsOf(t) : t \in {u \in T : VertsOf(u) \cap front # {}}}) \ seen
       IN  Grow(T, new, seen \cup new)

RECURSIVE CompCount(_)
CompCount(T) ==
  IF T = {} THEN 0
  ELSE LET v == (CHOOSE t \in T : TRUE)[1]
           c == Grow(T, {v}, {v})
       IN  1 + CompCount({t \in T : VertsOf(t) \cap c = {}})

(* multiset of loop lengths as a function length -> how many *)
LoopProfile(T) ==
  LET L == HoleLoops(T)
      lens == {Len(l) : l \in L}
  IN  [n \in lens |-> Cardinality({l \in L : Len(l) = n})]

Topology(T) == [euler |-> Euler(T), comps |-> CompCount(T), loops |-> LoopProfile(T)]

(* Counts a half-edge mesh of the surface must have. *)
NumHalfedges(T) == 2 * NumEdges(T)
NumFaces(T) == Cardinality(T) + Cardinality(HoleLoops(T))
=============================================================================
