------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Building a mesh from a position array and a triangle list.              *)
(*                                                                         *)
(* The input is a sequence c of corners, three per triangle; a corner is   *)
(* given as the position token of the entry it names, equal tokens meaning *)
(* equal positions.  Only the order of first appearance and equality       *)
(* matter, so the outcome is a function of c alone.                        *)
(***************************************************************************)
EXTENDS Surface

NTri(c) == Len(c) \div 3
Corner(c, t, k) == c[3 * (t - 1) + k]

(* Vertices are numbered 0, 1, ... by first appearance in the list. *)
FirstAt(c, k) == CHOOSE j \in 1..k : c[j] = c[k] /\ \A i \in 1..(j - 1) : c[i] # c[k]
Firsts(c) == {k \in 1..Len(c) : \A i \in 1..(k - 1) : c[i] # c[k]}
NumVerts(c) == Cardinality(Firsts(c))
VertexOf(c) ==   \* position in c -> vertex number
  LET F == Firsts(c)
  IN  [k \in 1..Len(c) |-> LET f == FirstAt(c, k) IN Cardinality({g \in F : g < f})]
(* position in c of the entry that vertex number v stands for *)
EntryOf(c) ==
  LET F == Firsts(c)
  IN  [v \in 0..(Cardinality(F) - 1) |-> CHOOSE f \in F : Cardinality({g \in F : g < f}) = v]

Listed(c) ==
  LET n == VertexOf(c)
  IN  [t \in 1..NTri(c) |-> <<n[3 * t - 2], n[3 * t - 1], n[3 * t]>>]

Degenerate(t) == t[1] = t[2] \/ t[2] = t[3] \/ t[3] = t[1]

(* Two orders in which the remaining triangles may be looked at: the list's *)
(* own order, or with each dropped entry replaced by the last one.          *)
Kept(l) == SelectSeq(l, LAMBDA t : ~Degenerate(t))
RECURSIVE SwapLast(_, _)
SwapLast(l, k) ==
  IF k > Len(l) THEN l
  ELSE IF ~Degenerate(l[k]) THEN SwapLast(l, k + 1)
  ELSE SwapLast(SubSeq([l EXCEPT ![k] = l[Len(l)]], 1, Len(l) - 1), k)

RECURSIVE Accumulate(_, _, _)
(* triangles in order; one that repeats a used directed edge is skipped *)
Accumulate(l, k, T) ==
  IF k > Len(l) THEN T
  ELSE LET t == CanonT(l[k])
       IN  Accumulate(l, k + 1, IF EdgesOf(t) \cap DirEdges(T) = {} THEN T \cup {t} ELSE T)

Orders(c) == LET l == Listed(c) IN {Kept(l), SwapLast(l, 1)}
Candidates(c) == {Accumulate(o, 1, {}) : o \in Orders(c)}

(* a set of triangles that can be given as a mesh on vertices 0..n-1 *)
Buildable(T, n) == IsSurface(T) /\ Verts(T) = 0..(n - 1)

Results(c) == {T \in Candidates(c) : Buildable(T, NumVerts(c))}
MayFail(c) == \E T \in Candidates(c) : ~Buildable(T, NumVerts(c))
=============================================================================
