-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Saving and loading.  A file is a list of positions and a list of index  *)
(* triples; loading looks the positions up and builds as from arrays.      *)
(***************************************************************************)
EXTENDS Build

Canon3(t) == CanonT(t)
Bag3(s) == [t \in {Canon3(s[k]) : k \in DOMAIN s} |-> Cardinality({k \in DOMAIN s : Canon3(s[k]) = t})]

(* pos: vertex number + 1 -> position; tri: triples of vertex numbers *)
OnPositions(pos, tri) == [k \in DOMAIN tri |-> <<pos[tri[k][1] + 1], pos[tri[k][2] + 1], pos[tri[k][3] + 1]>>]

(* what a file must hold: the vertices in order, the triangles in any order *)
(* and starting at any corner, nothing else                                 *)
Holds(pos, tri, file) == file.v = pos /\ Bag3(file.f) = Bag3(tri)

(* what loading gives, as lists of corners *)
Flat(s) == [k \in 1..(3 * Len(s)) |-> s[(k + 2) \div 3][((k - 1) % 3) + 1]]
Loaded(file) ==
  LET c == Flat(OnPositions(file.v, file.f))
      e == EntryOf(c)
  IN  {[pos |-> [v \in 1..NumVerts(c) |-> c[e[v - 1]]], tri |-> T] : T \in Results(c)}

Distinct(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)
(* no two edges join the same vertices *)
Simple(tri) == Cardinality(UNION {EdgesOf(Canon3(tri[k])) : k \in DOMAIN tri}) = 3 * Len(tri)

(* the same triangles on the same positions *)
SameSurface(posA, triA, posB, triB) ==
  /\ Len(posA) = Len(posB) /\ {posA[k] : k \in DOMAIN posA} = {posB[k] : k \in DOMAIN posB}
  /\ Bag3(OnPositions(posA, triA)) = Bag3(OnPositions(posB, triB))
=============================================================================
