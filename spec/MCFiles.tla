------------------------------- MODULE MCFiles -------------------------------
(* Every small surface, written in every order of vertices and of triangles  *)
(* and read back.                                                            *)
EXTENDS Files, TLC
CONSTANTS MaxT, MaxV, Writer    \* Writer: "right", or one that goes wrong

VARIABLES c, pos, tri
vars == <<c, pos, tri>>

Seqs(S) == {f \in [1..Cardinality(S) -> S] : \A x \in S : \E k \in DOMAIN f : f[k] = x}
Init == c = <<>> /\ pos = <<>> /\ tri = <<>>

AddTriangle ==
  /\ pos = <<>> /\ NTri(c) < MaxT
  /\ LET n == NumVerts(c)
     IN  \E x \in 0..n, y \in 0..(n + 1), z \in 0..(n + 2) :
           /\ x < MaxV /\ y < MaxV /\ z < MaxV /\ x # y /\ y # z /\ z # x
           /\ y <= (IF x = n THEN n + 1 ELSE n)
           /\ z <= (LET top == IF x = n THEN n + 1 ELSE n
                    IN  IF y = top THEN top + 1 ELSE top)
           /\ c' = c \o <<x, y, z>>
  /\ UNCHANGED <<pos, tri>>
(* a mesh: positions are named 10, 11, ..., vertices numbered in any way *)
Take ==
  /\ pos = <<>> /\ c # <<>>
  /\ \E T \in Results(c) :
       /\ \E p \in Seqs({10 + v : v \in Verts(T)}), s \in Seqs(T) :
            /\ pos' = p
            /\ tri' = LET at == [q \in {p[k] : k \in DOMAIN p} |-> CHOOSE k \in DOMAIN p : p[k] = q] IN
                      [k \in DOMAIN s |-> <<at[10 + s[k][1]] - 1, at[10 + s[k][2]] - 1, at[10 + s[k][3]] - 1>>]
  /\ UNCHANGED c
Next == AddTriangle \/ Take
Spec == Init /\ [][Next]_vars

Turn(t) == CASE Writer = "mirror" -> <<t[1], t[3], t[2]>> [] OTHER -> <<t[2], t[3], t[1]>>
Written ==
  LET T == {Canon3(tri[k]) : k \in DOMAIN tri}
      h == IF Writer = "holes" THEN {l \in HoleLoops(T) : Len(l) = 3} ELSE {}
      s == CHOOSE q \in Seqs(h) : TRUE
  IN  [v |-> pos, f |-> [k \in DOMAIN tri |-> Turn(tri[k])] \o (IF h = {} THEN <<>> ELSE s)]

RoundTrip ==
  pos # <<>> =>
    /\ Holds(pos, tri, Written)
    /\ Loaded(Written) # {}
    /\ \A r \in Loaded(Written) :
         SameSurface(pos, tri, r.pos, LET s == CHOOSE q \in Seqs(r.tri) : TRUE IN s)
=============================================================================
