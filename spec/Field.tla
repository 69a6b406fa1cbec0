------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Feature lines.  The largest curvature has a ridge or a valley between   *)
(* the ends of an edge if its derivative along its own direction changes   *)
(* sign there.  Triangles crossed by one kind of line only carry that      *)
(* kind; the vertices on the border of such strips are the feature         *)
(* vertices.  They point towards ridges and away from valleys, and the     *)
(* other vertices carry the harmonic extension of these directions.        *)
(***************************************************************************)
EXTENDS Fairing

Ridge == -1
Valley == 1
None == 0
Unclear == 9

(*--------------------------------- edges ---------------------------------*)
(* What is known at the two ends: signs s1, s2 of the derivatives, sign d  *)
(* of the product of the directions, signs x1, x2 of the direction towards *)
(* the other end, u1, u2 whether the curvatures are all but equal, m1, m2  *)
(* which of them is stronger.  Direction and derivative have an arbitrary  *)
(* common sign at each vertex.                                             *)
EdgeClass(r) ==
  IF r.u1 \/ r.u2 THEN None
  ELSE IF r.s1 * r.s2 * (IF r.d < 0 THEN -1 ELSE 1) >= 0 THEN None
  ELSE IF r.m1 > 0 /\ r.m2 > 0 /\ r.s1 * r.x1 > 0 /\ r.s2 * r.x2 > 0 THEN Ridge
  ELSE IF r.m1 < 0 /\ r.m2 < 0 /\ r.s1 * r.x1 < 0 /\ r.s2 * r.x2 < 0 THEN Valley
  ELSE None

(* the same edge seen from its other end *)
OtherEnd(r) == [s1 |-> r.s2, s2 |-> r.s1, d |-> r.d, x1 |-> r.x2, x2 |-> r.x1,
                u1 |-> r.u2, u2 |-> r.u1, m1 |-> r.m2, m2 |-> r.m1]
(* the other sign at the first end *)
Turned(r) == [r EXCEPT !.s1 = -@, !.x1 = -@, !.d = -@]

(*------------------------------- triangles -------------------------------*)
FaceClass(S) ==        \* S: classes of the three edges
  LET K == S \ {None, Unclear}
  IN  IF Cardinality(K) = 2 THEN None
      ELSE IF Unclear \in S THEN Unclear
      ELSE IF K = {} THEN None ELSE CHOOSE x \in K : TRUE

(* edges <<a, b>> of plain triangles with exactly one marked neighbour, that lies across <<a, b>> *)
Border(T, cls) ==
  UNION {{d \in EdgesOf(t) : LET g == Canon(d[2], d[1], Opp(T, d[2], d[1]))
                             IN  cls[g] \in {Ridge, Valley} /\
                                 \A c \in EdgesOf(t) \ {d} : cls[Canon(c[2], c[1], Opp(T, c[2], c[1]))] = None}
         : t \in {t \in T : cls[t] = None}}
KindAcross(T, cls, d) == cls[Canon(d[2], d[1], Opp(T, d[2], d[1]))]

(* vertices whose mark and direction follow from the clear triangles *)
Beside(T, t) == {Canon(d[2], d[1], Opp(T, d[2], d[1])) : d \in EdgesOf(t)}
Known(T, cls, v) == \A t \in Star(T, v) : cls[t] # Unclear /\ \A g \in Beside(T, t) : cls[g] # Unclear
Marked(B, v) == \E d \in B : v \in {d[1], d[2]}

(*-------------------------------- directions -----------------------------*)
Biggest(w) == Max2(Abs(w[1]), Max2(Abs(w[2]), Abs(w[3])))
RECURSIVE Fit(_)
Fit(w) == IF Biggest(w) > 20000 THEN Fit([k \in 1..3 |-> w[k] \div 2])
          ELSE IF Biggest(w) < 10000 THEN Fit([k \in 1..3 |-> 2 * w[k]]) ELSE w
(* w # 0 in units of 10^-4 of its length *)
Dir(w) == LET f == Fit(w)
              l == ISqrt(Norm2(f))
          IN  [k \in 1..3 |-> (10000 * f[k]) \div l]
(* in the plane of the triangle left of <<a, b>>, across the edge, inwards *)
Inwards(T, pos, d) ==
  LET e == VSub(pos[d[2]], pos[d[1]])
      o == VSub(pos[Opp(T, d[1], d[2])], pos[d[1]])
  IN  Dir(Cross(Cross(e, o), e))

RECURSIVE VecSum(_, _)
VecSum(f, S) == IF S = {} THEN Zero3 ELSE LET x == CHOOSE x \in S : TRUE IN VAdd(f[x], VecSum(f, S \ {x}))
(* mean of the directions at a marked vertex *)
Pointing(T, pos, cls, B, v) ==
  \* B: the border edges of v
  LET s == VecSum([d \in B |-> VScale(KindAcross(T, cls, d), Inwards(T, pos, d))], B)
  IN  [k \in 1..3 |-> s[k] \div Cardinality(B)]

(* the equation of the extension at v; x in units of 10^-5, w fair and enough *)
Harmonic(w, v, x) ==
  \E N \in {DOMAIN w} :
  \E W \in {SumOver(w, N)} :
  \E lam \in {TLCEval([u \in N |-> FixDiv(w[u], W, 6)])} :
  \E off \in {TLCEval([u \in N |-> FixDiv(3 + w[u] \div 20000, W, 6)])} :
    \A k \in 1..3 :
      LET pull == SumOver([u \in N |-> Mul6(lam[u], x[u][k] - x[v][k])], N)
          slack == SumOver([u \in N |-> 2 + Mul6(off[u], 2 * Abs(x[u][k] - x[v][k]))], N)
      IN  Abs(pull) <= slack + 4
=============================================================================
