------------------------------- MODULE Fill -------------------------------
(***************************************************************************)
(* Covering a hole: all triangulations of its loop, and the rule by which  *)
(* one of them is chosen.                                                  *)
(***************************************************************************)
EXTENDS Surface, Geom

RECURSIVE TriangulateFrom(_, _, _)
(* triangulations of the part of loop l from place i to place k *)
TriangulateFrom(l, i, k) ==
  IF k = i + 1 THEN {{}}
  ELSE UNION {{{Canon(l[i], l[j], l[k])} \cup A \cup B :
                 A \in TriangulateFrom(l, i, j), B \in TriangulateFrom(l, j, k)} : j \in (i + 1)..(k - 1)}
Triangulations(l) == TriangulateFrom(l, 1, Len(l))

(* no mesh edge joins two loop vertices other than the loop itself *)
ChordFree(T, l) ==
  LET n == Len(l)
  IN  \A i, j \in 1..n : (Adjacent(T, l[i], l[j]) => ((i - j + n) % n \in {1, n - 1}))

(***************************************************************************)
(* The choice.  For places i < j < k of a loop with n places, area[i][j][k]*)
(* is the area of that triangle and bend[x][y][p][q] the bending across    *)
(* the edge between places x and y, between apexes p and q, q = n + 1      *)
(* standing for the triangle outside.  A part i..k is covered best by the  *)
(* first j, in increasing order, that is not beaten by a later one; a      *)
(* later one beats it with a smaller worst bending, or with a smaller area *)
(* if the two bendings differ by less than the bound.                      *)
(*                                                                         *)
(* Bendings and areas are measured values given in fixed point, so that    *)
(* comparisons closer than EpsB / EpsA are left open: a part has a set of  *)
(* possible outcomes.                                                      *)
(***************************************************************************)
(* What is carried along with the worst bending is where it lies (w: edge  *)
(* and apexes; <<>> if that is not clear): two covers with the very same   *)
(* worst place bend equally much, so that the area decides.                *)
Outcome(bend, area, at, w) == [b |-> bend, a |-> area, at |-> at, w |-> w]
NoOutcome == Outcome(-1, -1, 0, <<>>)

Less(x, y, eps) == IF x < y - eps THEN {TRUE} ELSE IF x > y + eps THEN {FALSE} ELSE {TRUE, FALSE}

Beats(x, y, bound, epsB, epsA) ==    \* set of possible answers
  IF y = NoOutcome THEN {TRUE}
  ELSE IF x.w # <<>> /\ x.w = y.w
  THEN {q /\ r : q \in IF bound > 0 THEN {TRUE} ELSE {TRUE, FALSE}, r \in Less(x.a, y.a, epsA)}
  ELSE {p \/ (q /\ r) : p \in Less(x.b, y.b, epsB),
                        q \in Less(Abs(x.b - y.b), bound, 2 * epsB),
                        r \in Less(x.a, y.a, epsA)}

(* the worst of a set of bendings <<value, where>> *)
Worst(S, eps) == LET v == CHOOSE v \in {s[1] : s \in S} : \A s \in S : s[1] <= v
                     at == {s[2] : s \in {s \in S : s[1] >= v - eps}}
                 IN  <<v, IF Cardinality(at) = 1 THEN CHOOSE p \in at : TRUE ELSE <<>>>>
Place(x, y, p, q) == <<x, y, Min2(p, q), Max2(p, q)>>

(* possible outcomes of all parts: a function <<i, k>> -> set of outcomes, *)
(* built by increasing length of the part                                  *)
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(tab, d, i, k, j, cur, n) ==
  IF j >= k THEN cur
  ELSE LET leftApex(o)  == IF j = i + 1 THEN n + 1 ELSE o.at
           rightApex(o) == IF k = j + 1 THEN n + 1 ELSE o.at
           worst(x, y) == Worst({<<d.bend[i][j][k][leftApex(x)], Place(i, j, k, leftApex(x))>>,
                                 <<d.bend[j][k][i][rightApex(y)], Place(j, k, i, rightApex(y))>>}
                                \cup {<<o.b, o.w>> : o \in {o \in {x, y} : o.at # 0}}, d.epsB)
           cand == {LET w == worst(x, y)
                    IN  Outcome(w[1], x.a + y.a + d.area[i][j][k], j, w[2]) :
                      x \in tab[<<i, j>>], y \in tab[<<j, k>>]}
           next == UNION {UNION {{IF ans THEN w ELSE c : ans \in Beats(w, c, d.bound, d.epsB, d.epsA)} :
                            w \in cand} : c \in cur}
       IN  Scan(tab, d, i, k, j + 1, next, n)

RECURSIVE Tables(_, _, _, _)
Tables(tab, d, len, n) ==
  IF len >= n THEN tab
  ELSE LET new == [p \in {<<i, i + len>> : i \in 1..(n - len)} |->
                     IF len = 1 THEN {Outcome(0, 0, 0, <<>>)}
                     ELSE Scan(tab, d, p[1], p[2], p[1] + 1, {NoOutcome}, n)]
       IN  Tables([p \in DOMAIN tab \cup DOMAIN new |-> IF p \in DOMAIN new THEN new[p] ELSE tab[p]],
                  d, len + 1, n)

(* triangle sets (places in increasing order) the choice may lead to *)
RECURSIVE Cover(_, _, _)
Cover(tab, i, k) ==
  IF k = i + 1 THEN {{}}
  ELSE UNION {{{<<i, o.at, k>>} \cup A \cup B : A \in Cover(tab, i, o.at), B \in Cover(tab, o.at, k)} :
                o \in tab[<<i, k>>]}
Chosen(d, n) == LET tab == Tables(<<>>, d, 1, n) IN Cover(tab, 1, n)
=============================================================================
