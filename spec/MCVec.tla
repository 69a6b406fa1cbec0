------------------------------- MODULE MCVec -------------------------------
(* Laws of Vec on all small vectors and boxes: the specification itself is    *)
(* the usual algebra, and a box built by any sequence of merges is the        *)
(* smallest one that contains what went into it.                              *)
EXTENDS Vec, FiniteSets
CONSTANTS N, R, Steps, Rule
VARIABLES put, box
V == [1..N -> -R..R]
Init == put = <<>> /\ box = NoBox(N)
Merge(p) == IF Rule = "both" THEN WithPoint(box, p)
            ELSE \* a merge that updates the far corner only if the near one did not move
                 <<Map2(box[1], p, VMin), IF \E k \in 1..N : p[k] < box[1][k] /\ put # <<>> THEN box[2] ELSE Map2(box[2], p, VMax)>>
Next == Len(put) < Steps /\ \E p \in V : put' = Append(put, p) /\ box' = Merge(p)
Spec == Init /\ [][Next]_<<put, box>>

Contains == \A k \in DOMAIN put : Inside(box, put[k])
(* smallest: each side touches a point *)
Tight == put # <<>> => \A d \in 1..N : \A s \in 1..2 : \E k \in DOMAIN put : put[k][d] = box[s][d]
(* merging two boxes is the box of all the points *)
RECURSIVE BoxOf(_)
BoxOf(q) == IF q = <<>> THEN NoBox(N) ELSE WithPoint(BoxOf(Tail(q)), Head(q))
Associative == \A k \in 0..Len(put) : WithBox(BoxOf(SubSeq(put, 1, k)), BoxOf(SubSeq(put, k + 1, Len(put)))) = box
Outside == put # <<>> => \A p \in V : (DistQ(box, p) = 0) = Inside(box, p)
Algebra == Len(put) = 2 =>
  LET x == put[1]  y == put[2]
  IN  /\ Result("sub", Result("add", x, y, 0), y, 0) = x
      /\ Result("add", x, Result("neg", x, x, 0), 0) = Fill(N, 0)
      /\ Result("ssub", x, x, 1) = Result("neg", Result("subs", x, x, 1), x, 0)
      /\ DotQ(x, y) = DotQ(y, x)
      /\ Result("add", Result("min", x, y, 0), Result("max", x, y, 0), 0) = Result("add", x, y, 0)
      /\ Result("abs", x, x, 0) = Result("max", x, Result("neg", x, x, 0), 0)
      /\ (N = 3 => /\ DotQ(Result("cross", x, y, 0), x) = 0
                   /\ Result("cross", x, y, 0) = Result("neg", Result("cross", y, x, 0), x, 0))
=============================================================================
