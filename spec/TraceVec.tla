------------------------------ MODULE TraceVec ------------------------------
(* Acceptor for recorded programs on vector and box variables.  After every   *)
(* step the values of all variables are recorded: the target must be what     *)
(* Vec says, every other variable what it was.                                *)
(*   start  n, regs, boxes                                                    *)
(*   op     f, d (target), x, y (operands), s; res = "ok" or "refused"; regs  *)
(*   set    d, k, s: one component;  list: constructed from components        *)
(*   mat    rows m times x                                                    *)
(*   ask    x, y: dot, eq, ne, hash, len, unit, parts                         *)
(*   box    d: point x merged;  join: boxes x and y merged into d             *)
(*   look   box x, point y: inside, dist2, area, wide                         *)
(*   end    how the process ended                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Q == 16
INSTANCE Vec
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES i, regs, boxes

Kept(new, old, d, val) == /\ DOMAIN new = DOMAIN old
                          /\ \A k \in DOMAIN new : new[k] = IF k = d THEN val ELSE old[k]
MatVec(m, x) == [r \in DOMAIN m |-> DotUpTo(m[r], x, Len(x)) \div Q]
AskOk(e) ==
  LET x == regs[e.x]  y == regs[e.y]  q == DotQ(x, x)
  IN  /\ e.dot = DotQ(x, y)
      /\ e.eq = (IF x = y THEN 1 ELSE 0) /\ e.ne = 1 - e.eq
      /\ (x = y => e.hash = 1)
      /\ e.parts = x
      \* len in 1/(4 Q): len^2 = 16 q up to rounding
      /\ VMax(e.len - 1, 0) * VMax(e.len - 1, 0) <= q * 16 /\ q * 16 <= (e.len + 1) * (e.len + 1)
      /\ (q > 0 => \A k \in DOMAIN x : VAbs(e.unit[k] * e.len - x[k] * 40000) <= 2 * 10000 + e.len + 4 * VAbs(x[k]))
LookOk(e) ==
  LET b == boxes[e.x]  p == regs[e.y]
  IN  /\ e.inside = (IF Inside(b, p) THEN 1 ELSE 0)
      /\ (b # NoBox(Len(p)) =>
            /\ VMax(e.dist - 1, 0) * VMax(e.dist - 1, 0) <= DistQ(b, p) * 16 /\ DistQ(b, p) * 16 <= (e.dist + 1) * (e.dist + 1)
            /\ (Inside(b, p) => e.dist = 0)
            /\ e.wide + 1 \in Widest(b)
            /\ (Len(p) = 3 => e.area = AreaQ(b)))

Wanted(e) == Result(e.f, regs[e.x], regs[e.y], e.s)
Step(e) ==
  CASE e.op = "start" -> TRUE
    [] e.op = "op" ->
         IF Refused(e.f, regs[e.y], e.s) THEN e.res = "refused" /\ \A k \in DOMAIN regs : k = e.d \/ e.regs[k] = regs[k]
         ELSE e.res = "ok" /\ Kept(e.regs, regs, e.d, Wanted(e)) /\ e.boxes = boxes
    [] e.op = "set" -> Kept(e.regs, regs, e.d, [regs[e.d] EXCEPT ![e.k] = e.s]) /\ e.boxes = boxes
    [] e.op = "list" -> Kept(e.regs, regs, e.d, e.v) /\ e.boxes = boxes
    [] e.op = "mat" -> Kept(e.regs, regs, e.d, MatVec(e.m, regs[e.x])) /\ e.boxes = boxes
    [] e.op = "ask" -> AskOk(e)
    [] e.op = "box" -> Kept(e.boxes, boxes, e.d, WithPoint(boxes[e.d], regs[e.x])) /\ e.regs = regs
    [] e.op = "make" -> Kept(e.boxes, boxes, e.d, <<regs[e.x], regs[e.y]>>) /\ e.regs = regs
    [] e.op = "join" -> Kept(e.boxes, boxes, e.d, WithBox(boxes[e.x], boxes[e.y])) /\ e.regs = regs
    [] e.op = "look" -> LookOk(e)
    [] e.op = "end" -> e.res = "ok"
Ok(e) == Focus # "C25" \/ Step(e)
Init == i = 1 /\ regs = <<>> /\ boxes = <<>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E e \in {Trace[i]} :
             /\ regs' = IF "regs" \in DOMAIN e THEN e.regs ELSE regs
             /\ boxes' = IF "boxes" \in DOMAIN e THEN e.boxes ELSE boxes
             /\ Ok(e)
Spec == Init /\ [][Next]_<<i, regs, boxes>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
