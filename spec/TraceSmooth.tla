---------------------------- MODULE TraceSmooth ----------------------------
(***************************************************************************)
(* Accepts recorded smoothing calls if every vertex went where Smooth says.*)
(***************************************************************************)
EXTENDS Smooth, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Range(s) == {s[k] : k \in 1..Len(s)}
TriOf(e) == {Canon(t[1], t[2], t[3]) : t \in Range(e.tri)}
Fn(s) == s
Near(a, b, tol) == \A k \in 1..3 : Abs(a[k] - b[k]) <= tol

(* kept[v]: the position is the same to the last bit *)
Still(e, T) == \A v \in 1..Len(e.q) : (OnBoundary(T, v) \/ v \in Range(e.lock)) => e.kept[v] = 1

Laplace(e, T) ==
  LET want == UniformStep(T, Range(e.lock), Fn(e.p), e.num, e.den)
  IN  \A v \in 1..Len(e.q) : Near(e.q[v], want[v], 4)

Taubin(e, T) ==
  LET L == Range(e.lock)
      mid == UniformStep(T, L, Fn(e.p), e.num, e.den)
      want == UniformStep(T, L, mid, -e.num2, e.den2)
  IN  \A v \in 1..Len(e.q) : Near(e.q[v], want[v], 12)

Cotangent(e, T) ==
  \A v \in Free(T, Range(e.lock)) : CotMoved(T, Fn(e.p), v, e.num, e.den, e.q[v])

(* p: after n calls of one iteration, q: after one call of n iterations *)
Repeated(e) == \A v \in 1..Len(e.q) : Near(e.q[v], e.p[v], 1)

OK(e) == CASE e.op = "lap"    -> \E T \in {TriOf(e)} : Still(e, T) /\ Laplace(e, T)
           [] e.op = "taubin" -> \E T \in {TriOf(e)} : Still(e, T) /\ Taubin(e, T)
           [] e.op = "cot"    -> \E T \in {TriOf(e)} : Still(e, T) /\ Cotangent(e, T)
           [] e.op = "many"   -> Repeated(e)
           [] e.op = "end"    -> e.res = "ok" \/ e.call # "smooth"

Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ OK(Trace[i + 1])
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
