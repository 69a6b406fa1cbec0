----------------------------- MODULE TraceField -----------------------------
(***************************************************************************)
(* Accepts recorded feature line fields (C32).  k1, k2: curvatures in      *)
(* 10^-5; es: sign of the derivative of the largest (0: too small to be    *)
(* sure); t: its direction in 10^-4; flags; field in 10^-4, x in 10^-5:    *)
(* for marked vertices the field, for the others the harmonic extension    *)
(* claimed by the driver and verified here.                                *)
(***************************************************************************)
EXTENDS Field, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Range(s) == {s[n] : n \in 1..Len(s)}
TriOf(e) == {Canon(t[1], t[2], t[3]) : t \in Range(e.tri)}

Umb(e, v) == e.k1[v] - e.k2[v] < 994
Thin(e, v) == e.k1[v] - e.k2[v] \in 994..1006
Margin(e, v) == e.k1[v] - Abs(e.k2[v])
ClassOf(e, a, b) ==
  IF Umb(e, a) \/ Umb(e, b) THEN None
  ELSE IF Thin(e, a) \/ Thin(e, b) \/ e.es[a] = 0 \/ e.es[b] = 0 \/ Abs(Dot(e.t[a], e.t[b])) < 1000000 THEN Unclear
  ELSE IF e.es[a] * e.es[b] * Sgn(Dot(e.t[a], e.t[b])) > 0 THEN None
  ELSE LET x1 == Dot(VSub(e.p[b], e.p[a]), e.t[a])
           x2 == Dot(VSub(e.p[a], e.p[b]), e.t[b])
       IN  IF Abs(Margin(e, a)) < 5 \/ Abs(Margin(e, b)) < 5 \/ Abs(x1) < 400 \/ Abs(x2) < 400 THEN Unclear
           ELSE EdgeClass([s1 |-> e.es[a], s2 |-> e.es[b], d |-> Sgn(Dot(e.t[a], e.t[b])), x1 |-> Sgn(x1), x2 |-> Sgn(x2),
                           u1 |-> FALSE, u2 |-> FALSE, m1 |-> Sgn(Margin(e, a)), m2 |-> Sgn(Margin(e, b))])

Close(a, b, tol) == \A n \in 1..3 : Abs(a[n] - b[n]) <= tol
UnitOrZero(f) == \/ \A n \in 1..3 : f[n] = 0
                 \/ Abs(Norm2(f) - 100000000) <= 60000
Ten(x) == [n \in 1..3 |-> x[n] \div 10]

RECURSIVE Reach(_, _)
Reach(T, S) == LET R == S \cup UNION {VertsOf(t) : t \in {t \in T : VertsOf(t) \cap S # {}}}
               IN  IF R = S THEN S ELSE Reach(T, R)

FieldOK(e) ==
  \E T \in {TriOf(e)} :
  \E V \in {1..Len(e.p)} :
  \E ec \in {TLCEval([d \in {d \in DirEdges(T) : d[1] < d[2]} |-> ClassOf(e, d[1], d[2])])} :
  \E cls \in {TLCEval([t \in T |-> FaceClass({ec[<<Min2(d[1], d[2]), Max2(d[1], d[2])>>] : d \in EdgesOf(t)})])} :
  \E B \in {Border(T, cls)} :
  \E known \in {{v \in V : Known(T, cls, v)}} :
  \E flagged \in {{v \in V : e.flags[v] = 1}} :
    /\ \A v \in V : e.flags[v] \in {0, 1}
    /\ \A v \in known : e.flags[v] = 1 <=> Marked(B, v)
    /\ \A v \in known \cap flagged :
         \E p \in {Pointing(T, e.p, cls, {d \in B : v \in {d[1], d[2]}}, v)} :
           Norm2(p) >= 4000000 => Close(e.field[v], Dir(p), 60)
    /\ \A v \in V : UnitOrZero(e.field[v]) \/ v \in flagged
    /\ \A v \in flagged : Close(e.field[v], Ten(e.x[v]), 2)
    /\ \E R \in {Reach(T, flagged)} :
         /\ \A v \in V \ R : e.field[v] = Zero3
         /\ \E w \in {TLCEval([v \in R |-> WeightsAt(T, e.p, v)])} :
              (\A v \in R : Fair(w[v]) /\ Enough(w[v])) =>
                \A v \in R \ flagged :
                   /\ Harmonic(w[v], v, e.x)
                   /\ Norm2(Ten(e.x[v])) >= 250000 => Close(e.field[v], Dir(e.x[v]), 120)

Init == i = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i + 1]
           IN  CASE e.op = "field" -> FieldOK(e)
                 [] e.op = "end" -> e.res = "ok"
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
