---------------------------- MODULE TraceCurvature ----------------------------
(* Acceptor for recorded curvature analyses.                                    *)
(*   prin   k1, k2, t1, t2 of all vertices; j1, j2, s1, s2: of the image of the *)
(*          surface (renumbered, turned, moved, scaled), mapped back            *)
(*   revol  the same at vertices on an equator of a surface of revolution; axis *)
(*          its axis; along = 1 if the greater curvature lies along the axis    *)
(*   deriv  along: change of the curvature of the meridian along it, around:    *)
(*          of the other one; want: the change on the smooth surface            *)
(*   heat   a small graph: edges; lam, u, times: a witness; h: the signatures   *)
(*   hks    h: signatures of the vertices, g: those of the renumbered surface   *)
(*   end    how the process ended                                               *)
EXTENDS Curvature, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLE i

PrinOk(e) == \A v \in DOMAIN e.k1 :
  /\ Frame(e.k1[v], e.k2[v], e.t1[v], e.t2[v])
  /\ Frame(e.j1[v], e.j2[v], e.s1[v], e.s2[v])
  /\ Agree(e.k1[v], e.k2[v], e.t1[v], e.t2[v], e.j1[v], e.j2[v], e.s1[v], e.s2[v])
RateOk(e) == /\ \A v \in DOMAIN e.e1 : SameRate(e.e1[v], e.d1[v]) /\ SameRate(e.e2[v], e.d2[v])
             /\ DOMAIN e.e1 = DOMAIN e.d1
DerivOk(e) == \A v \in DOMAIN e.want :
  /\ Sgn(e.along[v]) = Sgn(e.want[v])
  /\ 5 * Abs(e.along[v]) >= 2 * Abs(e.want[v]) /\ Abs(e.along[v]) <= 2 * Abs(e.want[v])
  /\ Abs(e.around[v]) <= Abs(e.want[v]) \div 4
HeatOk(e) ==
  LET E == {<<e.edges[k][1] + 1, e.edges[k][2] + 1>> : k \in DOMAIN e.edges}
  IN  /\ Assert(Eigenbasis(e.n, E, e.lam, e.u) /\ Times(e.lam, e.K, e.times), "the witness is not an eigenbasis")
      /\ e.rows = e.n /\ e.cols = Len(e.times)
      /\ \A v \in 1..e.n : \A j \in DOMAIN e.times : Abs(e.h[v][j] - Heat(e.lam, e.u, e.K, v, e.times[j])) <= 15
RevolOk(e) == \A v \in DOMAIN e.k1 :
  /\ Frame(e.k1[v], e.k2[v], e.t1[v], e.t2[v])
  /\ Abs(Dot(IF e.along = 1 THEN e.t1[v] ELSE e.t2[v], e.axis)) >= 96000000
  /\ Abs(Dot(IF e.along = 1 THEN e.t2[v] ELSE e.t1[v], e.axis)) <= 28000000
  /\ \A k \in 1..2 : LET got == IF k = 1 THEN e.k1[v] ELSE e.k2[v]
                     IN  Abs(got - e.want[k]) <= 3000 + Abs(e.want[k]) \div 2
HksOk(e) ==
  /\ Len(e.h) = Len(e.g)
  /\ \A v \in DOMAIN e.h : Signature(e.h[v])
  /\ \A v \in DOMAIN e.h : \A n \in DOMAIN e.h[v] : Abs(e.h[v][n] - e.g[v][n]) <= 5000

Ok(e) == CASE Focus # "C27" -> TRUE
           [] e.op = "prin" -> PrinOk(e) /\ RateOk(e)
           [] e.op = "revol" -> RevolOk(e)
           [] e.op = "deriv" -> DerivOk(e)
           [] e.op = "heat" -> HeatOk(e)
           [] e.op = "hks" -> HksOk(e)
           [] e.op = "end" -> e.res = "ok" \/ e.blame # Focus
Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E e \in {Trace[i]} : Ok(e)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
