---------------------------- MODULE TraceQuadric ----------------------------
(* Acceptor for recorded passes of simplification.                           *)
(*   pass  F: triangles at its start, P: positions, N: unit normals (zero    *)
(*         where a triangle has no area to speak of); g: merges in order,    *)
(*         << stays, goes, position after all merges >>; moved: number of    *)
(*         other vertices whose position changed; fl: turned edges           *)
(*         << a, b, c, d >> in order, c and d beside them                    *)
(*   end   how the process ended                                             *)
EXTENDS Quadric, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

At(g) == <<g[3], g[4], g[5]>>

(* the surface after k merges and l turns; {} if the record has gaps *)
RECURSIVE Merged(_, _, _)
Merged(T, g, k) ==
  IF k > Len(g) THEN T
  ELSE IF HasEdge(T, g[k][1], g[k][2]) /\ HasEdge(T, g[k][2], g[k][1]) /\ CollapseTopoOK(T, g[k][1], g[k][2])
  THEN LET U == TLCEval(CollapseTri(T, g[k][1], g[k][2])) IN Merged(U, g, k + 1)
  ELSE {}
RECURSIVE TurnsOK(_, _, _)
TurnsOK(T, fl, k) ==
  \/ k > Len(fl) \/ T = {}
  \/ LET f == fl[k] IN
       IF HasEdge(T, f[1], f[2]) /\ HasEdge(T, f[2], f[1]) /\ Opp(T, f[1], f[2]) = f[3] /\ Opp(T, f[2], f[1]) = f[4]
       THEN Lowers6(T, f[1], f[2]) /\ (FlipOK(T, f[1], f[2]) => LET U == TLCEval(FlipTri(T, f[1], f[2])) IN TurnsOK(U, fl, k + 1))
       ELSE TRUE

Once(e) == \A k, l \in 1..Len(e.g) : k # l => {e.g[k][1], e.g[k][2]} \cap {e.g[l][1], e.g[l][2]} = {}

Judge(e) ==
  LET F == e.F
      P == e.P
      N == e.N
      I == Inner(F)
      ra == TLCEval([k \in 1..Len(e.g) |-> Around(F, I, e.g[k][1])])
      rb == TLCEval([k \in 1..Len(e.g) |-> Around(F, I, e.g[k][2])])
      ok == TLCEval({k \in 1..Len(e.g) : /\ Known(N, ra[k] \cup rb[k])
                                         /\ InReach(F, P, ra[k] \cup rb[k], At(e.g[k]))})
      sa == TLCEval([k \in ok |-> Seen(F, P, N, ra[k], At(e.g[k]))])
      sb == TLCEval([k \in ok |-> Seen(F, P, N, rb[k], At(e.g[k]))])
      er == TLCEval([k \in ok |-> Err(ra[k], sa[k]) + Err(rb[k], sb[k])])
      eo == TLCEval([k \in ok |-> ErrOff(ra[k], sa[k]) + ErrOff(rb[k], sb[k])])
  IN  /\ \A k \in ok : \A t \in ra[k] \cup rb[k] : NormalOf(P, F[t], N[t])
      /\ Once(e)
      /\ e.moved = 0
      /\ \A k \in ok : PlacedOK(F, P, N, e.g[k][1], e.g[k][2], ra[k], rb[k], sa[k], sb[k], At(e.g[k]))
      /\ \A k, l \in ok : k < l => er[k] <= er[l] + eo[k] + eo[l]

Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E e \in {Trace[i]} :
             \/ e.op = "end"
             \/ /\ e.op = "pass"
                /\ Judge(e)
                /\ LET T == TLCEval({Canon(f[1], f[2], f[3]) : f \in {e.F[k] : k \in 1..Len(e.F)}})
                       M == Merged(T, e.g, 1)
                   IN  TurnsOK(M, e.fl, 1)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
