------------------------------ MODULE TraceDist ------------------------------
(* Acceptor for recorded distance queries.  Positions are those of the        *)
(* integer model; the driver maps them to places and scales and maps the      *)
(* answers back.                                                              *)
(*   near   ts triangles, q query; p the point returned (millionths), d2 its  *)
(*          squared distance as returned (millionths)                         *)
(*   mesh   ta, va and tb, vb: triangles and vertices of two meshes; ab and   *)
(*          ba: squared vertex distances (millionths), in vertex order; h,    *)
(*          hr: squared Hausdorff distance and the one the other way          *)
(*   end    how the process ended                                             *)
EXTENDS Dist, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLE i
Tol == 40

Close(x, y) == Abs(x - y) <= Tol
(* x/e in millionths, x of either sign *)
MicroS(x, e) == IF x >= 0 THEN Micro(x, e) ELSE -Micro(-x, e)
SamePoint(p, r) == \A k \in 1..3 : Close(p[k], MicroS(r.x[k], r.e))

NearOk(e) ==
  \E B \in {Nearests(e.ts, e.q)} :
    /\ \E r \in B : Close(e.d2, Micro(r.n, r.d))
    /\ \E r \in B : SamePoint(e.p, r)

RECURSIVE MaxIn(_, _, _)
MaxIn(f, n, m) == IF n = 0 THEN m ELSE MaxIn(f, n - 1, Max2(m, f[n]))
To(ts, vs) == TLCEval([k \in DOMAIN vs |-> LET r == Best(ts, vs[k]) IN Micro(r.n, r.d)])
SameAll(f, g) == Len(g) = Len(f) /\ \A k \in DOMAIN f : Close(f[k], g[k])
MeshOk(e) ==
  \E A \in {To(e.tb, e.va)} : \E B \in {To(e.ta, e.vb)} :
    /\ SameAll(A, e.ab) /\ SameAll(B, e.ba)
    /\ LET m == MaxIn(B, Len(B), MaxIn(A, Len(A), 0))
       IN  Close(e.h, m) /\ Close(e.hr, m)

Ok(e) == CASE e.op = "near" -> Focus = "C20" => NearOk(e)
           [] e.op = "mesh" -> Focus = "C21" => MeshOk(e)
           [] e.op = "end" -> e.res = "ok" \/ e.blame # Focus

Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E e \in {Trace[i]} : Ok(e)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
