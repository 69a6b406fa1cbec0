--------------------------- MODULE TraceDenoise ---------------------------
(***************************************************************************)
(* Accepts recorded runs of implicit fairing (C29), normal filtering (C30) *)
(* and L0 denoising (C34) if every vertex went where Fairing, Denoise and  *)
(* Flatten say.                                                            *)
(***************************************************************************)
EXTENDS Denoise, Json, IOUtils
F == INSTANCE Fairing
L == INSTANCE Flatten
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Range(s) == {s[k] : k \in 1..Len(s)}
TriOf(e) == {Canon(t[1], t[2], t[3]) : t \in Range(e.tri)}
Near(a, b, tol) == \A k \in 1..3 : Abs(a[k] - b[k]) <= tol

(*------------------------------- fairing ---------------------------------*)
FairOK(e) ==
  \E T \in {TriOf(e)} :
  \E w \in {TLCEval([v \in 1..Len(e.p) |-> F!WeightsAt(T, e.p, v)])} :
    (\A v \in 1..Len(e.p) : F!Fair(w[v])) =>
       \A v \in 1..Len(e.p) : F!Enough(w[v]) => F!Balanced(e.p, w[v], v, e.num, e.den, e.q)
SameOK(e) == \A v \in 1..Len(e.q) : Near(e.q[v], e.p[v], e.tol)
StillOK(e) == \A v \in 1..Len(e.kept) : e.kept[v] = 1

(*---------------------------- normal filtering ---------------------------*)
RECURSIVE Taubin(_, _, _)
Taubin(T, p, n) == IF n = 0 THEN p
                   ELSE Taubin(T, UniformStep(T, {}, UniformStep(T, {}, p, 1, 2), -53, 100), n - 1)
Edges(T) == {e \in DirEdges(T) : e[1] < e[2]}
(* mean edge length of the surface the call was made on, to 10^-3 *)
MeanOK(e, T) == LET E == Edges(T)
                IN  Abs(100 * e.mean - SumEdges(e.p0, E) \div Cardinality(E)) <= 200

FilterOK(e) ==
  \E T \in {TriOf(e)} :
  \E P \in {e.pt} :
  \E Ac \in {Across(e.tri)} :
  \E nf \in {Len(e.tri)} :
  LET sc == (e.mean * e.sc) \div 100                           \* unit of the distances
      kc(f) == [k \in 1..3 |-> Kernel(FixDiv(e.dist[f][k], sc, 4))]
      ks(f) == [k \in 1..3 |-> IF e.kind = "gauss" THEN 10000000
                               ELSE Kernel(FixDiv(e.nd[f][k], e.sn * 100, 4))]
  IN  /\ MeanOK(e, T)
      /\ \E want \in {Taubin(T, e.pk, 3)} : \A v \in 1..Len(P) : Near(e.pt4[v], want[v], 20) /\ Near(P[v], VDiv(e.pt4[v], 10), 2)
      /\ \A f \in 1..nf : /\ NormalOf(P, e.tri[f], e.nrm[f])
                          /\ AreaOf(P, e.tri[f], e.nrm[f], e.area[f])
                          /\ \A k \in 1..3 : /\ DistOf(P, e.tri[f], e.tri[Ac[f][k]], e.dist[f][k])
                                             /\ e.kind = "bilat" =>
                                                  \E x \in {VSub(e.nrm[f], e.nrm[Ac[f][k]])} :
                                                    Abs(Norm2(VDiv(x, 2)) - (e.nd[f][k] \div 2) * (e.nd[f][k] \div 2))
                                                      <= 8 * (e.nd[f][k] + 40)
      /\ \E kk \in {TLCEval([f \in 1..nf |-> <<kc(f), ks(f)>>])} :
         \E w \in {TLCEval([f \in 1..nf |-> IF Top3(kk[f][1]) = 0 \/ Top3(kk[f][2]) = 0 THEN <<0, 0, 0>>
                              ELSE Weights(kk[f][1], kk[f][2], [k \in 1..3 |-> e.area[Ac[f][k]]])])} :
         \E sum \in {TLCEval([f \in 1..nf |-> WeightedSum(w[f], [k \in 1..3 |-> e.nrm[Ac[f][k]]])])} :
         \E known \in {{f \in 1..nf : Clear(kk[f][1], kk[f][2], w[f], sum[f])}} :
            /\ \A f \in known : Along(e.nn[f], sum[f])
            /\ \A v \in 1..Len(P) :
                 \E own \in {{f \in 1..nf : v \in Range(e.tri[f])}} :
                   own \subseteq known =>
                     \E g \in {Target(P, e.tri, v, own, e.nn, e.area)} : Near(e.q[v], g[1], g[2])

(*------------------------------ L0 denoising -----------------------------*)
(* one round from X to Y, p the positions given; al, be in 10^-4 *)
RoundOK(E, sp, row, p, X, Y, al, be, lim, kept) ==
  \E y \in {TLCEval([e \in E |-> L!Apply(row[e], sp[e], X)])} :
  \E z \in {TLCEval([e \in E |-> VSub(L!Apply(row[e], sp[e], Y), IF e \in kept THEN y[e] ELSE <<0, 0, 0>>)])} :
  \E dz \in {TLCEval([e \in E |-> L!ApplyOff(row[e], sp[e], Y) + (IF e \in kept THEN L!ApplyOff(row[e], sp[e], X) ELSE 0)])} :
  \E bend \in {TLCEval([e \in E |-> L!Bend(sp[e], Y)])} :
    /\ \A e \in E : L!KeptOK(y[e], lim, e \in kept)
    /\ \A v \in 1..Len(p) :
         \E own \in {{<<e, k>> \in E \X (1..4) : sp[e][k] = v}} :
         \E rb \in {VSumSet([h \in own |-> IF h[2] \in {1, 3} THEN bend[h[1]] ELSE VScale(-1, bend[h[1]])], own)} :
         \E dd \in {VSumSet([h \in own |-> L!V3(L!MulC, row[h[1]][h[2]], z[h[1]])], own)} :
         \E off \in {SumOver([h \in own |-> 3 + L!MulC(Abs(row[h[1]][h[2]]), dz[h[1]]) + L!MulC(L!RowOff(row[h[1]]), L!L1(z[h[1]]))], own)} :
           \A k \in 1..3 :
             Abs(Y[v][k] - p[v][k] + L!MulW(al, rb[k]) + L!MulW(be, dd[k]))
               <= 6 + L!MulW(be, off) + Abs(rb[k]) \div 2000 + Abs(dd[k]) \div 2000

RECURSIVE Grows(_, _)
Grows(be, n) == IF n = 0 THEN be ELSE Grows((be * 14142) \div 10000, n - 1)
RECURSIVE Halves(_, _)
Halves(a, n) == IF n = 0 THEN a ELSE Halves(a \div 2, n - 1)

FlatOK(e) ==
  \E T \in {TriOf(e)} :
  \E E \in {L!Edges(T)} :
  \E sp \in {TLCEval([x \in E |-> L!Span(T, x)])} :
  \E row \in {TLCEval([x \in E |-> L!Row(e.pt, sp[x])])} :
  \E p \in {TLCEval([v \in 1..Len(e.p0) |-> VScale(1000, e.p0[v])])} :
  \E n \in {Len(e.steps)} :
  LET al == FixDiv(e.mean * e.alpha, e.scale, 1)
      be == FixDiv(e.mean * e.beta, e.scale, 1)
  IN  /\ MeanOK(e, T)
      /\ n = L!Rounds(e.beta * e.beta)
      /\ \E want \in {Taubin(T, [v \in 1..Len(p) |-> VScale(10, p[v])], 3)} :
           \A v \in 1..Len(p) : Near(e.pt4[v], want[v], 20) /\ Near(e.pt[v], VDiv(e.pt4[v], 10), 2)
      /\ (\A x \in E : L!Modest(row[x])) =>
           \A j \in 1..n :
             \E b \in {Grows(be, j - 1)} :
               RoundOK(E, sp, row, p, IF j = 1 THEN p ELSE e.steps[j - 1], e.steps[j], Halves(al, j - 1), b,
                       L!Limit(e.mean, e.theta, b), {x \in E : x \in Range(e.kept[j])})
      /\ \A v \in 1..Len(p) : Near(e.q[v], IF n = 0 THEN p[v] ELSE e.steps[n][v], 3)
(* the mean of all positions stays *)
CentreOK(e) == Near(e.q, e.p, e.tol)

OK(e) == CASE e.op = "fair"   -> FairOK(e)
           [] e.op = "same"   -> SameOK(e)
           [] e.op = "still"  -> StillOK(e)
           [] e.op = "filter" -> FilterOK(e)
           [] e.op = "flat"   -> FlatOK(e)
           [] e.op = "centre" -> CentreOK(e)
           [] e.op = "end"    -> e.res = "ok"

Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ OK(Trace[i + 1])
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
