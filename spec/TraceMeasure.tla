---------------------------- MODULE TraceMeasure ----------------------------
(* Acceptor for recorded measurements of meshes with integer positions p,     *)
(* triangles tri over 1 .. Len(p).                                            *)
(*   lap    kind "adj", "cot" or "gauss"; rows, cols; en: entries that are    *)
(*          not zero << i, j, x >>, x the value (adj), in 10^-5 (cot) or the  *)
(*          logarithm of its negative in 10^-5 (gauss, i # j; NoLog if none); *)
(*          rs: row sums in 10^-6; lnc: ln(4 pi h), h the mean edge length    *)
(*   geo    fa, fn: areas and normals of the faces; sh: shares of their       *)
(*          corners; va: vertex areas; ka: K times area; ag: sums of the      *)
(*          angles at the vertices (measured); el: << a, b, length >>;        *)
(*          da: angles at the edges (measured); mel, mfa, mda: means          *)
(*   end    how the process ended                                             *)
EXTENDS Measure, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLE i

Range(s) == {s[k] : k \in 1..Len(s)}
TriOf(e) == {Canon(t[1], t[2], t[3]) : t \in Range(e.tri)}
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n - 1)
Total(s) == SumSeq(s, Len(s))
UndirEdges(T) == {e \in {<<Min2(d[1], d[2]), Max2(d[1], d[2])>> : d \in DirEdges(T)} : TRUE}
TwoPi == 628319

(*-------------------------------- Laplacians ------------------------------*)
EntryAt(E, a, b) == {x \in E : x[1] = a /\ x[2] = b}
HasVal(E, a, b, x, tol) ==       \* the entry is x, missing entries are 0
  LET S == EntryAt(E, a, b) IN IF S = {} THEN Near(0, x, tol) ELSE Cardinality(S) = 1 /\ \A y \in S : Near(y[3], x, tol)

LapOk(e) ==
  \E T \in {TriOf(e)} : \E E \in {Range(e.en)} : \E D \in {DirEdges(T) \cup {Rev(d) : d \in DirEdges(T)}} :
    /\ e.rows = Len(e.p) /\ e.cols = Len(e.p)
    /\ \A x \in E : x[1] = x[2] \/ <<x[1], x[2]>> \in D
    /\ \A k \in DOMAIN e.rs : Abs(e.rs[k]) <= 1
    /\ Len(e.rs) = Len(e.p)
    /\ CASE e.kind = "adj" ->
              /\ \A d \in D : HasVal(E, d[1], d[2], -1, 0)
              /\ \A v \in Verts(T) : HasVal(E, v, v, Degree(T, v), 0)
         [] e.kind = "cot" ->
              \A d \in D :
                /\ \A x \in EntryAt(E, d[1], d[2]) : HasVal(E, d[2], d[1], x[3], 2 + Abs(x[3]) \div 1000000)
                /\ InteriorEdge(T, d[1], d[2]) =>
                     \E w \in {CotEntry2(T, e.p, d[1], d[2])} :
                       w # CotBad => HasVal(E, d[1], d[2], w \div 2, 4 + Abs(w) \div 20000)
         [] e.kind = "gauss" ->
              \E U \in {UndirEdges(T)} : \E h \in {SumEdges(e.p, U) \div Cardinality(U)} :
                \A d \in D :
                  \E g \in {GaussLog(e.p, d[1], d[2], h, e.lnc)} :
                     EntryAt(E, d[1], d[2]) # {} /\ HasVal(E, d[1], d[2], g, 10 + Abs(g) \div 20000)

(*--------------------------------- geometry -------------------------------*)
FaceOk(e, f) ==
  \E t \in {e.tri[f]} : \E n \in {Normal(e.p, t)} : \E A \in {Area2(e.p, t)} :
    /\ Near(2 * e.fa[f], A, 4)
    /\ \A k \in 1..3 : Near(e.fn[f][k], FixDiv(n[k] * 100, A, 8), 4)
    /\ Near(Total(e.sh[f]), e.fa[f], 4)
    /\ \A c \in 1..3 :
         \E s \in {<<t[c], t[1 + (c % 3)], t[1 + ((c + 1) % 3)]>>} :
           Cot(e.p[s[1]], e.p[s[2]], e.p[s[3]]) # CotBad /\ Cot(e.p[s[2]], e.p[s[1]], e.p[s[3]]) # CotBad
             /\ Cot(e.p[s[3]], e.p[s[2]], e.p[s[1]]) # CotBad
           => \E w \in {Share8(e.p, s[1], s[2], s[3])} : Near(8 * e.sh[f][c], w, 60 + Abs(w) \div 5000 + 3 * Norm2(VSub(e.p[s[1]], e.p[s[2]])) + 3 * Norm2(VSub(e.p[s[1]], e.p[s[3]])))

Shares(e, v) == SumOver([f \in DOMAIN e.tri |-> SumOver([c \in 1..3 |-> IF e.tri[f][c] = v THEN e.sh[f][c] ELSE 0], 1..3)], DOMAIN e.tri)
VertexOk(e, v) ==
  /\ Near(e.va[v], Shares(e, v), 4 + Len(e.tri))
  /\ Near(e.ka[v], TwoPi - e.ag[v], 6)

GeoOk(e) ==
  \E T \in {TriOf(e)} : \E U \in {UndirEdges(T)} :
    \E nv \in {Len(e.p)} : \E nf \in {Len(e.tri)} : \E ne \in {Cardinality(U)} :
      /\ \A f \in 1..nf : FaceOk(e, f)
      /\ \A v \in 1..nv : VertexOk(e, v)
      /\ Near(Total(e.va), Total(e.fa), 4 + nv + nf)
      /\ Near(Total(e.ka), TwoPi * (nv - ne + nf), 20 + nv)
      /\ Cardinality(Range(e.el)) = 2 * ne
      /\ \A x \in Range(e.el) : <<x[1], x[2]>> \in DirEdges(T) /\ Near(x[3], EdgeLength(e.p, x[1], x[2]), 4)
      /\ Near(e.mel * ne, SumEdges(e.p, U), 4 * ne + 4)
      /\ Near(e.mfa * nf, Total(e.fa), 4 * nf + 4)
      /\ Len(e.da) = ne /\ Near(e.mda * ne, Total(e.da), 4 * ne + 4)

Ok(e) == CASE e.op = "lap" -> Focus = "C22" => LapOk(e)
           [] e.op = "geo" -> Focus = "C26" => GeoOk(e)
           [] e.op = "end" -> e.res = "ok" \/ e.blame # Focus

Init == i = 1
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E e \in {Trace[i]} : Ok(e)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
