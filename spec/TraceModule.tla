----------------------------- MODULE TraceModule -----------------------------
(* Judges histories of calls of the Python module, each made alike on the C++ *)
(* interface: the values that arrive are those of Module!Bind, results and    *)
(* contents are the same (equal tokens), calls that cannot be made raise a    *)
(* type error and change nothing, and handles work as long as they are held.  *)
EXTENDS Module, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, mesh, hand
vars == <<i, mesh, hand>>
\* mesh: contents (token) of each mesh with a name, by name
\* hand: handle -> [m, kind, i]

Init == i = 1 /\ mesh = <<>> /\ hand = <<>>

E == Trace[i]
All(e) == [n \in {e.all[k][1] : k \in 1..Len(e.all)} |-> (CHOOSE k \in 1..Len(e.all) : e.all[k][1] = n)]
Py(e, n) == e.all[All(e)[n]][2]
\* every mesh looks the same from Python and from C++
Alike(e) == \A k \in 1..Len(e.all) : e.all[k][2] = e.all[k][3]
Now(e) == [n \in DOMAIN All(e) |-> Py(e, n)]
\* nothing changes but the meshes in S; those of the set are N
Frame(e, S, N) ==
  /\ DOMAIN All(e) = N
  /\ \A n \in N \ S : n \in DOMAIN mesh => Py(e, n) = mesh[n]

Stop(e) == e.err # "" \/ e.rerr # ""     \* an error within the library: the history ends here

CallOk(e) ==
  LET s == Sig(e.f) IN
  IF ~Possible(s, e.pos, e.kw)
  THEN e.err = "TypeError" /\ Frame(e, {}, DOMAIN mesh) /\ Alike(e)
  ELSE /\ e.full = Bind(s, e.pos, e.kw)
       /\ \A k \in (Len(e.full) - e.left + 1)..Len(e.full) : e.full[k] = CppDefault(e.f, k)
       /\ e.err = e.rerr
       /\ e.err = "" => /\ e.res = e.rres
                        /\ Alike(e)
                        /\ Frame(e, IF Looks(e.f) THEN {} ELSE {e.full[1]}, DOMAIN mesh)
\* functions whose results depend on the order of addresses: what arrives is
\* noted where they start; the mesh is not looked at any more
PassOk(e) ==
  LET s == Sig(e.f) IN
  /\ Possible(s, e.pos, e.kw)
  /\ e.full = Bind(s, e.pos, e.kw)
  /\ e.known = 1 => e.noted = 1 /\ <<e.full[1]>> \o e.arr = e.full
  /\ Alike(e) /\ Frame(e, {}, DOMAIN mesh \ {e.full[1]})

NewOk(e) == e.m \notin DOMAIN mesh /\ Alike(e) /\ Frame(e, {e.m}, DOMAIN mesh \cup {e.m})
CloneOk(e) ==
  e.m \notin DOMAIN mesh /\ e.of \in DOMAIN mesh /\ Alike(e) /\ Frame(e, {e.m}, DOMAIN mesh \cup {e.m})
TakeOk(e) == e.m \in DOMAIN mesh /\ Alike(e) /\ Frame(e, {}, DOMAIN mesh)
Writes == {"set_pos", "lock", "unlock"}
UseOk(e) ==
  /\ e.h \in DOMAIN hand
  /\ e.err = e.rerr /\ e.res = e.rres
  /\ e.bad = 1 => e.err = "TypeError"
  /\ Alike(e)
  /\ Frame(e, IF e.f \in Writes /\ e.bad = 0 THEN {hand[e.h].m} ELSE {}, DOMAIN mesh)
DropOk(e) == e.m \in DOMAIN mesh /\ Alike(e) /\ Frame(e, {}, DOMAIN mesh \ {e.m})
ForgetOk(e) == Alike(e) /\ Frame(e, {}, DOMAIN mesh)
SaveOk(e) == e.err = e.rerr /\ e.same = 1 /\ Alike(e) /\ Frame(e, {}, DOMAIN mesh)
LoadOk(e) == e.err = e.rerr /\ (e.err = "" => Alike(e) /\ Frame(e, {e.m}, DOMAIN mesh))
OpenOk(e) == e.err = e.rerr /\ e.err = "RuntimeError" /\ Alike(e) /\ Frame(e, {}, DOMAIN mesh)
MethodOk(e) ==
  /\ e.err = e.rerr
  /\ e.err = "" => e.res = e.rres /\ Alike(e) /\ Frame(e, IF e.f = "verify" THEN {} ELSE {e.m}, DOMAIN mesh)

EventOk(e) ==
  CASE e.op = "new" -> NewOk(e)
    [] e.op = "clone" -> CloneOk(e)
    [] e.op = "call" -> CallOk(e)
    [] e.op = "pass" -> PassOk(e)
    [] e.op = "take" -> TakeOk(e)
    [] e.op = "use" -> UseOk(e)
    [] e.op = "drop" -> DropOk(e)
    [] e.op = "forget" -> ForgetOk(e)
    [] e.op = "save" -> SaveOk(e)
    [] e.op = "load" -> LoadOk(e)
    [] e.op = "open" -> OpenOk(e)
    [] e.op = "method" -> MethodOk(e)
    [] e.op = "end" -> e.res = "ok"

Without(h, S) == [x \in DOMAIN h \ S |-> h[x]]
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ mesh' = IF E.op = "end" THEN <<>> ELSE Now(E)
  /\ hand' = CASE E.op = "end" -> <<>>
               [] E.op = "take" -> [x \in DOMAIN hand \cup {E.h} |-> IF x = E.h THEN [m |-> E.m, kind |-> E.kind, i |-> E.i] ELSE hand[x]]
               [] E.op = "pass" -> Without(hand, {h \in DOMAIN hand : hand[h].m = E.full[1]})
               [] E.op = "forget" -> Without(hand, {E.hs[k] : k \in 1..Len(E.hs)})
               [] OTHER -> hand
  /\ EventOk(E)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
