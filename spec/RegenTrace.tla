----------------------------- MODULE RegenTrace -----------------------------
(* Validates recorded histories of the real tool against Regen.  Each line  *)
(* of the trace file is one history: its start, its steps in order (every   *)
(* run step carries the observed projection of the tree after the run) and  *)
(* the fingerprints of what the tool produces in an empty project for each  *)
(* (definition, options) that occurs.  PROP selects the property judged;    *)
(* "ALL" demands the complete post-state.                                   *)
EXTENDS Regen, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
(* as the tool lays out a new handler file *)
Layout == ndJsonDeserialize(IOEnv.LAYOUT)[1]
IsAbove == Layout.above
IsBelow == Layout.below
VARIABLES tid, l
tvars == <<vars, tid, l>>

T == Traces[tid]
S == T.steps[l]
FreshOf(d, o) == T.fresh[CHOOSE i \in DOMAIN T.fresh : T.fresh[i].def = d /\ T.fresh[i].opt = o].files
Tok(c, f) == CASE c.k = "absent" -> "absent"
               [] c.k = "user"   -> "u" \o ToString(c.id)
               [] OTHER          -> IF c.d = <<>> THEN FreshOf(T.init.def, T.init.opt)[f]
                                    ELSE FreshOf(c.d, c.o)[f]

TInit ==
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ def = T.init.def /\ opt = T.init.opt
  /\ hs = "absent" /\ h = <<>>
  /\ cf = [f \in Once |-> Absent] /\ of = [f \in Owned |-> Absent]
  /\ oth = [f \in Other |-> 0] /\ leg = {} /\ res = "none"

Is(a) == l <= Len(T.steps) /\ S.a = a /\ l' = l + 1 /\ UNCHANGED tid
Obs == S.obs

(* The observed handler file is adopted; what it must satisfy is judged    *)
(* per property.                                                           *)
ObsH == [i \in DOMAIN Obs.h |-> [k |-> Obs.h[i].k, n |-> Obs.h[i].n, q |-> Obs.h[i].q, r |-> Obs.h[i].r, b |-> Obs.h[i].b]]

KeptOk == LET p == Blank(Protected(h, def)) IN
  IF hs = "absent" THEN \A i \in DOMAIN ObsH : ObsH[i].b = 0 /\ ObsH[i].k \in {"gen", "ctor", "meth"}
  ELSE /\ Len(ObsH) >= Len(p) /\ SubSeq(Blank(ObsH), 1, Len(p)) = p
       /\ \A i \in (Len(p) + 1)..Len(ObsH) : ObsH[i].k = "meth" /\ ObsH[i].b = 0
SyncOk ==
  /\ Methods(ObsH) = RpcNames(def)
  /\ \A i, j \in DOMAIN ObsH : ObsH[i].k = "meth" /\ ObsH[j].k = "meth" /\ ObsH[i].n = ObsH[j].n => i = j
  /\ \A i \in DOMAIN ObsH : ObsH[i].k = "meth" =>
       /\ ObsH[i].n \in RpcNames(def)
       /\ ObsH[i].q = RpcOf(def, ObsH[i].n).q /\ ObsH[i].r = RpcOf(def, ObsH[i].n).r
  /\ \A i \in DOMAIN ObsH : ObsH[i].k # "exp"
  /\ hs = "absent" => \E i \in DOMAIN ObsH : ObsH[i].k = "ctor"
BodiesOk ==   \* a retyped handler keeps its body
  \A i \in DOMAIN h : h[i].k = "meth" /\ h[i].n \in RpcNames(def) /\ hs = "ok" =>
     \E j \in DOMAIN ObsH : ObsH[j].k = "meth" /\ ObsH[j].n = h[i].n /\ ObsH[j].b = h[i].b
OrderOk == \A i, j \in DOMAIN ObsH :
  (i < j /\ ObsH[i].k = "meth" /\ ObsH[j].k = "meth" /\ {ObsH[i].n, ObsH[j].n} \subseteq RpcNames(def)
   /\ ObsH[i].n \notin Methods(h) /\ ObsH[j].n \notin Methods(h)) => PosIn(def, ObsH[i].n) < PosIn(def, ObsH[j].n)
AppendOk == \A i, j \in DOMAIN ObsH :   \* stubs come after everything that was there
  (hs = "ok" /\ ObsH[i].k = "meth" /\ ObsH[i].n \notin Methods(h) /\ i < j) =>
     ObsH[j].k = "meth" /\ ObsH[j].n \notin Methods(h)

OnceOk(c) == \A f \in Once : Obs.cf[f] = Tok(c[f], f)
OtherOk == \A f \in Other : Obs.oth[f] = oth[f]
OwnedOk(c, F) == \A f \in F : Obs.of[f] = Tok(c[f], f)

For(p) == Prop \in {p, "ALL"}
Named(n, c) == IF c THEN {} ELSE {n}
Judge(bad) == IF bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([tid |-> tid, l |-> l, bad |-> bad])) /\ FALSE

TRunOk ==
  /\ Is("RunOk")
  /\ hs # "broken"
  /\ h' = ObsH /\ hs' = "ok"
  /\ cf' = OnceAfter(cf, def, opt) /\ of' = OwnedAfter(def, opt)
  /\ leg' = {} /\ res' = "ok" /\ UNCHANGED <<def, opt, oth>>
  /\ Judge(Named("run failed", Obs.res = "ok")
       \cup (IF Obs.res # "ok" THEN {} ELSE
             (IF For("C01") THEN Named("C01 developer code changed", KeptOk) ELSE {})
        \cup (IF For("C02") THEN Named("C02 handler methods differ from definition", SyncOk)
                            \cup Named("C02 body lost", BodiesOk)
                            \cup Named("C02 stub order", OrderOk)
                            \cup Named("C02 stub not appended", AppendOk) ELSE {})
        \cup (IF For("C03") THEN Named("C03 create-once file", OnceOk(cf')) \cup Named("C03 other file", OtherOk)
                            \cup Named("C03 stray deletion or creation", Obs.stray = "") ELSE {})
        \cup (IF For("C04") THEN Named("C04 owned file not as fresh", OwnedOk(of', Owned)) ELSE {})
        \cup (IF For("C05") THEN Named("C05 second run from same tree differs", Obs.det)
                            \cup Named("C05 run on own output changes it", Obs.idem) ELSE {})))
TRejected(kind) ==
  /\ LET want == IF kind = "nosvc" THEN "noservice" ELSE "rejected" IN
     /\ of' = of /\ res' = want
     /\ UNCHANGED <<def, opt, hs, h, cf, oth, leg>>
     /\ Judge((IF For("C06") THEN
                Named("C06 run did not report failure", Obs.res = want)
           \cup Named("C06 handler file changed", Obs.hs = hs /\ Obs.same)
           \cup Named("C06 create-once file changed", OnceOk(cf))
           \cup Named("C06 other file changed", OtherOk)
           \cup Named("C06 generated service file changed", OwnedOk(of, SvcOwned))
           \cup Named("C06 stray deletion or creation", Obs.stray = "") ELSE {}))
\* after a rejected run the protocol code may be old or new; the next
\* successful run settles it, and nothing reads it before that
TNext ==
  \/ TRunOk
  \/ Is("RunBroken") /\ TRejected("broken")
  \/ Is("RunBadDef") /\ TRejected(S.kind)
  \/ Is("AddRpc") /\ AddRpc(S.i, S.n, S.q, S.r)
  \/ Is("DropRpc") /\ DropRpc(S.i)
  \/ Is("MoveRpc") /\ MoveRpc(S.i)
  \/ Is("RetypeRpc") /\ RetypeRpc(S.i, S.q, S.r)
  \/ Is("SetOpt") /\ SetOpt(S.t, S.c)
  \/ Is("SetSplit") /\ SetSplit(S.s)
  \/ Is("AddDecl") /\ AddDecl(S.i, S.d)
  \/ Is("EditDecl") /\ EditDecl(S.i, S.b)
  \/ Is("DelDecl") /\ DelDecl(S.i)
  \/ Is("SwapDecl") /\ SwapDecl(S.i)
  \/ Is("BreakHandler") /\ BreakHandler
  \/ Is("MendHandler") /\ MendHandler
  \/ Is("DelHandler") /\ DelHandler
  \/ Is("EditOnce") /\ EditOnce(S.f, S.id)
  \/ Is("DelOnce") /\ DelOnce(S.f)
  \/ Is("Tamper") /\ Tamper(S.f, S.id)
  \/ Is("DelOwned") /\ DelOwned(S.f)
  \/ Is("PutOther") /\ PutOther(S.f, S.id)
  \/ Is("PutLegacy") /\ PutLegacy(S.f)
  \/ Is("Clutter") /\ Clutter(S.id)
  \/ Is("Relink") /\ Relink(S.f)
Progress == PrintT("@P " \o ToString(tid) \o " " \o ToString(l'))
TSpec == TInit /\ [][TNext /\ Progress]_tvars
=============================================================================
