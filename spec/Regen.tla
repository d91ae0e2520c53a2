------------------------------- MODULE Regen -------------------------------
(* The service directory as a state machine.                                *)
(*                                                                          *)
(* State: the current service definition and command-line options, the      *)
(* declarations of the handler file, the create-once files, the files baron *)
(* owns, files that have nothing to do with baron, and the legacy           *)
(* directories it cleans up.  Actions: everything a developer does between  *)
(* two runs (edit the definition, edit the handler file, edit / delete /    *)
(* tamper with other files) and the runs of the tool themselves, successful *)
(* and rejected.  Runs are modelled by what they do to the tree, one action *)
(* per outcome; RegenCrash refines a run into its individual file writes.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Names,     \* RPC names
  QTypes,    \* request messages
  RTypes,    \* response messages
  MaxBody,   \* user texts are 1..MaxBody, 0 is text baron wrote
  MaxDecl,   \* bound on the handler file
  Transports,
  Splits,    \* where the service is, and the order the files are given in
  Once,      \* create-once files
  CliFile,   \* the one among them that exists only on demand
  Owned,     \* files baron owns
  SvcOwned,  \* those of them in the service directory
  Other,     \* files baron knows nothing about
  Legacy,    \* locations of earlier versions baron removes
  Above,     \* kinds of the declarations a new handler file has before
  Below      \* and after its handlers

VARIABLES
  def,    \* Seq of RPCs [n, q, r]
  opt,    \* [t : transport, c : client wanted, s : arrangement of the definition]
  hs,     \* handler file: "absent" | "ok" | "broken"
  h,      \* its declarations
  cf,     \* [Once -> content]
  of,     \* [Owned -> content]
  oth,    \* [Other -> Nat]   0 = absent
  leg,    \* SUBSET Legacy present
  res     \* outcome of the last action: "none" (developer) or of a run

vars == <<def, opt, hs, h, cf, of, oth, leg, res>>

Kinds == {"gen", "ufn", "ctor", "cmt", "exp", "meth"}
\* gen  : type/const/var/import declaration      ufn : unexported func or method
\* ctor : NewService                              cmt : free-standing comment
\* exp  : exported func that is no handler        meth: method of the service type
NoOpt == [t |-> "", c |-> FALSE, s |-> ""]
Absent == [k |-> "absent", id |-> 0, d |-> <<>>, o |-> NoOpt]
User(n) == [k |-> "user", id |-> n, d |-> <<>>, o |-> NoOpt]
Gen(d, o) == [k |-> "gen", id |-> 0, d |-> d, o |-> o]
\* create-once files other than the client do not depend on RPCs or options
OnceGen(f, d, o) == IF f = CliFile THEN Gen(d, o) ELSE Gen(<<>>, NoOpt)
Range(s) == {s[i] : i \in DOMAIN s}
RpcNames(D) == {D[i].n : i \in DOMAIN D}
RpcOf(D, n) == D[CHOOSE i \in DOMAIN D : D[i].n = n]
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Meth(n, q, r, b) == [k |-> "meth", n |-> n, q |-> q, r |-> r, b |-> b]
Plain(k, b) == [k |-> k, n |-> "", q |-> "", r |-> "", b |-> b]
Methods(s) == {s[i].n : i \in {j \in DOMAIN s : s[j].k = "meth"}}

--------------------------------------------------------------------------
(* What a successful run does to the handler file.                         *)
Keep(d, D) == \/ d.k \in {"gen", "ufn", "ctor", "cmt"}
              \/ d.k = "meth" /\ d.n \in RpcNames(D)
Retype(d, D) == IF d.k = "meth"
                THEN [d EXCEPT !.q = RpcOf(D, d.n).q, !.r = RpcOf(D, d.n).r]
                ELSE d
Stub(x) == Meth(x.n, x.q, x.r, 0)
Missing(s, D) == SelectSeq(D, LAMBDA x : x.n \notin Methods(s))
AfterRun(s, D) ==
  LET kept == SelectSeq(s, LAMBDA d : Keep(d, D))
      ret(d) == Retype(d, D)
  IN Map(ret, kept) \o Map(Stub, Missing(s, D))
StdAbove == <<"gen", "ctor", "gen">>   \* imports, constructor, service type
StdBelow == <<>>
New(k) == Plain(k, 0)
Fresh(D) == Map(New, Above) \o Map(Stub, D) \o Map(New, Below)

--------------------------------------------------------------------------
(* Runs                                                                    *)
Wanted(f, o) == f # CliFile \/ o.c
OnceAfter(c, d, o) ==
  [f \in Once |-> IF c[f].k = "absent" /\ Wanted(f, o) THEN OnceGen(f, d, o) ELSE c[f]]
OwnedAfter(d, o) == [f \in Owned |-> Gen(d, o)]

RunOk ==
  /\ hs # "broken"
  /\ h' = IF hs = "absent" THEN Fresh(def) ELSE AfterRun(h, def)
  /\ hs' = "ok"
  /\ cf' = OnceAfter(cf, def, opt)
  /\ of' = OwnedAfter(def, opt)
  /\ leg' = {}
  /\ res' = "ok"
  /\ UNCHANGED <<def, opt, oth>>

(* A run that is rejected because of its inputs: the handler file does not *)
(* parse, or the definition handed to it is not acceptable.  The protocol  *)
(* code next to the proto files may already have been regenerated.         *)
Rejected(r) ==
  /\ of' \in {g \in [Owned -> {Gen(def, opt)} \cup Range(of)] :
                \A f \in Owned : g[f] = of[f] \/ (f \notin SvcOwned /\ g[f] = Gen(def, opt))}
  /\ res' = r
  /\ UNCHANGED <<def, opt, hs, h, cf, oth, leg>>
RunBroken == hs = "broken" /\ Rejected("rejected")
RunBadDef(kind) == Rejected(IF kind = "nosvc" THEN "noservice" ELSE "rejected")

--------------------------------------------------------------------------
(* The developer                                                           *)
Touch == res' = "none"

AddRpc(i, n, q, r) ==
  /\ Touch /\ i \in 1..(Len(def) + 1) /\ n \notin RpcNames(def)
  /\ def' = InsertAt(def, i, [n |-> n, q |-> q, r |-> r])
  /\ UNCHANGED <<opt, hs, h, cf, of, oth, leg>>
DropRpc(i) ==
  /\ Touch /\ i \in DOMAIN def /\ Len(def) > 1
  /\ def' = RemoveAt(def, i)
  /\ UNCHANGED <<opt, hs, h, cf, of, oth, leg>>
RetypeRpc(i, q, r) ==
  /\ Touch /\ i \in DOMAIN def /\ <<q, r>> # <<def[i].q, def[i].r>>
  /\ def' = [def EXCEPT ![i].q = q, ![i].r = r]
  /\ UNCHANGED <<opt, hs, h, cf, of, oth, leg>>
MoveRpc(i) ==
  /\ Touch /\ i \in DOMAIN def /\ i < Len(def)
  /\ def' = [def EXCEPT ![i] = def[i + 1], ![i + 1] = def[i]]
  /\ UNCHANGED <<opt, hs, h, cf, of, oth, leg>>
SetOpt(t, c) ==
  /\ Touch /\ <<opt.t, opt.c>> # <<t, c>>
  /\ opt' = [opt EXCEPT !.t = t, !.c = c]
  /\ UNCHANGED <<def, hs, h, cf, of, oth, leg>>
(* The definition is spread over two files: the service moves from one to the
   other, or they are given in another order.  "ba:a" stands for b.proto before
   a.proto, the service in a.proto.                                         *)
SetSplit(s) ==
  /\ Touch /\ opt.s # s
  /\ opt' = [opt EXCEPT !.s = s]
  /\ UNCHANGED <<def, hs, h, cf, of, oth, leg>>

AddDecl(i, d) ==
  /\ Touch /\ hs = "ok" /\ Len(h) < MaxDecl
  /\ i \in 2..(Len(h) + 1)          \* imports stay first
  /\ d.k = "meth" => d.n \notin Methods(h)
  /\ d.k = "ctor" => ~\E j \in DOMAIN h : h[j].k = "ctor"
  /\ h' = InsertAt(h, i, d)
  /\ UNCHANGED <<def, opt, hs, cf, of, oth, leg>>
EditDecl(i, b) ==
  /\ Touch /\ hs = "ok" /\ i \in DOMAIN h
  /\ h[i].k # "cmt" /\ h[i].b # b
  /\ h' = [h EXCEPT ![i].b = b]
  /\ UNCHANGED <<def, opt, hs, cf, of, oth, leg>>
DelDecl(i) ==
  /\ Touch /\ hs = "ok" /\ i \in DOMAIN h /\ i > 1
  /\ h' = RemoveAt(h, i)
  /\ UNCHANGED <<def, opt, hs, cf, of, oth, leg>>
SwapDecl(i) ==
  /\ Touch /\ hs = "ok" /\ i \in DOMAIN h /\ i > 1 /\ i < Len(h)
  /\ h' = [h EXCEPT ![i] = h[i + 1], ![i + 1] = h[i]]
  /\ UNCHANGED <<def, opt, hs, cf, of, oth, leg>>
BreakHandler ==
  /\ Touch /\ hs = "ok" /\ hs' = "broken"
  /\ UNCHANGED <<def, opt, h, cf, of, oth, leg>>
MendHandler ==
  /\ Touch /\ hs = "broken" /\ hs' = "ok"
  /\ UNCHANGED <<def, opt, h, cf, of, oth, leg>>
DelHandler ==
  /\ Touch /\ hs = "ok" /\ hs' = "absent" /\ h' = <<>>
  /\ UNCHANGED <<def, opt, cf, of, oth, leg>>

EditOnce(f, n) ==
  /\ Touch /\ cf[f].k # "absent" /\ cf[f] # User(n)
  /\ cf' = [cf EXCEPT ![f] = User(n)]
  /\ UNCHANGED <<def, opt, hs, h, of, oth, leg>>
DelOnce(f) ==
  /\ Touch /\ cf[f].k # "absent"
  /\ cf' = [cf EXCEPT ![f] = Absent]
  /\ UNCHANGED <<def, opt, hs, h, of, oth, leg>>
Tamper(f, n) ==
  /\ Touch /\ of[f].k # "absent"
  /\ of' = [of EXCEPT ![f] = User(n)]
  /\ UNCHANGED <<def, opt, hs, h, cf, oth, leg>>
DelOwned(f) ==
  /\ Touch /\ of[f].k # "absent"
  /\ of' = [of EXCEPT ![f] = Absent]
  /\ UNCHANGED <<def, opt, hs, h, cf, oth, leg>>
PutOther(f, n) ==
  /\ Touch /\ oth[f] # n
  /\ oth' = [oth EXCEPT ![f] = n]
  /\ UNCHANGED <<def, opt, hs, h, cf, of, leg>>
(* a part of the project is moved elsewhere and a symbolic link left in its
   place: nothing the tool should notice *)
Places == {"cwd", "svc", "service", "server", "cmd", "handler"}
Relink(x) == x \in Places /\ Touch /\ UNCHANGED <<def, opt, hs, h, cf, of, oth, leg>>
PutLegacy(x) ==
  /\ Touch /\ x \notin leg
  /\ leg' = leg \cup {x}
  /\ UNCHANGED <<def, opt, hs, h, cf, of, oth>>
(* everything of an earlier version, and files of the developer all around it *)
Clutter(n) ==
  /\ Touch /\ oth' = [f \in Other |-> n] /\ leg' = Legacy /\ <<oth, leg>> # <<oth', leg'>>
  /\ UNCHANGED <<def, opt, hs, h, cf, of>>

--------------------------------------------------------------------------
Init ==
  /\ \E n \in Names, q \in QTypes, r \in RTypes : def = <<[n |-> n, q |-> q, r |-> r]>>
  /\ opt \in [t : Transports, c : BOOLEAN, s : Splits]
  /\ hs = "absent" /\ h = <<>>
  /\ cf = [f \in Once |-> Absent]
  /\ of = [f \in Owned |-> Absent]
  /\ oth = [f \in Other |-> 0]
  /\ leg = {}
  /\ res = "none"

UserKinds == {"gen", "ufn", "cmt", "exp"}
DevelopDef ==
  \/ \E i \in 1..(Len(def) + 1), n \in Names, q \in QTypes, r \in RTypes : AddRpc(i, n, q, r)
  \/ \E i \in DOMAIN def : DropRpc(i) \/ MoveRpc(i)
  \/ \E i \in DOMAIN def, q \in QTypes, r \in RTypes : RetypeRpc(i, q, r)
EditHandler ==
  \/ \E i \in 2..(Len(h) + 1), b \in 1..MaxBody :
        \/ \E k \in UserKinds : AddDecl(i, Plain(k, b))
        \/ AddDecl(i, Plain("ctor", b))
        \/ \E n \in Names, q \in QTypes, r \in RTypes : AddDecl(i, Meth(n, q, r, b))
  \/ \E i \in DOMAIN h : DelDecl(i) \/ SwapDecl(i) \/ \E b \in 1..MaxBody : EditDecl(i, b)
DevelopHandler == EditHandler \/ BreakHandler \/ MendHandler \/ DelHandler
DevelopFiles ==
  \/ \E t \in Transports, c \in BOOLEAN : SetOpt(t, c)
  \/ \E s \in Splits : SetSplit(s)
  \/ \E f \in Once : DelOnce(f) \/ \E n \in 1..MaxBody : EditOnce(f, n)
  \/ \E f \in Owned : DelOwned(f) \/ \E n \in 1..MaxBody : Tamper(f, n)
  \/ \E f \in Other, n \in 0..MaxBody : PutOther(f, n)
  \/ \E x \in Legacy : PutLegacy(x)
  \/ \E n \in 1..MaxBody : Clutter(n)
Develop == DevelopDef \/ DevelopHandler \/ DevelopFiles

BadDefs == {"syntax", "unsupported", "nosvc", "import", "type", "truncated",
            "nofile", "noplugin", "nogrpc", "noprotoc"}
Runs == RunOk \/ RunBroken \/ \E k \in BadDefs : RunBadDef(k)
Next == Develop \/ Runs
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* Properties.  They are stated over runs as observed, independently of    *)
(* how AfterRun is written.                                                *)
TypeOK ==
  /\ hs \in {"absent", "ok", "broken"}
  /\ \A i \in DOMAIN h : h[i].k \in Kinds /\ h[i].b \in 0..MaxBody
  /\ (hs = "absent") => h = <<>>

(* C01: the protected declarations of the file, with signatures blanked,   *)
(* are the same sequence before and after, followed only by stubs.         *)
Blank(s) == [i \in DOMAIN s |-> [k |-> s[i].k, n |-> s[i].n, b |-> s[i].b]]
Protected(s, D) == SelectSeq(s, LAMBDA d : ~(d.k = "exp" \/ (d.k = "meth" /\ d.n \notin RpcNames(D))))
RunHappened == res' # "none"
UserCodeKept ==
  [][RunHappened /\ hs # "absent" =>
       LET p == Blank(Protected(h, def)) IN
       IF res' = "ok"
       THEN /\ Len(h') >= Len(p)
            /\ SubSeq(Blank(h'), 1, Len(p)) = p
            /\ \A i \in (Len(p) + 1)..Len(h') : h'[i].k = "meth" /\ h'[i].b = 0
       ELSE h' = h /\ hs' = hs]_vars

(* C02 *)
HandlerInSync ==
  res = "ok" =>
    /\ Methods(h) = RpcNames(def)
    /\ \A i, j \in DOMAIN h : h[i].k = "meth" /\ h[j].k = "meth" /\ h[i].n = h[j].n => i = j
    /\ \A i \in DOMAIN h : h[i].k = "meth" =>
          h[i].q = RpcOf(def, h[i].n).q /\ h[i].r = RpcOf(def, h[i].n).r
    /\ \A i \in DOMAIN h : h[i].k # "exp"
PosIn(D, n) == CHOOSE i \in DOMAIN D : D[i].n = n
StubsInDefinitionOrder ==
  [][res' = "ok" =>
       \A i, j \in DOMAIN h' :
          (h'[i].k = "meth" /\ h'[j].k = "meth" /\ i < j
           /\ h'[i].n \notin Methods(h) /\ h'[j].n \notin Methods(h))
          => PosIn(def, h'[i].n) < PosIn(def, h'[j].n)]_vars

(* C03 *)
OnceKept ==
  [][RunHappened => /\ \A f \in Once : cf[f].k # "absent" => cf'[f] = cf[f]
                    /\ oth' = oth
                    /\ \A f \in Once : cf[f].k = "absent" /\ cf'[f].k # "absent" => cf'[f].k = "gen"]_vars
OnceCreated == res = "ok" => \A f \in Once : Wanted(f, opt) => cf[f].k # "absent"

(* C04 *)
OwnedFresh == res = "ok" => \A f \in Owned : of[f] = Gen(def, opt)

(* C05 *)
Idempotent == hs = "ok" => AfterRun(AfterRun(h, def), def) = AfterRun(h, def)

(* C06, inputs part *)
RejectedHarmless ==
  [][res' \in {"rejected", "noservice"} =>
       /\ UNCHANGED <<hs, h, cf, oth, leg>>
       /\ \A f \in SvcOwned : of'[f] = of[f]]_vars
=============================================================================
