------------------------------- MODULE Server -------------------------------
(* The generated server: what it is configured to listen on, how its listeners
   come up, and what ends it.

   inp: t the transport option, http whether an RPC has an HTTP binding,
        fl the flags given (name -> value), env the environment variables set.
   Addresses are symbols: busy is taken, bad is malformed, dead is a broker
   that does not answer, nat1 and nat2 are brokers, others are free; port p is
   the address "p" on every interface.

   Faults (refuted): "env" the environment wins over a flag, "swallow" a
   listener that fails does not end the server, "deaf" SIGTERM is not heard,
   "extra" every transport is served whatever was generated.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Fault, Pool
VARIABLES inp, at, st, bound, run, sig
vars == <<inp, at, st, bound, run, sig>>

Given(f, n) == n \in DOMAIN f
Or(a, b) == IF a # "" THEN a ELSE b
Env(i, n) == IF Given(i.env, n) THEN i.env[n] ELSE ""
Choose(i, flag, fromEnv) == IF Fault = "env" THEN Or(fromEnv, IF Given(i.fl, flag) THEN i.fl[flag] ELSE "")
                            ELSE IF Given(i.fl, flag) THEN i.fl[flag] ELSE fromEnv
Addr(i, t) ==
  CASE t = "http" -> Choose(i, "http.addr", Or(Env(i, "HTTP_ADDR"), Env(i, "PORT")))
    [] t = "grpc" -> Choose(i, "grpc.addr", Env(i, "GRPC_ADDR"))
    [] t = "nats" -> Choose(i, "nats.addr", Env(i, "NATS_ADDR"))
    [] t = "debug" -> Choose(i, "debug.addr", Or(Env(i, "DEBUG_ADDR"), "default"))
Debug(i) == IF Given(i.fl, "debug") THEN i.fl["debug"] = "true" ELSE Env(i, "DEBUG") \in {"true", "TRUE", "True"}
Generated(i, t) ==
  CASE t = "http" -> i.http
    [] t \in {"grpc", "nats"} -> i.t \in {"", "all", t} \/ Fault = "extra"
    [] t = "debug" -> TRUE
Ts == {"http", "grpc", "nats", "debug"}
(* an empty debug address is port 80 to net/http; not explored *)
Wanted(i) == {t \in Ts : Generated(i, t) /\ (IF t = "debug" THEN Debug(i) ELSE Addr(i, t) # "")}

Brokers == {"nat1", "nat2"}
Unusable(a) == a \in {"busy", "bad", "dead"}
(* what comes of it when nobody stops it *)
Fails(i) == \/ \E t \in Wanted(i) : Unusable(Addr(i, t))
            \/ \E t, u \in Wanted(i) \ {"nats"} : t # u /\ Addr(i, t) = Addr(i, u)
Reach(i) == {[t |-> t, a |-> Addr(i, t)] : t \in Wanted(i)}

(* ---- inputs *)
Fn(names, values) == UNION {[s -> values] : s \in SUBSET names}
Merge(a, b) == a @@ b
None == [x \in {} |-> ""]
OneOf(n, vs) == {None} \cup {(n :> v) : v \in vs}
In(t, h, fl, env) == [t |-> t, http |-> h, fl |-> fl, env |-> env]
HttpIn == {<<f, Merge(e, p)>> : f \in OneOf("http.addr", {"", "h1", "busy"}), e \in OneOf("HTTP_ADDR", {"", "h2", "busy", "bad"}), p \in OneOf("PORT", {"", "p1", "busy"})}
GrpcIn == {<<f, e>> : f \in OneOf("grpc.addr", {"", "g1", "busy"}), e \in OneOf("GRPC_ADDR", {"", "g2", "busy", "bad"})}
NatsIn == {<<f, e>> : f \in OneOf("nats.addr", {"", "nat1", "dead"}), e \in OneOf("NATS_ADDR", {"", "nat2", "dead"})}
DebugIn == {<<Merge(f, a), Merge(e, b)>> : f \in OneOf("debug", {"true", "false"}), a \in OneOf("debug.addr", {"d1", "busy"}),
             e \in OneOf("DEBUG", {"", "true", "True", "TRUE", "false", "1"}), b \in OneOf("DEBUG_ADDR", {"", "d2"})}
Rest == In("all", TRUE, None, ("HTTP_ADDR" :> "h3") @@ ("GRPC_ADDR" :> "g3") @@ ("NATS_ADDR" :> "nat1"))
Over(base, x) == [base EXCEPT !.fl = Merge(x[1], @), !.env = Merge(x[2], @)]
NoAddr == In("all", TRUE, None, None)
Groups == {Over(b, x) : b \in {Rest, NoAddr}, x \in HttpIn \cup GrpcIn \cup NatsIn} \cup {Over(NoAddr, x) : x \in DebugIn}
          \cup {[Over(b, x) EXCEPT !.t = tt, !.http = h] : b \in {Rest}, x \in {<<None, None>>, <<("debug" :> "true"), None>>}, tt \in {"", "all", "grpc", "nats"}, h \in BOOLEAN}
(* any transports with an address, with debugging or not, of any generated code *)
AddrSets == {[n \in S |-> CASE n = "http.addr" -> "h1" [] n = "grpc.addr" -> "g1" [] n = "nats.addr" -> "nat1" [] OTHER -> "true"] : S \in SUBSET {"http.addr", "grpc.addr", "nats.addr", "debug"}}
EnvSets == {[n \in S |-> CASE n = "HTTP_ADDR" -> "h1" [] n = "GRPC_ADDR" -> "g1" [] n = "NATS_ADDR" -> "nat1" [] OTHER -> "true"] : S \in SUBSET {"HTTP_ADDR", "GRPC_ADDR", "NATS_ADDR", "DEBUG"}}
Product == {In(tt, h, f, None) : tt \in {"", "all", "grpc", "nats"}, h \in BOOLEAN, f \in AddrSets} \cup {In("all", TRUE, None, e) : e \in EnvSets}
PickOf(q, S) == RandomElement(S)
RandIn(q) ==
  LET h == PickOf(q, {<<f, Merge(e, p)>> : f \in OneOf("http.addr", {"", "h1", "s1", "busy"}), e \in OneOf("HTTP_ADDR", {"h2", "s1", "bad"}), p \in OneOf("PORT", {"p1"})})
      g == PickOf(q + 1, {<<f, e>> : f \in OneOf("grpc.addr", {"", "g1", "s1"}), e \in OneOf("GRPC_ADDR", {"", "g2", "s1", "busy"})})
      n == PickOf(q + 2, NatsIn)
      d == PickOf(q + 3, DebugIn)
  IN Over(Over(Over(Over(In(PickOf(q, {"", "all", "all", "grpc", "nats"}), PickOf(q, {TRUE, TRUE, FALSE}), None, None), h), g), n), d)

(* ---- the server *)
Init == inp = NoAddr /\ at = "pick" /\ st = [t \in Ts |-> "off"] /\ bound = {} /\ run = "no" /\ sig = FALSE
Take == at = "pick" /\ at' = "go" /\ (IF Pool = "random" THEN inp' = RandIn(TLCGet("level")) ELSE inp' \in Groups \cup Product)
        /\ st' = [t \in Ts |-> IF t \in Wanted(inp') THEN "starting" ELSE "off"] /\ run' = "yes" /\ UNCHANGED <<bound, sig>>
Taken(a) == Unusable(a) \/ a \in bound
Up(t) == run = "yes" /\ st[t] = "starting" /\
  LET a == Addr(inp, t) IN
  IF Taken(a) THEN st' = [st EXCEPT ![t] = "failed"] /\ UNCHANGED bound
  ELSE st' = [st EXCEPT ![t] = "up"] /\ bound' = IF a \in Brokers THEN bound ELSE bound \cup {a}
Start(t) == Up(t) /\ UNCHANGED <<inp, at, run, sig>>
Signal == run = "yes" /\ ~sig /\ sig' = TRUE /\ UNCHANGED <<inp, at, st, bound, run>>
Failed == \E t \in Ts : st[t] = "failed"
Exit == run = "yes" /\ ((sig /\ Fault # "deaf") \/ (Failed /\ Fault # "swallow")) /\ run' = "over" /\ st' = [t \in Ts |-> "off"] /\ bound' = {} /\ UNCHANGED <<inp, at, sig>>
Next == Take \/ (\E t \in Ts : Start(t)) \/ Signal \/ Exit
Spec == Init /\ [][Next]_vars /\ \A t \in Ts : WF_vars(Start(t)) /\ WF_vars(Exit)

(* ---- properties *)
Listening == {t \in Ts : st[t] = "up"}
OnlySelected == at = "go" => \A t \in Listening : /\ t \in {"http", "debug"} \/ inp.t \in {"", "all", t}
                                                  /\ t = "http" => inp.http
                                                  /\ t # "debug" => Addr(inp, t) # ""
FlagsWin == at = "go" => \A t \in Listening : Given(inp.fl, t \o ".addr") => Addr(inp, t) = inp.fl[t \o ".addr"]
OneOwner == \A t, u \in Listening \ {"nats"} : t # u => Addr(inp, t) # Addr(inp, u)
(* it stays until told to stop *)
StaysUp == run = "over" => sig \/ Fails(inp)
Stops == (sig \/ Failed) ~> (run = "over")
(* undisturbed, it ends up as predicted *)
Settles == (at = "go" /\ ~Fails(inp)) ~> (Listening = Wanted(inp) \/ sig)
Ends == (at = "go" /\ Fails(inp)) ~> (run = "over")

(* ---- what it is run with *)
Bind(v, p) == [verb |-> v, path |-> <<[k |-> "lit", v |-> p, pre |-> "", post |-> ""]>>, body |-> IF v = "get" THEN "" ELSE "*"]
DefFor(h) == [types |-> <<[n |-> "Msg", k |-> "msg", up |-> 0, file |-> 1, f |-> <<>>]>>, files |-> 1, svc |-> [n |-> "Served_it", file |-> 1, rpcs |->
   <<[n |-> "Do", q |-> 1, s |-> 1, x |-> "", bs |-> IF h THEN <<Bind("get", "do")>> ELSE <<>>],
     [n |-> "get_it", q |-> 1, s |-> 1, x |-> "", bs |-> IF h THEN <<Bind("post", "it"), Bind("put", "it2")>> ELSE <<>>],
     [n |-> "X_Y", q |-> 1, s |-> 1, x |-> "", bs |-> <<>>]>>]]
Rpcs == [http |-> <<"Do", "GetIt">>, grpc |-> <<"Do", "GetIt", "X_Y">>, nats |-> <<"Do", "GetIt", "X_Y">>]
(* every call goes through the options of its transport, the wrapped endpoint and the wrapped service *)
RunsInto(t, r) == <<"option " \o t, "endpoint " \o r, "service " \o r>>
CallOf(i) == [t |-> "serve", fl |-> i.fl, env |-> i.env, ends |-> Fails(i), reach |-> IF Fails(i) THEN {} ELSE Reach(i), rpcs |-> Rpcs,
              stop |-> RandomElement({"INT", "TERM"}),
              into |-> [x \in {t \o " " \o r : t \in {"http", "grpc", "nats"}, r \in {"Do", "GetIt", "X_Y"}} |->
                        CHOOSE l \in {RunsInto(t, r) : t \in {"http", "grpc", "nats"}, r \in {"Do", "GetIt", "X_Y"}} : \E t \in {"http", "grpc", "nats"}, r \in {"Do", "GetIt", "X_Y"} : x = t \o " " \o r /\ l = RunsInto(t, r)]]
Fresh == at = "go" /\ run = "yes" /\ ~sig /\ \A t \in Ts : st[t] \in {"off", "starting"}
Emit == Fresh => PrintT("@@" \o ToJson([d |-> DefFor(inp.http), transport |-> inp.t, client |-> FALSE, serve |-> TRUE, calls |-> <<CallOf(inp)>>]))
Short == at = "pick"
=============================================================================
