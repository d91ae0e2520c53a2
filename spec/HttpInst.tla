------------------------------ MODULE HttpInst ------------------------------
(* Where a client finds the server: an instance names a host and port, with a
   scheme before them or not.  Whatever the host is called, calls reach it.   *)
EXTENDS HttpGen
CONSTANTS Pieces, HostLen,
          By              \* "scheme": an instance without a scheme gets one;
                          \* "prefix": one that does not begin like a scheme gets one
VARIABLES host, scheme, port
vars == <<host, scheme, port>>
Sep == {"-", "."}
Hosts == {h \in UNION {[1..m -> Pieces] : m \in 1..HostLen} :
            h[1] \notin Sep /\ h[Len(h)] \notin Sep /\ \A i \in 1..(Len(h) - 1) : ~(h[i] \in Sep /\ h[i + 1] \in Sep)}
Init == host \in Hosts /\ scheme \in {<<>>, <<"http", "://">>} /\ port \in {<<>>, <<":", "8080">>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Instance == scheme \o host \o port
HasScheme(t) == \E i \in 1..Len(t) : t[i] = "://"
Url(t) == IF (IF By = "scheme" THEN HasScheme(t) ELSE t[1] = "http") THEN t ELSE <<"http", "://">> \o t
Parsed(t) == IF HasScheme(t)
             THEN LET i == CHOOSE i \in 1..Len(t) : t[i] = "://" IN [scheme |-> SubSeq(t, 1, i - 1), host |-> SubSeq(t, i + 1, Len(t))]
             ELSE [scheme |-> <<>>, host |-> <<>>]
Reached == Parsed(Url(Instance)) = [scheme |-> <<"http">>, host |-> host \o port]

Said(t) == LET RECURSIVE R(_)
               R(i) == IF i > Len(t) THEN "" ELSE t[i] \o R(i + 1) IN R(1)
F(n, c) == [n |-> n, c |-> c, t |-> "string", r |-> 0, key |-> "", oo |-> ""]
Lit(v) == [k |-> "lit", v |-> v, pre |-> "", post |-> ""]
Var(v) == [k |-> "var", v |-> v, pre |-> "", post |-> ""]
B(v, p, b) == [verb |-> v, path |-> p, body |-> b]
D == [types |-> <<[n |-> "Msg", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("a", "one"), F("b", "opt"), F("c", "rep")>>]>>, files |-> 1,
      svc |-> [n |-> "Where", file |-> 1, rpcs |-> <<
        [n |-> "Get", q |-> 1, s |-> 1, x |-> "", bs |-> <<B("get", <<Lit("v"), Var("a")>>, "")>>],
        [n |-> "Put", q |-> 1, s |-> 1, x |-> "", bs |-> <<B("put", <<Lit("v2")>>, "*")>>]>>]]
M == [a |-> "a/b", b |-> "+", c |-> <<"a", ",">>]
At2 == [inst |-> Said(Instance), host |-> Said(host \o port)]
Calls == <<HttpCall(D, 1 + ((Len(host) + Len(port)) % 2), M, M) @@ At2>>
Emit == PrintT("@@" \o ToJson([calls |-> Calls])) /\ (Len(host) = 1 /\ host[1] = "http" /\ scheme = <<>> /\ port = <<>> => PrintT("@@" \o ToJson([d |-> D, transport |-> "all", client |-> FALSE])))
Sound == WellFormed(D) /\ Servable(D)
=============================================================================
