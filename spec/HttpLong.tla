------------------------------ MODULE HttpLong ------------------------------
(* Long messages: lists of a length far beyond those of the other models, of
   every kind of scalar, in every place of a request and in the answer, over
   every transport.  An RPC for every type.                                  *)
EXTENDS HttpGen
CONSTANTS Lens, Mode
VARIABLES len, loc, at
vars == <<len, loc, at>>
TS == <<"double", "float", "int32", "int64", "uint32", "uint64", "sint64", "fixed32", "bool", "string", "bytes", "@1", "@2">>
F(n, t, r) == [n |-> n, c |-> "rep", t |-> t, r |-> r, key |-> "", oo |-> ""]
Tested(k) == F("xs", IF At(TS[k], 1) = "@" THEN "@" ELSE TS[k], IF TS[k] = "@1" THEN 1 ELSE IF TS[k] = "@2" THEN 2 ELSE 0)
Def0 == [types |-> <<[n |-> "Kind", k |-> "enum", up |-> 0, file |-> 1, f |-> <<>>],
                     [n |-> "Sub", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("t", "string", 0)>>]>>
                   \o [k \in 1..Len(TS) |-> [n |-> "R" \o ToString(k), k |-> "msg", up |-> 0, file |-> 1, f |-> <<Tested(k), F("ys", "string", 0)>>]], files |-> 1,
         svc |-> [n |-> "Long", file |-> 1, rpcs |-> [k \in 1..Len(TS) |-> [n |-> "Do" \o ToString(k), q |-> 2 + k, s |-> 2 + k, x |-> "", bs |-> <<>>]]]]
Bound(k) == [verb |-> "put", path |-> <<[k |-> "lit", v |-> "p" \o ToString(k), pre |-> "", post |-> ""]>>, body |-> IF loc = "query" THEN "" ELSE IF loc = "body" THEN "xs" ELSE "*"]
D == [Def0 EXCEPT !.svc.rpcs = [k \in 1..Len(TS) |-> [@[k] EXCEPT !.bs = <<Bound(k)>>]]]
(* texts that commas and brackets stand in can only be listed as parameters or as JSON *)
Tame == SelectSeq(Strings, LAMBDA x : Commable(D, F("ys", "string", 0), <<x.v>>) /\ x.v # "")
Tab(k) == IF TS[k] = "@2" THEN <<NoFields, [t |-> <<"a">>], [t |-> <<"/", "">>]>>
          ELSE IF TS[k] = "string" /\ Mode = "list" THEN [i \in 1..Len(Tame) |-> Tame[i].v]
          ELSE LET t == IF TS[k] \in {"float", "double"} THEN SelectSeq(Table(D, Tested(k)), LAMBDA x : x.v \notin {"NaN", "+Inf", "-Inf"}) ELSE Table(D, Tested(k))
               IN [i \in 1..Len(t) |-> t[i].v]
List(k) == LET t == TLCEval(Tab(k)) IN TLCEval([i \in 1..len |-> t[1 + ((i + len) % Len(t))]])
M(k) == [xs |-> List(k), ys |-> <<"a", "/">>]
Short(k) == [xs |-> <<Tab(k)[1]>>]
Concat(ss) == LET RECURSIVE R(_)
                  R(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o R(i + 1) IN R(1)
ListCalls(k) == LET f == Tested(k) fs == FieldsOf(D, k) v == List(k)
    one(form) == IF form \in Forms(D, f, v) THEN <<Raw("PUT", PathOf(D, fs, Bound(k), NoFields), ListParams(D, f, v, form), "") @@ Want(D, k, [xs |-> v]) @@ [why |-> form]>> ELSE <<>>
  IN IF IsListParam(D, f) THEN one("params") \o one("comma") \o one("json") ELSE <<>>
Calls == Concat([k \in 1..Len(TS) |->
   CASE Mode = "http" -> <<HttpCall(D, k, M(k), Short(k)), HttpCall(D, k, Short(k), M(k))>>
     [] Mode = "raw" -> RawFor(D, k, 1, M(k), "good")
     [] Mode = "list" -> ListCalls(k)
     [] OTHER -> <<RpcCall(D, k, Mode, M(k), Short(k)), RpcCall(D, k, Mode, Short(k), M(k))>>])
Least == CHOOSE l \in Lens : \A m \in Lens : l <= m
Init == len \in Lens /\ loc \in (IF Mode = "list" THEN {"query"} ELSE IF Mode \in {"grpc", "nats"} THEN {"all"} ELSE {"query", "body", "all"}) /\ at = "new"
Next == at = "new" /\ at' = "done" /\ UNCHANGED <<len, loc>>
Spec == Init /\ [][Next]_vars
Emit == at = "done" => PrintT("@@" \o ToJson([calls |-> Calls, loc |-> loc])) /\ (len = Least => PrintT("@@" \o ToJson([d |-> D, loc |-> loc, transport |-> "all", client |-> FALSE])))
Sound == WellFormed(Def0) /\ Servable(D)
ReadBack == at = "new" => \A k \in 1..Len(TS) : RoundTrip(D, k, M(k)) /\ OncePlaced(D, k, M(k))
=============================================================================
