----------------------------- MODULE HttpMatrix -----------------------------
(* Every type in every form in every place of a request, with every value of
   the tables: a definition for every form and place, an RPC for every type. *)
EXTENDS HttpGen
CONSTANTS Deep, Mode
VARIABLES c, loc, verb, at
vars == <<c, loc, verb, at>>

Forms5 == {"one", "opt", "rep", "map", "oneof"}
TS == <<"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
        "bool", "string", "bytes", "@1", "@2", "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.Any",
        "google.protobuf.Struct", "google.protobuf.StringValue", "google.protobuf.Empty">>
KEYS == <<"string", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool">>
F(n, cc, t, r, key, oo) == [n |-> n, c |-> cc, t |-> t, r |-> r, key |-> key, oo |-> oo]
Tested(k) == LET t == TS[k] at1 == At(t, 1) = "@" IN
  F("f_x", IF c = "oneof" THEN "one" ELSE c, IF at1 THEN "@" ELSE t, IF t = "@1" THEN 1 ELSE IF t = "@2" THEN 2 ELSE 0,
    IF c = "map" THEN KEYS[1 + (k % Len(KEYS))] ELSE "", IF c = "oneof" THEN "pick" ELSE "")
\* a text beside the tested field, under names that failures and frames go by as well
TEXTS == <<"before", "error", "err", "code", "message", "status", "Error", "data">>
Beside(k) == TEXTS[1 + (k % Len(TEXTS))]
MsgFields(k) == <<F(Beside(k), "one", "string", 0, "", ""), Tested(k)>>
   \o (IF c = "oneof" THEN <<F("other", "one", "int32", 0, "", "pick")>> ELSE <<>>) \o <<F("after", "rep", "int64", 0, "", "")>>
Base == <<[n |-> "Kind", k |-> "enum", up |-> 0, file |-> 1, f |-> <<>>],
          [n |-> "Sub", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("s_a", "one", "string", 0, "", ""), F("kind", "opt", "@", 1, "", ""), F("sub", "one", "@", 2, "", ""),
             F("ns", "rep", "fixed64", 0, "", ""), F("m", "map", "@", 2, "string", "")>>]>>
Def0 == [types |-> Base \o [k \in 1..Len(TS) |-> [n |-> "R" \o ToString(k), k |-> "msg", up |-> 0, file |-> 1, f |-> MsgFields(k)]], files |-> 1,
         svc |-> [n |-> "Matrix", file |-> 1, rpcs |-> [k \in 1..Len(TS) |-> [n |-> "Do" \o ToString(k), q |-> 2 + k, s |-> 2 + k, x |-> "", bs |-> <<>>]]]]
Lit(v) == [k |-> "lit", v |-> v, pre |-> "", post |-> ""]
Var(v) == [k |-> "var", v |-> v, pre |-> "", post |-> ""]
Bound(k) == LET path == IF loc = "path" THEN <<Lit("p" \o ToString(k)), Var("f_x"), Lit("end")>> ELSE <<Lit("p" \o ToString(k))>> IN
  [verb |-> verb, path |-> path, body |-> IF loc = "body" THEN (IF Tested(k).oo # "" THEN "pick" ELSE "f_x") ELSE IF loc = "all" THEN "*" ELSE ""]
Can(k) == loc # "path" \/ InPath(Def0, Tested(k))
D == [Def0 EXCEPT !.svc.rpcs = [k \in 1..Len(TS) |-> [@[k] EXCEPT !.bs = IF Can(k) THEN <<Bound(k)>> ELSE <<>>]]]

(* the values to try *)
SubVals == <<NoFields, [s_a |-> "a,b"], [kind |-> "0", sub |-> [s_a |-> "\\\"q\\\"", sub |-> NoFields]],
             [ns |-> <<"18446744073709551615", "0">>, m |-> <<<<"", NoFields>>, <<"/", [kind |-> "-2"]>>>>]>>
Vals(k) == IF TS[k] = "@2" THEN SubVals ELSE LET t == Table(Def0, Tested(k)) IN [i \in 1..Len(t) |-> t[i].v]
KeyVals(k) == LET t == VALUES[Tested(k).key] IN [i \in 1..Len(t) |-> t[i].v]
FieldVals(k) ==
  LET v == Vals(k) n == Len(v) IN
  CASE c = "rep" -> [i \in 1..n |-> <<v[i]>>] \o [i \in 1..n |-> <<v[i], v[1 + (i % n)]>>] \o <<v>> \o (IF Deep THEN [i \in 1..n |-> <<v[1], v[i], v[i]>>] ELSE <<>>)
    [] c = "map" -> [i \in 1..n |-> <<<<KeyVals(k)[1 + (i % Len(KeyVals(k)))], v[i]>>>>]
                    \o <<[i \in 1..Len(KeyVals(k)) |-> <<KeyVals(k)[i], v[1 + (i % n)]>>]>>
    [] OTHER -> v
MsgsOf(k) == LET vs == FieldVals(k) f == Tested(k)
                 base(i) == IF i % 3 = 0 THEN NoFields ELSE IF i % 3 = 1 THEN (Beside(k) :> "?x=1&y=2") ELSE (("after" :> <<"1", "-1">>) @@ (Beside(k) :> "+")) IN
   <<IF loc = "path" /\ f.c = "opt" THEN NoFields ELSE NoFields>>
   \o (IF c = "oneof" THEN <<[other |-> "0"], ("other" :> "42") @@ (Beside(k) :> "a")>> ELSE <<>>)
   \o [i \in 1..Len(vs) |-> IF ~HasPresence(Def0, f) /\ f.c = "one" /\ vs[i] = Zero(Def0, f) THEN base(i) ELSE With(base(i), "f_x", vs[i])]
Concat(ss) == LET RECURSIVE R(_)
                  R(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o R(i + 1) IN R(1)
(* the forms in which a list may stand in the query *)
BodyT(k, m) == BodyText(D, FieldsOf(D, k), Bound(k), Restrict(m, FieldsIn(FieldsOf(D, k), Bound(k), "body")))
ListCalls(k) == LET f == Tested(k) fs == FieldsOf(D, k) vs == FieldVals(k)
    one(v, form) == Raw(Upper(verb), PathOf(D, fs, Bound(k), NoFields), ListParams(D, f, v, form), "") @@ Want(D, k, With(NoFields, "f_x", v)) @@ [why |-> form]
    none(q) == Raw(Upper(verb), PathOf(D, fs, Bound(k), NoFields), q, "") @@ Want(D, k, NoFields) @@ [why |-> "none"]
    ok(v) == [x \in {"params", "comma", "json", "spaced"} |-> IF x \in Forms(D, f, v) THEN <<one(v, x)>> ELSE <<>>] IN
  IF ~IsListParam(D, f) THEN <<>> ELSE
  <<none(<<>>), none(<<"f_x=">>), none(<<"f_x=%5B%5D">>)>> \o Concat([i \in 1..Len(vs) |-> ok(vs[i])["params"] \o ok(vs[i])["comma"] \o ok(vs[i])["json"] \o ok(vs[i])["spaced"]])
Calls == Concat([k \in 1..Len(TS) |-> IF ~Can(k) THEN <<>> ELSE
   LET ms == MsgsOf(k) fs == FieldsOf(D, k) b == Bound(k) IN
   CASE Mode = "http" -> [i \in 1..Len(ms) |-> HttpCall(D, k, ms[i], ms[i])]
     [] Mode \in {"grpc", "nats"} -> [i \in 1..Len(ms) |-> RpcCall(D, k, Mode, ms[i], ms[i])]
     [] Mode = "raw" -> Concat([i \in 1..Len(ms) |-> IF ~CallOk(D, fs, b, ms[i]) THEN <<>> ELSE
            LET RECURSIVE Each(_)
                Each(x) == IF x > Len(Kinds) THEN <<>> ELSE LET r == RawFor(D, k, 1, ms[i], Kinds[x]) IN (IF r = <<>> THEN <<>> ELSE <<r[1] @@ [why |-> Kinds[x]]>>) \o Each(x + 1)
            IN Each(IF i <= 4 THEN 3 ELSE 6)])
     [] OTHER -> ListCalls(k)])
Wanted == /\ (loc = "path" => c \in {"one", "opt"})
          /\ (Mode \in {"grpc", "nats"} => loc = "all")
          /\ (Mode = "list" => c = "rep" /\ loc = "query")
Init == c \in Forms5 /\ loc \in {"path", "query", "body", "all"} /\ verb \in (IF Deep \/ Mode = "list" THEN {"get", "put", "post", "delete", "patch", "PURGE"} ELSE {"post"})
        /\ Wanted /\ at = "new"
Next == at = "new" /\ at' = "done" /\ UNCHANGED <<c, loc, verb>>
Spec == Init /\ [][Next]_vars
Emit == at = "done" => PrintT("@@" \o ToJson([d |-> D, transport |-> "all", client |-> FALSE, calls |-> Calls]))
Sound == WellFormed(Def0) /\ Servable(D)
ReadBack == at = "new" => \A k \in 1..Len(TS) : Can(k) => \A i \in 1..Len(MsgsOf(k)) : RoundTrip(D, k, MsgsOf(k)[i]) /\ OncePlaced(D, k, MsgsOf(k)[i])
=============================================================================
