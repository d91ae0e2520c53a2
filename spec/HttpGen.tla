------------------------------ MODULE HttpGen -------------------------------
(* Random messages of a definition, and the requests and calls made of them. *)
EXTENDS Http

Pick(S) == RandomElement(S)
PickSeq(s) == s[Pick(1..Len(s))]

(* A value of a field.  d bounds the nesting.  Every value is built by appending:
   a function constructor would pick anew each time it is looked at. *)
RECURSIVE RandMsg(_, _, _, _, _), RandOne(_, _, _), RandList(_, _, _, _), RandMap(_, _, _, _)
RandOne(D, f, d) == IF Kind(D, f) = "msg" THEN RandMsg(D, D.types[f.r].f, 1, NoFields, d - 1) ELSE PickSeq(Table(D, f)).v
RandList(D, f, d, n) == IF n = 0 THEN <<>> ELSE Append(RandList(D, f, d, n - 1), RandOne(D, f, d))
RandMap(D, f, d, n) == IF n = 0 THEN <<>> ELSE
  LET k == PickSeq(VALUES[f.key]).v rest == RandMap(D, f, d, n - 1) IN
  IF \E i \in 1..Len(rest) : rest[i][1] = k THEN rest ELSE Append(rest, <<k, RandOne(D, f, d)>>)
RandField(D, f, d) == IF f.c = "rep" THEN RandList(D, f, d, Pick({1, 1, 2, 3})) ELSE IF f.c = "map" THEN RandMap(D, f, d, Pick({1, 2, 3})) ELSE RandOne(D, f, d)
With(m, n, v) == (n :> v) @@ m
RandMsg(D, fs, i, m, d) ==
  IF i > Len(fs) THEN m ELSE
  LET f == fs[i]
      deep == Kind(D, f) = "msg" /\ d <= 0
      taken == f.oo # "" /\ \E j \in 1..i-1 : fs[j].oo = f.oo /\ fs[j].n \in DOMAIN m
      v == RandField(D, f, d)
      zero == ~HasPresence(D, f) /\ f.c = "one" /\ v = Zero(D, f)
  IN RandMsg(D, fs, i + 1, IF deep \/ taken \/ Pick(1..4) = 1 \/ zero THEN m ELSE With(m, f.n, v), d)
Msg(D, i) == RandMsg(D, D.types[i].f, 1, NoFields, 2)
(* the same, with something to put in the path of b *)
RECURSIVE Fit(_, _, _, _, _)
Fit(D, fs, b, m, i) ==
  IF i > Len(b.path) THEN m
  ELSE IF b.path[i].k = "lit" \/ PathOk(D, Field(fs, b.path[i].v), m) THEN Fit(D, fs, b, m, i + 1)
  ELSE LET f == Field(fs, b.path[i].v) t == Table(D, f) IN Fit(D, fs, b, With(m, f.n, t[Pick(2..Len(t))].v), i + 1)

(* ---- raw requests: one with path, query and body as text *)
RECURSIVE Slash(_)
Slash(segs) == IF segs = <<>> THEN "" ELSE "/" \o Head(segs) \o Slash(Tail(segs))
Param(n, u) == n \o "=" \o u
(* a list of scalars in the query: "params", "comma", "json" or JSON with white space *)
Commable(D, f, v) ==
  \A i \in 1..Len(v) : f.t = "string" => ~\E k \in 1..Len(v[i]) : At(v[i], k) \in {",", "["}
Forms(D, f, v) ==
  (IF Len(v) > 1 \/ (Len(v) = 1 /\ Commable(D, f, v) /\ Text(D, f, v[1]) # "") THEN {"params"} ELSE {}) \cup
  (IF Commable(D, f, v) /\ (Len(v) > 1 \/ (Len(v) = 1 /\ Text(D, f, v[1]) # "")) THEN {"comma"} ELSE {}) \cup {"json", "spaced"}
(* a 64-bit number of a list may be written without the quotes JSON gives it *)
Number(f, j) == IF f.t \in {"int64", "sint64", "sfixed64", "uint64", "fixed64"} /\ At(j, 1) = "\"" THEN SubSeq(j, 2, Len(j) - 1) ELSE j
ListParams(D, f, v, form) ==
  IF form = "params" THEN TLCEval([i \in 1..Len(v) |-> Param(f.n, Text(D, f, v[i]))])
  ELSE IF form = "comma" THEN <<Param(f.n, Join(TLCEval([i \in 1..Len(v) |-> Text(D, f, v[i])]), ","))>>
  ELSE IF form = "spaced" THEN <<Param(f.n, "%20%5B%0A" \o Enc(Join(TLCEval([i \in 1..Len(v) |-> Number(f, JsonOne(D, f, v[i]))]), " , ")) \o "%09%5D")>>
  ELSE <<Param(f.n, Enc("[" \o Join(TLCEval([i \in 1..Len(v) |-> Number(f, JsonOne(D, f, v[i]))]), ",") \o "]"))>>
(* the parameters for a field that is set *)
IsListParam(D, f) == f.c = "rep" /\ IsScalar(D, f) /\ f.t # "bytes"
Params(D, f, v) ==
  IF IsListParam(D, f) THEN ListParams(D, f, v, Pick(Forms(D, f, v)))
  ELSE IF IsScalar(D, f) /\ f.c \in {"one", "opt"} /\ f.t # "bytes" THEN <<Param(f.n, Text(D, f, v))>>
  ELSE <<Param(f.n, Enc(JsonVal(D, f, v)))>>
RECURSIVE QueryOf(_, _, _, _)
QueryOf(D, fs, q, i) == IF i > Len(fs) THEN <<>> ELSE
  (IF fs[i].n \in DOMAIN q THEN Params(D, fs[i], q[fs[i].n]) ELSE <<>>) \o QueryOf(D, fs, q, i + 1)
Raw(verb, path, query, body) == [t |-> "raw", method |-> verb, path |-> Slash(path), query |-> Join(query, "&"), body |-> body]
BodyText(D, fs, b, body) == IF FieldsIn(fs, b, "body") = {} THEN "" ELSE JsonMsg(D, fs, body)

Want(D, i, m) == [want |-> [rpc |-> Camel(D.svc.rpcs[i].n), msg |-> m]]
Refuse == [want |-> [rpc |-> "", msg |-> NoFields]]

(* texts that are no value of the type *)
BadTexts(D, f) ==
  IF Kind(D, f) = "enum" THEN {"x!", "1.5", "99999999999"}
  ELSE CASE f.t \in {"int32", "sint32", "sfixed32"} -> {"abc", "1x", "1.5", "2147483648", "-2147483649", "--1", "0x10", "1_0", "99999999999999999999"}
    [] f.t \in {"int64", "sint64", "sfixed64"} -> {"abc", "1x", "1.5", "9223372036854775808", "-9223372036854775809", "1e3x", "0x10", "1_0"}
    [] f.t \in {"uint32", "fixed32"} -> {"abc", "-1", "1x", "4294967296", "0x10", "18446744073709551615"}
    [] f.t \in {"uint64", "fixed64"} -> {"abc", "-1", "18446744073709551616", "1.5", "0b1"}
    [] f.t = "float" -> {"abc", "1.2.3", "1e", "1e39", "-3.5e38"}
    [] f.t = "double" -> {"abc", "1.2.3", "1e", "1e309", "--1"}
    [] f.t = "bool" -> {"maybe", "2", "truee", "tRUE", "01", "yes"}
    [] OTHER -> {}
(* what stands for no text at all *)
NotUtf8 == {"%FF", "a%C3", "%ED%A0%80", "%C0%AF"}
NotEscaped == {"%zz", "a%", "%2", "a;b", ";"}
Strict(D, f) == IsScalar(D, f) /\ f.t \notin {"string", "bytes"}
BadQuery(D, f) ==
  IF Pick(1..4) = 1 THEN <<Param(f.n, Pick(NotEscaped))>>
  ELSE IF f.t = "string" /\ Kind(D, f) # "enum" /\ f.c = "rep"
  THEN LET x == Pick(NotUtf8) IN Pick({<<Param(f.n, x)>>, <<Param(f.n, "b," \o x)>>, <<Param(f.n, "b"), Param(f.n, x)>>})
  ELSE IF f.t = "string" /\ f.c \in {"one", "opt"} THEN <<Param(f.n, Pick(NotUtf8))>>
  ELSE IF IsListParam(D, f) /\ Strict(D, f)
  THEN LET x == Pick(BadTexts(D, f)) ok == PickSeq(Table(D, f)).u IN
       Pick({<<Param(f.n, x)>>, <<Param(f.n, ok \o "," \o x)>>, <<Param(f.n, x \o "," \o ok)>>, <<Param(f.n, ok), Param(f.n, x)>>,
             <<Param(f.n, "%5B%22" \o x \o "%22%5D")>>})
  ELSE IF Strict(D, f) /\ f.c \in {"one", "opt"} THEN <<Param(f.n, Pick(BadTexts(D, f)))>>
  ELSE <<Param(f.n, Pick({"%21%21", "%7B", "%5B%5B%5D%5D", "%7B%7D%2C%22zz%22%3A1", "%22%22%2C%22zz%22%3A1", "%5B%5D%2C%22zz%22%3A1", "%7B%7D%20%7B%7D"}))>>
BadBody(D, f) == "{\"" \o f.n \o "\":[[]]}"

(* The requests of one kind, for a binding and a message that can be laid out. *)
RawFor(D, i, j, m, kind) ==
  LET fs == FieldsOf(D, i) b == D.svc.rpcs[i].bs[j] w == Encode(D, fs, b, m)
      q == QueryOf(D, fs, w.query, 1)
      body == BodyText(D, fs, b, w.body)
      vars == {k \in 1..Len(b.path) : b.path[k].k = "var"}
      good == Raw(w.verb, w.path, q, body) @@ Want(D, i, m)
      Or(x) == IF x = {} THEN <<>> ELSE <<Pick(x)>>
      unrouted(v, p) == Route(D, v, p) = {}
  IN
  CASE kind = "good" -> <<good>>
    [] kind = "verb" -> LET vs == {v \in {"GET", "PUT", "POST", "DELETE", "PATCH", "PURGE"} : unrouted(v, w.path)} IN
                        IF vs = {} THEN <<>> ELSE <<Raw(Pick(vs), w.path, q, body) @@ Refuse>>
    [] kind = "path" ->
         LET ps == {Append(w.path, "zz"), SubSeq(w.path, 1, Len(w.path) - 1), <<"zz">> \o w.path, Tail(w.path)}
                   \cup {[w.path EXCEPT ![k] = Upper(@) \o "_"] : k \in (1..Len(b.path)) \ vars}
                   \cup {[w.path EXCEPT ![k] = "zz"] : k \in {x \in vars : b.path[x].pre # "" \/ b.path[x].post # ""}}
             bad == {p \in ps : Len(p) > 0 /\ unrouted(w.verb, p)} IN
         IF bad = {} THEN <<>> ELSE <<Raw(w.verb, Pick(bad), q, body) @@ Refuse>>
    [] kind = "badpath" ->
         LET texts(k) == LET f == Field(fs, b.path[k].v) IN IF f.t = "string" /\ Kind(D, f) # "enum" THEN NotUtf8 ELSE IF Strict(D, f) THEN BadTexts(D, f) ELSE {}
             ks == {k \in vars : texts(k) # {}} IN
         IF ks = {} THEN <<>> ELSE LET k == Pick(ks) p == [w.path EXCEPT ![k] = b.path[k].pre \o Pick(texts(k)) \o b.path[k].post] IN
         IF Route(D, w.verb, p) # {<<i, j>>} THEN <<>> ELSE <<Raw(w.verb, p, q, body) @@ Refuse>>
    [] kind = "badquery" ->
         LET ks == {k \in 1..Len(fs) : Loc(fs[k], b) = "query"} IN
         IF ks = {} THEN <<>> ELSE LET k == Pick(ks) f == fs[k] bad == BadQuery(D, f)
              others == QueryOf(D, fs, Restrict(w.query, {fs[x].n : x \in {y \in 1..Len(fs) : y # k /\ (f.oo = "" \/ fs[y].oo # f.oo)}}), 1) IN
         IF bad = <<>> THEN <<>> ELSE <<Raw(w.verb, w.path, IF Pick(1..2) = 1 THEN others \o bad ELSE bad \o others, body) @@ Refuse>>
    [] kind = "oneof" ->     \* two members of a oneof
         LET ks == {x \in (1..Len(fs)) \X (1..Len(fs)) : x[1] < x[2] /\ fs[x[1]].oo # "" /\ fs[x[1]].oo = fs[x[2]].oo /\ Loc(fs[x[1]], b) = "query" /\ Loc(fs[x[2]], b) = "query"} IN
         IF ks = {} THEN <<>> ELSE LET x == Pick(ks) f == fs[x[1]] g == fs[x[2]]
              others == QueryOf(D, fs, Restrict(w.query, {fs[y].n : y \in {z \in 1..Len(fs) : fs[z].oo # f.oo}}), 1) IN
         <<Raw(w.verb, w.path, Params(D, f, RandOne(D, f, 1)) \o Params(D, g, RandOne(D, g, 1)) \o others, body) @@ Refuse>>
    [] kind = "badbody" ->
         LET ks == {k \in 1..Len(fs) : Loc(fs[k], b) = "body"} IN
         IF ks = {} THEN <<>> ELSE <<Raw(w.verb, w.path, q, Pick({"{", "[1]", "nope", BadBody(D, fs[Pick(ks)]), body \o "x", body \o "}", body \o " {}", SubSeq(body, 1, Len(body) - 1)})) @@ Refuse>>
    [] kind = "elsewhere" -> \* values for fields where they are not declared to be
         LET ks == {k \in 1..Len(fs) : Loc(fs[k], b) # "query" /\ fs[k].c # "map"}
             bs == {k \in 1..Len(fs) : Loc(fs[k], b) # "body"}
             inbody == FieldsIn(fs, b, "body") # {} /\ bs # {} /\ Pick(1..2) = 1 IN
         IF inbody THEN LET f == fs[Pick(bs)] v == RandField(D, f, 1) t == JsonMsg(D, fs, w.body) IN
                        <<Raw(w.verb, w.path, q, IF t = "{}" THEN "{\"" \o f.n \o "\":" \o JsonVal(D, f, v) \o "}"
                               ELSE "{\"" \o f.n \o "\":" \o JsonVal(D, f, v) \o "," \o SubSeq(t, 2, Len(t))) @@ Want(D, i, m)>>
         ELSE IF ks = {} THEN <<>> ELSE LET f == fs[Pick(ks)] v == RandField(D, f, 1) IN
              <<Raw(w.verb, w.path, q \o (IF IsListParam(D, f) /\ Forms(D, f, v) = {} THEN <<>> ELSE Params(D, f, v)), body) @@ Want(D, i, m)>>
    [] OTHER -> <<>>
Kinds == <<"good", "good", "good", "verb", "path", "badpath", "badquery", "oneof", "badbody", "elsewhere">>

(* a call of the client, and what the specification says about it: the handler
   of the RPC sees the message, laid out by one of the bindings; or the client
   refuses it because it has no place in the path *)
HttpCall(D, i, m, resp) ==
  LET fs == FieldsOf(D, i) bs == D.svc.rpcs[i].bs IN
  [t |-> "http", rpc |-> Camel(D.svc.rpcs[i].n), msg |-> m, resp |-> resp,
   x |-> [j \in 1..Len(bs) |->
     IF CallOk(D, fs, bs[j], m)
     THEN LET w == Encode(D, fs, bs[j], m) IN [ok |-> TRUE, verb |-> w.verb, path |-> w.path, query |-> DOMAIN w.query, body |-> FieldsIn(fs, bs[j], "body")]
     ELSE [ok |-> FALSE, verb |-> "", path |-> <<>>, query |-> {}, body |-> {}]]]
(* a call over a transport which carries messages whole *)
RpcCall(D, i, t, m, resp) == [t |-> t, rpc |-> Camel(D.svc.rpcs[i].n), msg |-> m, resp |-> resp]
RECURSIVE FitAll(_, _, _, _, _)
FitAll(D, fs, bs, m, j) == IF j > Len(bs) THEN m ELSE FitAll(D, fs, bs, Fit(D, fs, bs[j], m, 1), j + 1)
=============================================================================
