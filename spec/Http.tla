-------------------------------- MODULE Http --------------------------------
(* The HTTP transport of a definition: how a request message is laid out over
   path, query and body by a binding (Encode), which binding a request belongs
   to (Route), and what message the binding reads from it (Decode).

   On top of SvcDef.tla: a path segment that is a variable also has pre and
   post, the literal text around it.

   A message value is a function from the names of the fields that are set to
   their values: a scalar is a token, a list a sequence, a map a sequence of
   pairs, a message such a function again.  A field without presence is not in
   it when it is zero, so that equal messages are equal values.              *)
EXTENDS SvcDef

(* ---- scalars: v the token of a value, u its text in a URL, j as JSON.
   The first of each is the zero value.                                      *)
T1(x) == [v |-> x, u |-> x, j |-> x]
TQ(x) == [v |-> x, u |-> x, j |-> "\"" \o x \o "\""]
Ints32 == <<T1("0"), T1("1"), T1("-1"), T1("2147483647"), T1("-2147483648"), T1("42")>>
Ints64 == <<TQ("0"), TQ("1"), TQ("-1"), TQ("9223372036854775807"), TQ("-9223372036854775808"), TQ("9007199254740993")>>
Uints32 == <<T1("0"), T1("1"), T1("4294967295"), T1("16777217")>>
Uints64 == <<TQ("0"), TQ("1"), TQ("18446744073709551615"), TQ("9007199254740993")>>
Floats == <<T1("0"), T1("1.5"), T1("-2.25"), T1("16777216"),
            [v |-> "3.4028235e+38", u |-> "3.4028235e%2B38", j |-> "3.4028235e+38"], T1("1e-45"), T1("0.1"),
            [v |-> "NaN", u |-> "NaN", j |-> "\"NaN\""], [v |-> "+Inf", u |-> "%2BInf", j |-> "\"Infinity\""],
            [v |-> "-Inf", u |-> "-Inf", j |-> "\"-Infinity\""], T1("-0")>>
Doubles == <<T1("0"), T1("1.5"), T1("-2.25"), T1("123456789.125"),
            [v |-> "1.7976931348623157e+308", u |-> "1.7976931348623157e%2B308", j |-> "1.7976931348623157e+308"], T1("5e-324"), T1("0.1"),
            [v |-> "NaN", u |-> "NaN", j |-> "\"NaN\""], [v |-> "+Inf", u |-> "%2BInf", j |-> "\"Infinity\""],
            [v |-> "-Inf", u |-> "-Inf", j |-> "\"-Infinity\""], T1("-0")>>
Bools == <<T1("false"), T1("true")>>
EnumVals == <<T1("0"), T1("1"), T1("-2"), T1("7")>>
(* tokens of strings are written as in Go source *)
Strings == <<
  [v |-> "", u |-> "", j |-> "\"\""],
  TQ("a"), TQ("Zz-9_.~"),
  [v |-> "a b", u |-> "a%20b", j |-> "\"a b\""],
  [v |-> "a/b", u |-> "a%2Fb", j |-> "\"a/b\""],
  [v |-> "/", u |-> "%2F", j |-> "\"/\""],
  [v |-> "//", u |-> "%2F%2F", j |-> "\"//\""],
  [v |-> "50%", u |-> "50%25", j |-> "\"50%\""],
  [v |-> "%2F", u |-> "%252F", j |-> "\"%2F\""],
  [v |-> "?x=1&y=2", u |-> "%3Fx%3D1%26y%3D2", j |-> "\"?x=1&y=2\""],
  [v |-> "#f;g", u |-> "%23f%3Bg", j |-> "\"#f;g\""],
  [v |-> ".", u |-> "%2E", j |-> "\".\""],
  [v |-> "..", u |-> "%2E%2E", j |-> "\"..\""],
  [v |-> "../x", u |-> "%2E%2E%2Fx", j |-> "\"../x\""],
  [v |-> "a,b", u |-> "a%2Cb", j |-> "\"a,b\""],
  [v |-> ",", u |-> "%2C", j |-> "\",\""],
  [v |-> "[1]", u |-> "%5B1%5D", j |-> "\"[1]\""],
  [v |-> "[", u |-> "%5B", j |-> "\"[\""],
  [v |-> "\\\"q\\\"", u |-> "%22q%22", j |-> "\"\\\"q\\\"\""],
  [v |-> "+", u |-> "%2B", j |-> "\"+\""],
  [v |-> " s ", u |-> "%20s%20", j |-> "\" s \""],
  [v |-> "l\\n2", u |-> "l%0A2", j |-> "\"l\\n2\""],
  [v |-> "\\u65e5\\u672c", u |-> "%E6%97%A5%E6%9C%AC", j |-> "\"\\u65e5\\u672c\""],
  [v |-> "\\U0001f600", u |-> "%F0%9F%98%80", j |-> "\"\\ud83d\\ude00\""],
  [v |-> "\\u0001", u |-> "%01", j |-> "\"\\u0001\""],
  [v |-> "null", u |-> "null", j |-> "\"null\""],
  [v |-> "{a}", u |-> "%7Ba%7D", j |-> "\"{a}\""],
  [v |-> "\\\\", u |-> "%5C", j |-> "\"\\\\\""],
  [v |-> ":", u |-> "%3A", j |-> "\":\""],
  [v |-> "true", u |-> "true", j |-> "\"true\""],
  [v |-> "<&>", u |-> "%3C%26%3E", j |-> "\"<&>\""]>>
Bytess == <<[v |-> "", u |-> "", j |-> "\"\""], [v |-> "abc", u |-> "", j |-> "\"YWJj\""],
            [v |-> "\\x00\\xff", u |-> "", j |-> "\"AP8=\""], [v |-> "\\xfb\\xff", u |-> "", j |-> "\"+/8=\""],
            [v |-> "a", u |-> "", j |-> "\"YQ==\""]>>
VALUES == [double |-> Doubles, float |-> Floats, int32 |-> Ints32, int64 |-> Ints64, uint32 |-> Uints32, uint64 |-> Uints64,
           sint32 |-> Ints32, sint64 |-> Ints64, fixed32 |-> Uints32, fixed64 |-> Uints64, sfixed32 |-> Ints32, sfixed64 |-> Ints64,
           bool |-> Bools, string |-> Strings, bytes |-> Bytess]
(* imported messages: v the value, j as JSON *)
NoFields == [x \in {} |-> ""]
IMPVALUES == [t \in DOMAIN IMPORTED |->
  CASE t = "google.protobuf.Timestamp" -> <<[v |-> NoFields, j |-> "\"1970-01-01T00:00:00Z\""],
         [v |-> [seconds |-> "1", nanos |-> "500000000"], j |-> "\"1970-01-01T00:00:01.500Z\""],
         [v |-> [seconds |-> "-62135596800"], j |-> "\"0001-01-01T00:00:00Z\""]>>
    [] t = "google.protobuf.Duration" -> <<[v |-> NoFields, j |-> "\"0s\""], [v |-> [seconds |-> "-1", nanos |-> "-1"], j |-> "\"-1.000000001s\""],
         [v |-> [seconds |-> "3600"], j |-> "\"3600s\""]>>
    [] t = "google.protobuf.Any" -> <<[v |-> NoFields, j |-> "{}"],
         [v |-> [type_url |-> "type.googleapis.com/google.protobuf.Duration", value |-> "\\x08\\x05"],
          j |-> "{\"@type\":\"type.googleapis.com/google.protobuf.Duration\",\"value\":\"5s\"}"]>>
    [] t = "google.protobuf.Struct" -> <<[v |-> NoFields, j |-> "{}"],
         [v |-> [fields |-> <<<<"k", [string_value |-> "x y"]>>>>], j |-> "{\"k\":\"x y\"}"],
         [v |-> [fields |-> <<<<"n", [null_value |-> "0"]>>, <<"", [number_value |-> "1.5"]>>>>], j |-> "{\"n\":null,\"\":1.5}"]>>
    [] t = "google.protobuf.StringValue" -> <<[v |-> NoFields, j |-> "\"\""], [v |-> [value |-> "a,b"], j |-> "\"a,b\""], [v |-> [value |-> "\\\"q"], j |-> "\"\\\"q\""]>>
    [] t = "google.protobuf.Empty" -> <<[v |-> NoFields, j |-> "{}"]>>]

Kind(D, f) == IF f.t = "@" THEN D.types[f.r].k ELSE IF f.t \in DOMAIN SCALARS THEN "scalar" ELSE "imported"
IsScalar(D, f) == Kind(D, f) \in {"scalar", "enum"}          \* one token
Table(D, f) == IF Kind(D, f) = "enum" THEN EnumVals ELSE IF Kind(D, f) = "scalar" THEN VALUES[f.t] ELSE IMPVALUES[f.t]
Zero(D, f) == Table(D, f)[1].v
Row(tab, v) == tab[CHOOSE i \in 1..Len(tab) : tab[i].v = v]
HasPresence(D, f) == f.c = "opt" \/ f.oo # "" \/ ~IsScalar(D, f)
InPath(D, f) == f.oo = "" /\ f.c \in {"one", "opt"} /\ IsScalar(D, f) /\ f.t # "bytes"
Field(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n]

(* ---- JSON *)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE LET h == Len(ss) \div 2 IN Join(SubSeq(ss, 1, h), sep) \o sep \o Join(SubSeq(ss, h + 1, Len(ss)), sep)
RECURSIVE JsonMsg(_, _, _)
JsonOne(D, f, v) == IF Kind(D, f) = "msg" THEN JsonMsg(D, D.types[f.r].f, v) ELSE Row(Table(D, f), v).j
JsonKey(f, v) == LET j == Row(VALUES[f.key], v).j IN IF At(j, 1) = "\"" THEN j ELSE "\"" \o j \o "\""
JsonVal(D, f, v) ==
  IF f.c = "rep" THEN "[" \o Join(TLCEval([i \in 1..Len(v) |-> JsonOne(D, f, v[i])]), ",") \o "]"
  ELSE IF f.c = "map" THEN "{" \o Join([i \in 1..Len(v) |-> JsonKey(f, v[i][1]) \o ":" \o JsonOne(D, f, v[i][2])], ",") \o "}"
  ELSE JsonOne(D, f, v)
JsonMsg(D, fs, m) ==
  LET set == SelectSeq(fs, LAMBDA f : f.n \in DOMAIN m)
  IN "{" \o Join(TLCEval([i \in 1..Len(set) |-> "\"" \o set[i].n \o "\":" \o JsonVal(D, set[i], m[set[i].n])]), ",") \o "}"

(* ---- URLs *)
Plain == Letters \cup {"0","1","2","3","4","5","6","7","8","9","-","_",".","~"}
HEX == [c \in {" ", "\"", "{", "}", "[", "]", ",", ":", "%", "/", "?", "&", "=", "+", "#", "\\", ";", "<", ">", "@", "!", "*", "$", "'", "(", ")"} |->
   CASE c = " " -> "%20" [] c = "\"" -> "%22" [] c = "{" -> "%7B" [] c = "}" -> "%7D" [] c = "[" -> "%5B" [] c = "]" -> "%5D"
     [] c = "," -> "%2C" [] c = ":" -> "%3A" [] c = "%" -> "%25" [] c = "/" -> "%2F" [] c = "?" -> "%3F" [] c = "&" -> "%26"
     [] c = "=" -> "%3D" [] c = "+" -> "%2B" [] c = "#" -> "%23" [] c = "\\" -> "%5C" [] c = ";" -> "%3B" [] c = "<" -> "%3C"
     [] c = ">" -> "%3E" [] c = "@" -> "%40" [] c = "!" -> "%21" [] c = "*" -> "%2A" [] c = "$" -> "%24" [] c = "'" -> "%27"
     [] c = "(" -> "%28" [] c = ")" -> "%29"]
RECURSIVE EncFrom(_, _, _)
EncFrom(s, i, j) == IF i > j THEN "" ELSE IF i = j THEN (IF At(s, i) \in Plain THEN At(s, i) ELSE HEX[At(s, i)])
                    ELSE LET h == (i + j) \div 2 IN EncFrom(s, i, h) \o EncFrom(s, h + 1, j)
Enc(s) == EncFrom(s, 1, Len(s))
RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) \in Lowers THEN UP[At(s, i)] ELSE At(s, i)) \o UpperFrom(s, i + 1)
Upper(s) == UpperFrom(s, 1)

(* ---- the layout of a binding *)
Text(D, f, v) == Row(Table(D, f), v).u
ValueOf(D, f, m) == IF f.n \in DOMAIN m THEN m[f.n] ELSE Zero(D, f)
(* a field has something to put in a path *)
PathOk(D, f, m) == IF HasPresence(D, f) /\ f.n \notin DOMAIN m THEN FALSE ELSE Text(D, f, ValueOf(D, f, m)) # ""
(* a call can be made *)
CallOk(D, fs, b, m) == \A i \in 1..Len(b.path) : b.path[i].k = "var" => PathOk(D, Field(fs, b.path[i].v), m)
PathOf(D, fs, b, m) == [i \in 1..Len(b.path) |-> LET s == b.path[i] IN
   IF s.k = "lit" THEN s.v ELSE LET f == Field(fs, s.v) IN s.pre \o Text(D, f, ValueOf(D, f, m)) \o s.post]
FieldsIn(fs, b, loc) == {fs[i].n : i \in {j \in 1..Len(fs) : Loc(fs[j], b) = loc}}
Restrict(m, S) == [x \in (DOMAIN m) \cap S |-> m[x]]
(* the wire: the path as segments, query and body as the parts of the message they carry *)
Encode(D, fs, b, m) == [verb |-> Upper(b.verb), path |-> PathOf(D, fs, b, m),
                        query |-> Restrict(m, FieldsIn(fs, b, "query")), body |-> Restrict(m, FieldsIn(fs, b, "body"))]

EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
BeginsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, 1, Len(e)) = e
SegMatches(s, x) == IF s.k = "lit" THEN s.v = x
                    ELSE Len(x) > Len(s.pre) + Len(s.post) /\ BeginsWith(x, s.pre) /\ EndsWith(x, s.post)
Matches(b, verb, path) == Upper(b.verb) = verb /\ Len(b.path) = Len(path) /\ \A i \in 1..Len(path) : SegMatches(b.path[i], path[i])
Bindings(D) == UNION {{<<i, j>> : j \in 1..Len(D.svc.rpcs[i].bs)} : i \in 1..Len(D.svc.rpcs)}
BindOf(D, ij) == D.svc.rpcs[ij[1]].bs[ij[2]]
Route(D, verb, path) == {ij \in Bindings(D) : Matches(BindOf(D, ij), verb, path)}

Middle(s, x) == SubSeq(x, Len(s.pre) + 1, Len(x) - Len(s.post))
HasText(D, f, u) == \E i \in 1..Len(Table(D, f)) : Table(D, f)[i].u = u
Decode(D, fs, b, w) ==
  LET vars == {i \in 1..Len(b.path) : b.path[i].k = "var"}
      pf(i) == Field(fs, b.path[i].v)
      tab(i) == Table(D, pf(i))
      val(i) == tab(i)[CHOOSE k \in 1..Len(tab(i)) : tab(i)[k].u = Middle(b.path[i], w.path[i])].v
      inpath == {i \in vars : HasPresence(D, pf(i)) \/ val(i) # Zero(D, pf(i))}
      rest == [x \in (DOMAIN w.query) \cup (DOMAIN w.body) |-> IF x \in DOMAIN w.query THEN w.query[x] ELSE w.body[x]]
  IN [x \in {b.path[i].v : i \in inpath} \cup DOMAIN rest |->
        IF x \in DOMAIN rest THEN rest[x] ELSE val(CHOOSE i \in inpath : b.path[i].v = x)]

(* ---- definitions the transport supports *)
SegOverlap(a, b) == IF a.k = "lit" /\ b.k = "lit" THEN a.v = b.v ELSE
                    IF a.k = "lit" THEN SegMatches(b, a.v) ELSE IF b.k = "lit" THEN SegMatches(a, b.v) ELSE TRUE
Overlap(a, b) == Upper(a.verb) = Upper(b.verb) /\ Len(a.path) = Len(b.path) /\ \A i \in 1..Len(a.path) : SegOverlap(a.path[i], b.path[i])
NoOverlap(D) == \A x, y \in Bindings(D) : x # y => ~Overlap(BindOf(D, x), BindOf(D, y))
Servable(D) == NoOverlap(D) /\ \A ij \in Bindings(D) : LET b == BindOf(D, ij) fs == D.types[D.svc.rpcs[ij[1]].q].f IN
                 \A i, j \in {k \in 1..Len(b.path) : b.path[k].k = "var"} : InPath(D, Field(fs, b.path[i].v)) /\ (b.path[i].v = b.path[j].v => i = j)

(* ---- what holds of it *)
FieldsOf(D, i) == D.types[D.svc.rpcs[i].q].f
(* a request that can be laid out belongs to its own binding and is read back as it was *)
RoundTrip(D, i, m) == \A j \in 1..Len(D.svc.rpcs[i].bs) :
  LET fs == FieldsOf(D, i) b == D.svc.rpcs[i].bs[j] w == Encode(D, fs, b, m) IN
  CallOk(D, fs, b, m) => Route(D, w.verb, w.path) = {<<i, j>>} /\ Decode(D, fs, b, w) = m
(* nothing of a message is left out or sent twice *)
OncePlaced(D, i, m) == \A j \in 1..Len(D.svc.rpcs[i].bs) :
  LET fs == FieldsOf(D, i) b == D.svc.rpcs[i].bs[j] w == Encode(D, fs, b, m) IN
  /\ DOMAIN w.query \cap DOMAIN w.body = {}
  /\ DOMAIN m \subseteq DOMAIN w.query \cup DOMAIN w.body \cup {b.path[k].v : k \in {x \in 1..Len(b.path) : b.path[x].k = "var"}}
=============================================================================
