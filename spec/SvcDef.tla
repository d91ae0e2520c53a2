------------------------------- MODULE SvcDef -------------------------------
(* What a service definition means: the messages, enums and RPCs baron works
   from, the Go names protoc-gen-go gives them, and the place every request
   field has in every HTTP binding.  A definition D is
     types: sequence of [n, k: "msg"|"enum", up: 0 or index of the enclosing
            message, file, f: sequence of fields]
     fields: [n, c: "one"|"opt"|"rep"|"map", t: scalar | "@" | imported type,
              r: index of the type if t = "@", key: key type of a map,
              oo: name of the oneof it is in, or ""]
     svc: [n, file, rpcs: sequence of [n, q, s, x, bs: sequence of
              [verb, path: sequence of [k: "lit"|"var", v], body]]]
       x is "", or what makes the RPC one baron does not support: streams,
       messages of other packages

     files: number of files                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

UP == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J",
       k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T",
       u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Lowers == DOMAIN UP
Uppers == {UP[c] : c \in Lowers}
Letters == Lowers \cup Uppers
At(s, i) == SubSeq(s, i, i)
IsLower(s, i) == i <= Len(s) /\ At(s, i) \in Lowers

(* The Go name of a protobuf name, a letter at a time. *)
CamelAt(s, i) ==
  LET c == At(s, i) prev == IF i = 1 THEN "" ELSE At(s, i - 1) IN
  CASE c = "." -> IF IsLower(s, i + 1) THEN "" ELSE "_"
    [] c = "_" -> IF i = 1 \/ prev = "." THEN "X" ELSE IF IsLower(s, i + 1) THEN "" ELSE "_"
    [] c \in Lowers -> IF prev \in Letters THEN c ELSE UP[c]
    [] OTHER -> c
RECURSIVE CamelFrom(_, _)
CamelFrom(s, i) == IF i > Len(s) THEN "" ELSE CamelAt(s, i) \o CamelFrom(s, i + 1)
Camel(s) == CamelFrom(s, 1)

(* The name JSON gives a field, in lower case; protoc refuses two fields with one. *)
JsonAt(s, i) ==
  LET c == At(s, i) prev == IF i = 1 THEN "" ELSE At(s, i - 1) IN
  IF c = "_" THEN "" ELSE IF prev = "_" /\ c \in Lowers THEN UP[c] ELSE c
RECURSIVE JsonFrom(_, _)
JsonFrom(s, i) == IF i > Len(s) THEN "" ELSE JsonAt(s, i) \o JsonFrom(s, i + 1)
DOWN == [c \in Uppers |-> CHOOSE l \in Lowers : UP[l] = c]
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) \in Uppers THEN DOWN[At(s, i)] ELSE At(s, i)) \o LowerFrom(s, i + 1)
JsonName(s) == LowerFrom(JsonFrom(s, 1), 1)

SCALARS == [double |-> "float64", float |-> "float32", int32 |-> "int32", int64 |-> "int64", uint32 |-> "uint32", uint64 |-> "uint64",
            sint32 |-> "int32", sint64 |-> "int64", fixed32 |-> "uint32", fixed64 |-> "uint64", sfixed32 |-> "int32",
            sfixed64 |-> "int64", bool |-> "bool", string |-> "string", bytes |-> "bytes"]
IMPORTED == [x \in {"google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.Any", "google.protobuf.Struct",
                    "google.protobuf.StringValue", "google.protobuf.Empty"} |->
             CASE x = "google.protobuf.Timestamp" -> "timestamppb.Timestamp" [] x = "google.protobuf.Duration" -> "durationpb.Duration"
               [] x = "google.protobuf.Any" -> "anypb.Any" [] x = "google.protobuf.Struct" -> "structpb.Struct"
               [] x = "google.protobuf.StringValue" -> "wrapperspb.StringValue" [] x = "google.protobuf.Empty" -> "emptypb.Empty"]
MapKeys == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

RECURSIVE FullName(_, _)
FullName(D, i) == IF D.types[i].up = 0 THEN D.types[i].n ELSE FullName(D, D.types[i].up) \o "." \o D.types[i].n
GoType(D, i) == Camel(FullName(D, i))

Reserved == {"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor"}
(* used: names taken; got: names whose getter is taken. *)
IsUsed(name, used, got) == name \in used \/ name \in {"Get" \o g : g \in got}
RECURSIVE UniqueName(_, _, _, _)
UniqueName(name, getter, used, got) ==
  IF IsUsed(name, used, got) \/ (getter /\ IsUsed("Get" \o name, used, got))
  THEN UniqueName(name \o "_", getter, used, got) ELSE name

(* The Go fields of a message: its fields in order, a oneof in the place of its
   first member: sequence of [go, i] with i = 0 for the oneof itself.
   oos: the oneofs named so far. *)
RECURSIVE Naming(_, _, _, _, _)
Naming(fs, i, used, got, oos) ==
  IF i > Len(fs) THEN <<>> ELSE
  LET go == UniqueName(Camel(fs[i].n), TRUE, used, got)
      u1 == used \cup {go}  g1 == got \cup {go}
      first == fs[i].oo # "" /\ fs[i].oo \notin oos
      oo == UniqueName(Camel(fs[i].oo), FALSE, u1, g1) IN
  IF first THEN <<[go |-> go, oo |-> oo]>> \o Naming(fs, i + 1, (u1 \cup {oo}) \ {"Get" \o oo}, g1 \ {oo}, oos \cup {fs[i].oo})
  ELSE <<[go |-> go, oo |-> ""]>> \o Naming(fs, i + 1, u1, g1, oos)
Names(fs) == Naming(fs, 1, Reserved, {}, {})
OneofGo(fs, o) == LET nm == Names(fs) i == CHOOSE j \in 1..Len(fs) : fs[j].oo = o /\ nm[j].oo # "" IN nm[i].oo

(* The type of a field as seen from Go. *)
Ty(D, t, r) ==
  IF t = "@" THEN [k |-> D.types[r].k, n |-> GoType(D, r)]
  ELSE IF t = "bytes" THEN [k |-> "scalar", n |-> "bytes"]
  ELSE IF t \in DOMAIN SCALARS THEN [k |-> "scalar", n |-> SCALARS[t]]
  ELSE [k |-> "imported", n |-> IMPORTED[t]]
Option(D, f, go) == [go |-> go, pb |-> f.n, ty |-> Ty(D, f.t, f.r)]
GoField(D, fs, i) ==
  LET f == fs[i] nm == Names(fs) IN
  IF f.oo # "" THEN
    [go |-> nm[i].oo, pb |-> "", card |-> "oneof", ty |-> [k |-> "oneof", n |-> ""], key |-> "",
     opts |-> LET mem == SelectSeq([j \in 1..Len(fs) |-> j], LAMBDA j : fs[j].oo = f.oo)
              IN [j \in 1..Len(mem) |-> Option(D, fs[mem[j]], nm[mem[j]].go)]]
  ELSE [go |-> nm[i].go, pb |-> f.n,
        card |-> IF f.c = "opt" /\ (f.t = "bytes" \/ Ty(D, f.t, f.r).k \in {"msg", "imported"}) THEN "one" ELSE f.c,
        ty |-> Ty(D, f.t, f.r), key |-> IF f.c = "map" THEN SCALARS[f.key] ELSE "", opts |-> <<>>]
(* members of a oneof after the first have no Go field of their own *)
GoIdx(fs) == LET nm == Names(fs) IN SelectSeq([j \in 1..Len(fs) |-> j], LAMBDA j : fs[j].oo = "" \/ nm[j].oo # "")
GoFields(D, fs) == LET ix == GoIdx(fs) IN [j \in 1..Len(ix) |-> GoField(D, fs, ix[j])]

Msgs(D) == {i \in 1..Len(D.types) : D.types[i].k = "msg"}
Enums(D) == {i \in 1..Len(D.types) : D.types[i].k = "enum"}
Messages(D) == {[n |-> GoType(D, i), fs |-> GoFields(D, D.types[i].f)] : i \in Msgs(D)}

(* C11: the place of a field of the request. *)
RECURSIVE Top(_, _)
Top(s, i) == IF i > Len(s) \/ At(s, i) = "." THEN SubSeq(s, 1, i - 1) ELSE Top(s, i + 1)
PathVars(b) == {Top(b.path[i].v, 1) : i \in {j \in 1..Len(b.path) : b.path[j].k = "var"}}
Loc(f, b) == IF f.oo = "" /\ f.n \in PathVars(b) THEN "path"
             ELSE IF b.body = "*" \/ (b.body # "" /\ b.body \in {f.n, f.oo}) THEN "body" ELSE "query"
Locs(D, q, b) == LET fs == D.types[q].f ix == GoIdx(fs) IN [j \in 1..Len(ix) |-> Loc(fs[ix[j]], b)]
PathText(b) == LET RECURSIVE P(_)
                   P(i) == IF i > Len(b.path) THEN "" ELSE
                           "/" \o (IF b.path[i].k = "var" THEN "{" \o b.path[i].v \o "}" ELSE b.path[i].v) \o P(i + 1)
               IN P(1)
Methods(D) == [i \in 1..Len(D.svc.rpcs) |->
  LET m == D.svc.rpcs[i] IN
  [n |-> Camel(m.n), q |-> GoType(D, m.q), s |-> GoType(D, m.s),
   bs |-> [j \in 1..Len(m.bs) |-> [verb |-> m.bs[j].verb, path |-> PathText(m.bs[j]), locs |-> Locs(D, m.q, m.bs[j])]]]]

Supported(D) == \A i \in 1..Len(D.svc.rpcs) : D.svc.rpcs[i].x = ""
Meaning(D) == [ok |-> Supported(D), msgs |-> Messages(D), enums |-> {GoType(D, i) : i \in Enums(D)}, svc |-> Camel(D.svc.n), rpcs |-> Methods(D)]

(* A definition protoc accepts and whose Go code has no clashing names. *)
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
SvcIdents(D) == LET g == Camel(D.svc.n) IN
  {g \o "Client", g \o "Server", "Unsafe" \o g \o "Server", "Unimplemented" \o g \o "Server", "Register" \o g \o "Server", "New" \o g \o "Client"}
WellFormed(D) ==
  LET go == [i \in 1..Len(D.types) |-> GoType(D, i)]
      W == [i \in Msgs(D) |-> LET fs == D.types[i].f nm == Names(fs) IN
                               {go[i] \o "_" \o nm[j].go : j \in {k \in 1..Len(fs) : fs[k].oo # ""}}]
      idents == SvcIdents(D)
      kids(i) == {D.types[k].n : k \in {x \in 1..Len(D.types) : D.types[x].up = i}}
  IN
  /\ Distinct(go)
  /\ \A i \in 1..Len(D.types) : D.types[i].n # D.svc.n /\ go[i] \notin idents
  /\ \A i \in Msgs(D) : LET fs == D.types[i].f
                            oos == {fs[j].oo : j \in 1..Len(fs)} \ {""}
                            js == [j \in 1..Len(fs) |-> JsonName(fs[j].n)] IN
       /\ Distinct(js)
       /\ \A j \in 1..Len(fs) : fs[j].n \notin oos /\ fs[j].n \notin kids(i)
       /\ oos \cap kids(i) = {}
       /\ W[i] \cap {go[k] : k \in {x \in 1..Len(D.types) : D.types[x].up # i}} = {}
       /\ Cardinality(W[i]) = Cardinality({j \in 1..Len(fs) : fs[j].oo # ""})
       \* the members of a oneof stand together
       /\ \A o \in oos : LET ix == {j \in 1..Len(fs) : fs[j].oo = o} IN \A x, y \in ix : \A z \in x..y : z \in ix
  /\ \A i, j \in Msgs(D) : i # j => W[i] \cap W[j] = {}
  /\ Distinct([i \in 1..Len(D.svc.rpcs) |-> Camel(D.svc.rpcs[i].n)])
=============================================================================
