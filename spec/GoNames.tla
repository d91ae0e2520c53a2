------------------------------ MODULE GoNames -------------------------------
(* Names of every shape up to a length as messages, nested messages, enums,
   fields, oneofs, RPCs and services.  Names that would clash in Go or in JSON
   stand in different definitions.  Checked of the specification: the Go name
   is exported, and exporting it again changes nothing but underscores.      *)
EXTENDS Http
CONSTANTS Chars, MaxLen
C == <<"a", "B", "_", "1">>
VARIABLES rounds, i, k, at
vars == <<rounds, i, k, at>>
RECURSIVE Of(_)
Of(l) == IF l = 0 THEN <<"">> ELSE LET s == Of(l - 1) m == Len(Chars) IN [j \in 1..(Len(s) * m) |-> s[((j - 1) \div m) + 1] \o Chars[((j - 1) % m) + 1]]
RECURSIVE UpTo(_)
UpTo(l) == IF l = 0 THEN <<>> ELSE UpTo(l - 1) \o Of(l)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* a name of underscores and digits only has no JSON name protoc accepts *)
AllNames == SelectSeq(UpTo(MaxLen), LAMBDA s : At(s, 1) \notin Digits /\ \E j \in 1..Len(s) : At(s, j) \in Letters)
Fits(r, s) == \A j \in 1..Len(r) : Camel(r[j]) # Camel(s) /\ JsonName(r[j]) # JsonName(s)
RECURSIVE Put(_, _, _)
Put(rs, s, j) == IF j > Len(rs) THEN Append(rs, <<s>>) ELSE IF Len(rs[j]) < 24 /\ Fits(rs[j], s) THEN [rs EXCEPT ![j] = Append(@, s)] ELSE Put(rs, s, j + 1)
KINDS == <<<<"one", "string">>, <<"opt", "int32">>, <<"rep", "uint64">>, <<"one", "@e">>, <<"rep", "@e">>, <<"map", "@m">>, <<"one", "@m">>, <<"one", "bool">>,
           <<"opt", "@e">>, <<"rep", "@m">>, <<"opt", "double">>, <<"rep", "bytes">>>>
(* the entry message of a map is named after it: protoc-gen-go refuses a digit in front *)
F(n, j, t) == LET kd0 == KINDS[1 + ((j + k) % Len(KINDS))]
                  kd == IF kd0[1] = "map" /\ At(JsonName(n), 1) \in Digits THEN KINDS[1] ELSE kd0 IN
  [n |-> n, c |-> kd[1], t |-> IF At(kd[2], 1) = "@" THEN "@" ELSE kd[2], r |-> IF kd[2] = "@e" THEN 2 ELSE IF kd[2] = "@m" THEN 3 ELSE 0, key |-> IF kd[1] = "map" THEN "string" ELSE "", oo |-> ""]
(* types: the request, an enum, a message, and one of each name *)
D == LET r == rounds[k] m == Len(r)
         Ty1(j) == [n |-> r[j], k |-> IF j % 5 = 4 THEN "enum" ELSE "msg", up |-> IF j % 3 = 0 THEN 3 + j - 1 ELSE 0, file |-> 1, f |-> <<>>]
         fix(j) == LET t == Ty1(j) IN IF t.up # 0 /\ (Ty1(j - 1).k = "enum") THEN [t EXCEPT !.up = 0] ELSE t
         oof == IF m < 2 THEN <<>> ELSE <<[n |-> "in_" \o r[m], c |-> "one", t |-> "string", r |-> 0, key |-> "", oo |-> r[m]]>>
         fields == [j \in 1..(IF m < 2 THEN m ELSE m - 1) |-> F(r[j], j, 0)] \o oof
         req == [n |-> "Req0Type", k |-> "msg", up |-> 0, file |-> 1, f |-> fields]
         types == <<req, [n |-> "Kind0Type", k |-> "enum", up |-> 0, file |-> 1, f |-> <<>>], [n |-> "Sub0Type", k |-> "msg", up |-> 0, file |-> 1, f |-> <<>>]>>
                  \o [j \in 1..m |-> fix(j)]
         d0 == [types |-> types, files |-> 1, svc |-> [n |-> r[1 + (k % m)] \o "9", file |-> 1, rpcs |-> <<>>]]
         lit(v) == [k |-> "lit", v |-> v, pre |-> "", post |-> ""]
         var(f) == IF InPath(d0, f) THEN <<[k |-> "var", v |-> f.n, pre |-> "", post |-> ""]>> ELSE <<>>
         bs(j) == LET f == fields[1 + (j % Len(fields))] IN
            <<[verb |-> "get", path |-> <<lit("g" \o ToString(j))>> \o var(f), body |-> ""], [verb |-> "post", path |-> <<lit("p" \o ToString(j))>>, body |-> IF f.oo # "" THEN f.oo ELSE f.n]>>
         resp(j) == LET q == 3 + j IN IF types[q].k = "msg" THEN q ELSE 3
     IN [d0 EXCEPT !.svc.rpcs = [j \in 1..m |-> [n |-> r[j], q |-> 1, s |-> resp(j), x |-> "", bs |-> bs(j)]]]
Init == rounds = <<>> /\ i = 0 /\ k = 0 /\ at = "deal"
Next == \/ at = "deal" /\ i < Len(AllNames) /\ i' = i + 1 /\ rounds' = Put(rounds, AllNames[i + 1], 1) /\ UNCHANGED <<k, at>>
        \/ at = "deal" /\ i = Len(AllNames) /\ at' = "done" /\ k' \in 1..Len(rounds) /\ UNCHANGED <<rounds, i>>
Spec == Init /\ [][Next]_vars
Emit == at = "done" => PrintT("@@" \o ToJson([d |-> D, transport |-> <<"", "all", "grpc", "nats">>[1 + (k % 4)], client |-> TRUE, parts |-> "all", calls |-> <<>>]))
Exported == at = "done" => \A j \in 1..Len(rounds[k]) : LET g == Camel(rounds[k][j]) IN At(g, 1) \in Uppers /\ Camel(g) = g
Good == at = "done" => WellFormed(D)
=============================================================================
