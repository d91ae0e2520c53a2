----------------------------- MODULE SvcGrammar ------------------------------
(* Generates definitions together with their meaning.  A pushdown machine:   *)
(* todo is what is still to be written; every choice of words, of layout     *)
(* between words, and of key order is nondeterministic.  sem is what has     *)
(* been declared.  Reading the finished text back must give sem (Faithful),  *)
(* so layout, order and surrounding declarations cannot matter.              *)
EXTENDS SvcReader, TLC, Json, FiniteSets
CONSTANTS Small,      \* one RPC and few choices, for exhaustive checking
          Foreign,    \* also valid syntax that baron need not support
          MaxRpcs, MaxAdds
VARIABLES todo, text, sem, stk, adds, used
vars == <<todo, text, sem, stk, adds, used>>

Pick(S) == IF Small THEN S ELSE {RandomElement(S)}

LineComments == {<<"/","/","\n">>, <<"/","/"," ","x","\n">>, <<"/","/","}","\"","'","/","*","\n">>,
                 <<"/","/"," ","service"," ","x"," ","{","\n">>, <<"/","/","\"","\n">>, <<"/","/","/","*","\\","\n">>}
BlockComments == {<<"/","*","*","/">>, <<"/","*"," ","*","*","/">>, <<"/","*","*","*","x","*","/">>,
                  <<"/","*","}","\"","'","\n","/","/"," ","*","/">>, <<"/","*","{","*","x","*","*","/">>,
                  <<"/","*"," ","rpc"," ","option"," ",";"," ","*","/">>,
                  <<"/","*","\n"," ","*"," ","service","\n"," ","*","/">>}
Comments == LineComments \cup BlockComments
Spaces == {<<" ">>, <<"\n">>, <<"\t">>, <<" "," ">>, <<"\n","\n","\t">>}
Gap(req) ==          \* layout between two words; req: there must be some
  IF Small THEN (IF req THEN {<<" ">>}     \* at most one comment per text
                 ELSE {<<>>} \cup (IF Has(text, "*") THEN {} ELSE {<<"/","*","*","}","*","/">>}))
  ELSE LET k == RandomElement(1..20)
           s == RandomElement(Spaces)  c == RandomElement(Comments)  d == RandomElement(Comments)
       IN { IF k <= 10 THEN (IF req THEN <<" ">> ELSE <<>>)
            ELSE IF k <= 15 THEN s
            ELSE IF k = 16 THEN c
            ELSE IF k = 17 THEN s \o c
            ELSE IF k = 18 THEN c \o s
            ELSE IF k = 19 THEN s \o c \o s \o d
            ELSE c \o d }

(* Paths by name: what is written between the quotes.                        *)
PathText(p, q) ==
  CASE p = "quoted" -> IF q = "\"" THEN <<"/q","'","r">> ELSE <<"/q","\"","r">>
    [] p = "escaped" -> IF q = "\"" THEN <<"/e","\\","\"","f">> ELSE <<"/e","\\","'","f">>
    [] OTHER -> <<p>>
PathMeans(p, q) ==
  CASE p = "escaped" -> <<"/e", q, "f">> [] OTHER -> PathText(p, q)
Paths == IF Small THEN {"/a"} ELSE {"/a", "/b/{id}", "/v1/{name}/x:go/{id}", "/s//t", "/c/*", "/o}p", "/w {", "quoted", "escaped"}
Bodies == IF Small THEN {"*"} ELSE {"*", "name"}
Quotes == IF Small THEN {"'"} ELSE {"\"", "'"}
RpcNames == IF Small THEN {"Abc"} ELSE {"Abc", "get_it", "rpc", "service", "option", "returns", "stream", "X9", "body"}
Types == IF Small THEN {<<"Req">>} ELSE {<<"Req">>, <<"p", "$g", ".", "service", ".", "$g", "v1", ".", "Req">>, <<".", "$g", "p", ".", "service", ".", "v1", "$g", ".", "Req">>}

Opt(p) == {<<>>, p}
(* The alternatives for a nonterminal; each is what to write instead and     *)
(* what it declares: [p |-> production, s |-> declaration, x |-> argument].  *)
Say(ps) == {[p |-> p, s |-> "", x |-> ""] : p \in ps}
Arg == {<<"(", "$g">> \o st \o ty \o <<"$g", ")", "$g">> : st \in (IF Small THEN {<<>>} ELSE Opt(<<"stream", "$G">>)), ty \in Types}
FieldOrders(a) ==
  {<<"$verb">>, <<"$verb", "$g", "$body">>, <<"$body", "$g", "$verb">>} \cup
  (IF a /\ MaxAdds > 0 THEN {<<"$verb", "$g", "$adds">>, <<"$adds", "$g", "$verb">>, <<"$verb", "$g", "$adds", "$g", "$body">>,
              <<"$body", "$g", "$adds", "$g", "$verb">>, <<"$verb", "$g", "$body", "$g", "$adds">>} ELSE {})

(* Options declared in the definition itself, with values like bindings.     *)
Own(n) ==
  IF Small THEN {} ELSE
  {<<"option", "$g", "(", "$g">> \o nm \o <<n, "$g", ")", "$g", "=", "$g", "{", "$g">> \o v \o <<"$g", "}", "$g", ";", "$g">> :
     nm \in {<<>>, <<"v1", "$g", ".", "$g">>, <<".", "p", ".", "$g", "service", ".", "v1", ".">>},
     v \in {<<>>, <<"get", "$g", ":", "$g", "\"", "/o}p", "\"">>,
            <<"get", ":", "'", "/a", "'", "$g", ";", "$g", "body", ":", "\"", "*", "\"", ";">>,
            <<"additional_bindings", "$g", "{", "$g", "get", "$g", ":", "\"", "/x", "\"", "$g", ";", "$g", "}", "$g", ";", "body", "$g", ":", "'", "*", "'">>,
            <<"additional_bindings", "{", "$g", "}", "additional_bindings", "$g", ":", "{", "body", ":", "\"", "{", "\"", "}">>}} \cup
  {<<"option", "$g", "(", "$g", n, "$g", ")", "$g", ".", "$g", "get", "$g", "=", "$g", "\"", "get", " ", ":", ";", "\"", "$g", ";", "$g">>}

Alts(nt) ==
  CASE nt = "$g" -> Say(Gap(FALSE))
    [] nt = "$G" -> Say(Gap(TRUE))
    [] nt = "$pre1" -> Say(Opt(<<"option", "$G", "java_package", "$g", "=", "$g", "'", "a", "\"", "}", "'", "$g", ";">>)
                        \cup {<<"option", "$G", "java_package", "=", "\"", "service", " ", "x", "{", "/", "/", "\"", "$g", ";">>})
    [] nt = "$pre2" -> Say(Opt(<<"message", "$G", "service", "$g", "{", "$g", "string", "$G", "service", "$g", "=", "$g", "1", ";", "$g", "}", "$g">>)
                        \cup {<<"message", "$G", "Svc", "{", "message", "$G", "rpc", "{", "}", "$g", "Req", "$G", "service", "=", "7", ";", "}">>})
    [] nt = "$pre3" -> Say(Opt(<<"enum", "$G", "E", "$g", "{", "$g", "E0", "=", "0", "[", "deprecated", "=", "true", "]", ";", "$g", "}", "$g", ";">>))
    [] nt = "$pre4" -> Say(Opt(<<"message", "$G", "M", "{", "string", "$G", "rpc", "=", "1", "[", "json_name", "$g", "=", "$g", "\"", "}", "'", "\"", "]", ";", "}">>))
    [] nt = "$svcopt" -> Say(Opt(<<"option", "$G", "deprecated", "$g", "=", "$g", "true", "$g", ";", "$g">>) \cup {<<";", "$g">>} \cup Own("svc"))
    [] nt = "$rpcs" ->
         LET free == RpcNames \ used IN
         (IF Len(sem) >= 1 /\ (Small \/ RandomElement(1..3) = 1 \/ Len(sem) = MaxRpcs) THEN Say({<<>>}) ELSE {}) \cup
         (IF Len(sem) < MaxRpcs
          THEN {[p |-> <<"rpc", "$G", n, "$g">> \o a \o <<"returns", "$g">> \o b \o <<"$rpcend", "$g", "$rpcs">>, s |-> "rpc", x |-> n] :
                 n \in Pick(free), a \in Pick(Arg), b \in Pick(Arg)} ELSE {})
    [] nt = "$rpcend" -> Say({<<";">>, <<"{", "$g", "}", "$tail">>,
                              <<"{", "$g", "$preopt", "$http", "$g", "$postopt", "}", "$tail">>,
                              <<"{", "$g", "$http", "$g", "}", "$tail">>,
                              <<"{", "$g", "$http", "$g", "}">>,
                              <<"{", "$http", "$g", "$g", "}">>,
                              <<"{", "$http", "$g", "}">>,
                              <<"{", "$g", "$preopt", "}", "$tail">>})
    [] nt = "$tail" -> Say(Opt(<<"$g", ";">>))
    [] nt = "$preopt" -> Say(Opt(<<"option", "$G", "deprecated", "$g", "=", "$g", "true", "$g", ";", "$g">>) \cup {<<";", "$g">>} \cup Own("http"))
    [] nt = "$postopt" -> Say(Opt(<<"option", "$G", "idempotency_level", "$g", "=", "$g", "IDEMPOTENT", "$g", ";", "$g">>) \cup {<<";", "$g">>} \cup Own("kind"))
    [] nt = "$dot" -> Say(IF Small THEN {<<>>} ELSE {<<>>, <<".", "$g">>})
    [] nt = "$http" ->
         {[p |-> <<"option", "$g", "(", "$g", "$dot", "google", "$g", ".", "api", ".", "$g", "http", "$g", ")", "$g", "=", "$g", "{", "$g">>
                 \o f \o <<"$g", "}", "$end", "$g", ";">>, s |-> "bind", x |-> ""] : f \in Pick(FieldOrders(TRUE))}
    [] nt = "$adds" -> Say({<<>>}) \cup (IF adds < MaxAdds THEN
         {[p |-> <<"additional_bindings", "$g">> \o c \o <<"{", "$g">> \o f \o <<"$g", "}", "$end", "$g", "$adds">>, s |-> "add", x |-> ""] :
            c \in Pick(Opt(<<":", "$g">>)), f \in Pick(FieldOrders(FALSE))} ELSE {})
    [] nt = "$verb" -> {[p |-> <<v, "$g", ":", "$g", q>> \o PathText(p, q) \o <<q, "$sep">>, s |-> v, x |-> <<p, q>>] :
                          v \in Pick(IF Small THEN {"get"} ELSE Verbs), q \in Pick(Quotes), p \in Pick(Paths)}
                     \cup {[p |-> <<"custom", "$g">> \o c \o <<"{", "$g">> \o
                                   (IF o THEN k \o <<"$g">> \o pt ELSE pt \o <<"$g">> \o k) \o <<"$g", "}">>, s |-> "custom", x |-> <<p, "\"">>] :
                          c \in Pick(Opt(<<":", "$g">>)), o \in Pick(BOOLEAN), p \in Pick(Paths \ {"quoted", "escaped"}),
                          k \in {<<"kind", "$g", ":", "$g", "\"", "HEAD", "\"">>}, pt \in {<<"path", "$g", ":", "$g", "\"", "$custompath", "\"">>}}
    [] nt = "$body" -> {[p |-> <<"body", "$g", ":", "$g", q, b, q, "$sep">>, s |-> "body", x |-> <<b, q>>] : q \in Pick(Quotes), b \in Pick(Bodies)}
    [] nt = "$sep" -> IF Foreign THEN Say({<<>>, <<",">>, <<"$g", ";">>}) ELSE Say({<<>>})
    [] OTHER -> {}

Nonterm(x) == x \in {"$dot", "$g","$G","$pre1","$pre2","$pre3","$pre4","$svcopt","$rpcs","$rpcend","$tail","$preopt","$postopt",
                     "$http","$adds","$verb","$body","$sep"}

Top == stk[Len(stk)]
SetBind(f, val) == [sem EXCEPT ![Len(sem)].bs[Top] = [@ EXCEPT ![f] = val]]

FileHead == <<"$g", "syntax", "$g", "=", "$g", "\"", "proto3", "\"", "$g", ";", "$g",
          "package", "$G", "p", ".", "service", ".", "v1", "$g", ";", "$g",
          "import", "$g", "\"", "google/api/annotations.proto", "\"", "$g", ";", "$g",
          "import", "\"", "google/protobuf/descriptor.proto", "\"", ";",
          "option", "$G", "go_package", "=", "\"", "example.com/p;p", "\"", ";", "$g", "$pre1", "$g",
          "message", "$G", "Req", "$g", "{", "string", "$G", "id", "=", "1", ";", "string", "$G", "name", "=", "2", ";", "string", "$G", "body_f", "=", "3", ";", "}",
          "message", "$G", "Opts", "{", "string", "$G", "get", "=", "1", ";", "string", "$G", "body", "=", "2", ";",
          "repeated", "$G", "Opts", "$G", "additional_bindings", "=", "3", ";", "}",
          "extend", "$G", "google", ".", "protobuf", ".", "MethodOptions", "$g", "{", "Opts", "$G", "http", "$g", "=", "50001", ";", "$g", "Opts", "$G", "kind", "=", "50002", ";", "}", "$g",
          "extend", "$G", "google", ".", "protobuf", ".", "ServiceOptions", "{", "Opts", "$G", "svc", "=", "50003", ";", "}",
          "$g", "$pre2", "$g", "$pre3", "$g",
          "service", "$G", "Abc_Svc", "$g", "{", "$g", "$svcopt", "$rpcs", "}", "$g", "$pre4", "$g">>
SmallHead == <<"$pre2", "service", "$G", "x", "{", "$rpcs", "}">>

Init == /\ todo = (IF Small THEN SmallHead ELSE FileHead)
        /\ text = <<>> /\ sem = <<>> /\ stk = <<>> /\ adds = 0 /\ used = {}

(* Write everything up to the next choice.                                   *)
Write == /\ todo # <<>> /\ ~Nonterm(todo[1])
         /\ IF todo[1] = "$end"
            THEN stk' = SubSeq(stk, 1, Len(stk) - 1) /\ todo' = Tail(todo) /\ UNCHANGED <<text, sem, adds, used>>
            ELSE LET n == CHOOSE n \in 1..Len(todo) :
                           /\ \A i \in 1..n : ~Nonterm(todo[i]) /\ todo[i] # "$end"
                           /\ (n = Len(todo) \/ Nonterm(todo[n+1]) \/ todo[n+1] = "$end")
                 IN /\ text' = text \o [i \in 1..n |-> todo[i]]
                    /\ todo' = SubSeq(todo, n + 1, Len(todo))
                    /\ UNCHANGED <<sem, stk, adds, used>>

Expand ==
  /\ todo # <<>> /\ Nonterm(todo[1])
  /\ \E a \in Pick(Alts(todo[1])) :
       LET prod == IF a.s = "custom" THEN [i \in 1..Len(a.p) |-> IF a.p[i] = "$custompath" THEN a.x[1] ELSE a.p[i]] ELSE a.p
       IN
       /\ todo' = prod \o Tail(todo)
       /\ UNCHANGED text
       /\ CASE a.s = "rpc" -> /\ sem' = Append(sem, [n |-> <<a.x>>, bs |-> <<>>])
                              /\ used' = used \cup {a.x} /\ adds' = 0 /\ UNCHANGED stk
            [] a.s \in {"bind", "add"} ->
                 /\ sem' = [sem EXCEPT ![Len(sem)].bs = Append(@, NoBind)]
                 /\ stk' = Append(stk, Len(sem[Len(sem)].bs) + 1)
                 /\ adds' = (IF a.s = "add" THEN adds + 1 ELSE adds) /\ UNCHANGED used
            [] a.s \in Verbs ->
                 /\ sem' = [sem EXCEPT ![Len(sem)].bs[Top].verb = <<a.s>>, ![Len(sem)].bs[Top].path = PathMeans(a.x[1], a.x[2])]
                 /\ UNCHANGED <<stk, adds, used>>
            [] a.s = "custom" ->
                 /\ sem' = [sem EXCEPT ![Len(sem)].bs[Top].verb = <<"HEAD">>, ![Len(sem)].bs[Top].path = <<a.x[1]>>]
                 /\ UNCHANGED <<stk, adds, used>>
            [] a.s = "body" -> /\ sem' = [sem EXCEPT ![Len(sem)].bs[Top].body = <<a.x[1]>>]
                               /\ UNCHANGED <<stk, adds, used>>
            [] OTHER -> UNCHANGED <<sem, stk, adds, used>>

(* Where each field of Req travels for a binding (C11).                      *)
PathVars(p) == CASE p = <<"/b/{id}">> -> {"id"} [] p = <<"/v1/{name}/x:go/{id}">> -> {"id", "name"} [] OTHER -> {}
Loc(b, f) == IF f \in PathVars(b.path) THEN "path" ELSE IF b.body \in {<<"*">>, <<f>>} THEN "body" ELSE "query"
Out == [t |-> text, ms |-> [i \in 1..Len(sem) |-> [n |-> sem[i].n,
         bs |-> [j \in 1..Len(sem[i].bs) |->
            [verb |-> sem[i].bs[j].verb, path |-> sem[i].bs[j].path, body |-> sem[i].bs[j].body,
             loc |-> [f \in {"id", "name", "body_f"} |-> Loc(sem[i].bs[j], f)]]]]], ok |-> Meaning(text).ok]
Finished == todo = <<>>
Stop == /\ Finished /\ stk = <<>> /\ adds < 99 /\ adds' = 99
        /\ IF Small THEN TRUE ELSE PrintT("@@" \o ToJson(Out))
        /\ UNCHANGED <<todo, text, sem, stk, used>>
Next == Write \/ Expand \/ Stop
Spec == Init /\ [][Next]_vars

Bag(s) == [b \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = b})]
Same(ms, ns) == /\ Len(ms) = Len(ns)
                /\ \A i \in 1..Len(ms) : ms[i].n = ns[i].n /\ Bag(ms[i].bs) = Bag(ns[i].bs)
Faithful == Finished => LET m == Meaning(text) IN
                        IF m.ok THEN Same(m.val, sem) ELSE Foreign
ScanFaithful == Finished => ScannerOk(text) /\ Balanced(Units(text))
=============================================================================
