------------------------------ MODULE SvcReader ------------------------------
(* What a service definition means: from the tokens of a text to the RPCs    *)
(* and their HTTP bindings.  Layout (white space and comments) carries no    *)
(* meaning.  Anything outside the supported annotation syntax is refused     *)
(* (ok = FALSE), never given another meaning.                                *)
EXTENDS Scanner

Significant(ts) == SelectSeq(ts, LAMBDA x : x.t \notin {"WHITESPACE", "COMMENT"})

IsId(ts, i) == i <= Len(ts) /\ ts[i].t = "IDENT"
IsW(ts, i, w) == IsId(ts, i) /\ ts[i].v = <<w>>
IsC(ts, i, c) == i <= Len(ts) /\ ts[i].t \notin {"IDENT", "STRING_LITERAL"} /\ ts[i].v = <<c>>
IsStr(ts, i) == i <= Len(ts) /\ ts[i].t = "STRING_LITERAL"
ClosedStr(v) == Len(v) >= 2 /\ v[1] = v[Len(v)]

(* The value of a string: its content with escaped quotes unescaped.         *)
StrVal(v) ==
  FoldLeft(LAMBDA a, i : IF v[i] = "\\" /\ v[i+1] \in {"\"", "'"} THEN a ELSE Append(a, v[i]),
           <<>>, [k \in 1..Len(v)-2 |-> k + 1])

Bad == [ok |-> FALSE, i |-> 0, val |-> <<>>]
NoBind == [verb |-> <<>>, path |-> <<>>, body |-> <<>>]

(* Index after the ";" that ends the statement at i, 0 if there is none.     *)
RECURSIVE AfterStmt(_, _, _)
AfterStmt(ts, i, depth) ==
  IF i > Len(ts) \/ depth < 0 THEN 0
  ELSE IF IsC(ts, i, ";") /\ depth = 0 THEN i + 1
  ELSE AfterStmt(ts, i + 1, depth + (IF IsC(ts, i, "{") THEN 1 ELSE IF IsC(ts, i, "}") THEN -1 ELSE 0))

Verbs == {"get", "put", "post", "delete", "patch"}

(* kind and path of a custom verb, up to its closing brace                   *)
RECURSIVE ReadCustom(_, _, _)
ReadCustom(ts, i, b) ==
  IF IsC(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, val |-> b]
  ELSE IF IsId(ts, i) /\ IsC(ts, i + 1, ":") /\ IsStr(ts, i + 2) /\ ts[i].v \in {<<"kind">>, <<"path">>}
  THEN LET x == StrVal(ts[i+2].v) IN
       ReadCustom(ts, i + 3, IF ts[i].v = <<"kind">> THEN [b EXCEPT !.verb = x] ELSE [b EXCEPT !.path = x])
  ELSE Bad
AfterColon(ts, i) == IF IsC(ts, i, ":") THEN i + 1 ELSE i

(* The fields of a binding from i to its closing brace: the bindings found,  *)
(* additional ones first.                                                     *)
RECURSIVE ReadFields(_, _, _, _, _)
ReadFields(ts, i, b, adds, top) ==
  IF IsC(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, val |-> Append(adds, b)]
  ELSE IF IsW(ts, i, "additional_bindings") /\ top /\ IsC(ts, AfterColon(ts, i + 1), "{")
  THEN LET r == ReadFields(ts, AfterColon(ts, i + 1) + 1, NoBind, <<>>, FALSE)
       IN IF ~r.ok THEN Bad ELSE ReadFields(ts, r.i, b, adds \o r.val, top)
  ELSE IF IsW(ts, i, "custom") /\ IsC(ts, AfterColon(ts, i + 1), "{")
  THEN LET r == ReadCustom(ts, AfterColon(ts, i + 1) + 1, b)
       IN IF ~r.ok THEN Bad ELSE ReadFields(ts, r.i, r.val, adds, top)
  ELSE IF IsId(ts, i) /\ IsC(ts, i + 1, ":") /\ IsStr(ts, i + 2)
  THEN LET x == StrVal(ts[i+2].v)
           k == ts[i].v
       IN CASE Len(k) = 1 /\ k[1] \in Verbs -> ReadFields(ts, i + 3, [b EXCEPT !.verb = k, !.path = x], adds, top)
            [] k = <<"body">> -> ReadFields(ts, i + 3, [b EXCEPT !.body = x], adds, top)
            [] OTHER -> Bad
  ELSE Bad

HttpName == <<<<"(">>, <<"google">>, <<".">>, <<"api">>, <<".">>, <<"http">>, <<")">>>>
(* Index after the name of google's option where i + 1 is one, 0 otherwise.   *)
AfterHttp(ts, i) ==
  LET d == IF IsC(ts, i + 2, ".") THEN i + 1 ELSE i IN
  IF /\ d + 7 <= Len(ts) /\ ts[i+1].v = HttpName[1] /\ \A k \in 2..7 : ts[d+k].v = HttpName[k] THEN d + 8 ELSE 0
IsHttp(ts, i) == AfterHttp(ts, i) > 0

(* Options of an RPC from i to its closing brace.                            *)
RECURSIVE ReadOptions(_, _, _)
ReadOptions(ts, i, bs) ==
  IF IsC(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, val |-> bs]
  ELSE IF IsC(ts, i, ";") THEN ReadOptions(ts, i + 1, bs)
  ELSE IF ~IsW(ts, i, "option") THEN Bad
  ELSE IF IsHttp(ts, i)
  THEN IF bs # <<>> \/ ~IsC(ts, AfterHttp(ts, i), "=") \/ ~IsC(ts, AfterHttp(ts, i) + 1, "{") THEN Bad
       ELSE LET r == ReadFields(ts, AfterHttp(ts, i) + 2, NoBind, <<>>, TRUE)
            IN IF ~r.ok \/ ~IsC(ts, r.i, ";") THEN Bad ELSE ReadOptions(ts, r.i + 1, r.val)
  ELSE LET j == AfterStmt(ts, i, 0) IN IF j = 0 THEN Bad ELSE ReadOptions(ts, j, bs)

(* "(" [stream] [.] Type ")": the index after it, 0 if it is not there.      *)
RECURSIVE AfterType(_, _)
AfterType(ts, i) == IF ~IsId(ts, i) THEN 0
                    ELSE IF IsC(ts, i + 1, ".") THEN AfterType(ts, i + 2) ELSE i + 1
AfterArg(ts, i) ==
  IF i = 0 \/ ~IsC(ts, i, "(") THEN 0
  ELSE LET t == IF IsW(ts, i + 1, "stream") THEN i + 2 ELSE i + 1
           j == AfterType(ts, IF IsC(ts, t, ".") THEN t + 1 ELSE t)
       IN IF j = 0 \/ ~IsC(ts, j, ")") THEN 0 ELSE j + 1

RECURSIVE ReadRpcs(_, _, _)
ReadRpcs(ts, i, ms) ==
  IF IsC(ts, i, "}") THEN [ok |-> TRUE, i |-> i + 1, val |-> ms]
  ELSE IF IsC(ts, i, ";") THEN ReadRpcs(ts, i + 1, ms)
  ELSE IF IsW(ts, i, "option")
  THEN LET j == AfterStmt(ts, i, 0) IN IF j = 0 THEN Bad ELSE ReadRpcs(ts, j, ms)
  ELSE IF ~IsW(ts, i, "rpc") \/ ~IsId(ts, i + 1) THEN Bad
  ELSE LET j == AfterArg(ts, i + 2)
           k == IF j > 0 /\ IsW(ts, j, "returns") THEN AfterArg(ts, j + 1) ELSE 0
       IN IF k = 0 THEN Bad
          ELSE IF IsC(ts, k, ";") THEN ReadRpcs(ts, k + 1, Append(ms, [n |-> ts[i+1].v, bs |-> <<>>]))
          ELSE IF ~IsC(ts, k, "{") THEN Bad
          ELSE LET r == ReadOptions(ts, k + 1, <<>>)
               IN IF ~r.ok THEN Bad ELSE ReadRpcs(ts, r.i, Append(ms, [n |-> ts[i+1].v, bs |-> r.val]))

Read(tokens) ==
  LET ts == Significant(tokens) IN
  IF IsW(ts, 1, "service") /\ IsId(ts, 2) /\ IsC(ts, 3, "{") THEN ReadRpcs(ts, 4, <<>>) ELSE Bad
Meaning(text) == Read(Tokens(text))
=============================================================================
