------------------------------ MODULE HttpText ------------------------------
(* How text crosses the wire, a character at a time: a string as a path
   segment, and a list of strings in the query.  Checked for every text of the
   bounds; every text is also sent through the generated code.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max,          \* length of a path text
          LMax,         \* length of the elements of a list, and of a list
          Dots,         \* dot segments are escaped
          Quote,        \* a list a server would take for another is given as JSON
          Chars, LChars,
          Mode          \* "http": calls of the client; "forms": the three forms as requests
VARIABLES k, s, l
vars == <<k, s, l>>

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
(* ---- path *)
Unreserved == {"a", "2", "F", ".", "+", "&", "=", ";"}     \* stands for itself in a path segment
CODE == [c \in {"/", "%", "?", " ", "#", ".", "["} |->
          CASE c = "/" -> <<"2", "F">> [] c = "%" -> <<"2", "5">> [] c = "?" -> <<"3", "F">> [] c = " " -> <<"2", "0">> [] c = "#" -> <<"2", "3">>
            [] c = "." -> <<"2", "E">> [] c = "[" -> <<"5", "B">>]
RECURSIVE Esc(_, _)
Esc(t, all) == IF t = <<>> THEN <<>> ELSE (IF Head(t) \in Unreserved /\ ~all THEN <<Head(t)>> ELSE <<"%">> \o CODE[Head(t)]) \o Esc(Tail(t), all)
PathEscape(t) == Esc(t, Dots /\ t \in {<<".">>, <<".", ".">>})
(* splitting a path at its slashes *)
RECURSIVE Split(_, _, _)
Split(t, cur, acc) == IF t = <<>> THEN Append(acc, cur)
                      ELSE IF Head(t) = "/" THEN Split(Tail(t), <<>>, Append(acc, cur)) ELSE Split(Tail(t), Append(cur, Head(t)), acc)
(* a server cleans a path: no empty segments, no . and no .. *)
RECURSIVE Clean(_, _)
Clean(segs, acc) == IF segs = <<>> THEN acc
  ELSE Clean(Tail(segs), IF Head(segs) \in {<<>>, <<".">>} THEN acc
                         ELSE IF Head(segs) = <<".", ".">> THEN (IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1)) ELSE Append(acc, Head(segs)))
(* what is before a "?" or "#" *)
RECURSIVE Before(_)
Before(t) == IF t = <<>> \/ Head(t) \in {"?", "#"} THEN <<>> ELSE <<Head(t)>> \o Before(Tail(t))
RECURSIVE Unesc(_)
Unesc(t) == IF t = <<>> THEN <<>> ELSE IF Head(t) # "%" THEN <<Head(t)>> \o Unesc(Tail(t))
            ELSE LET c == CHOOSE x \in DOMAIN CODE : CODE[x] = <<t[2], t[3]>> IN <<c>> \o Unesc(SubSeq(t, 4, Len(t)))
Sent(t) == Before(<<"/", "v", "/">> \o PathEscape(t) \o <<"/", "e">>)
Segments(t) == Clean(Split(Sent(t), <<>>, <<>>), <<>>)
PathKept == k = "path" /\ s # <<>> => Len(Segments(s)) = 3 /\ Segments(s)[1] = <<"v">> /\ Segments(s)[3] = <<"e">> /\ Unesc(Segments(s)[2]) = s

(* ---- lists: JSON arrays of strings without escapes, and of arrays of these *)
RECURSIVE Value(_, _), Elements(_, _), Skip(_, _), Str(_, _)
Skip(t, i) == IF i <= Len(t) /\ t[i] = " " THEN Skip(t, i + 1) ELSE i
Str(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = "\"" THEN i + 1 ELSE Str(t, i + 1)
(* index after the value at i, 0 if there is none *)
Value(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = "\"" THEN Str(t, i + 1)
               ELSE IF t[i] # "[" THEN 0
               ELSE LET j == Skip(t, i + 1) IN IF j <= Len(t) /\ t[j] = "]" THEN j + 1 ELSE LET es == Elements(t, j) IN es.to
Elements(t, i) == \* [to, vs] of the elements from i to the bracket
  LET a == Skip(t, i) e == Value(t, a) b == IF e = 0 THEN 0 ELSE Skip(t, e) IN
  IF e = 0 \/ b > Len(t) THEN [to |-> 0, vs |-> <<>>]
  ELSE LET x == SubSeq(t, a, e - 1) v == IF x[1] = "\"" THEN SubSeq(x, 2, Len(x) - 1) ELSE x IN
       IF t[b] = "]" THEN [to |-> b + 1, vs |-> <<v>>]
       ELSE IF t[b] # "," THEN [to |-> 0, vs |-> <<>>]
       ELSE LET r == Elements(t, b + 1) IN [to |-> r.to, vs |-> <<v>> \o r.vs]
IsArray(t) == LET i == Skip(t, 1) e == Value(t, i) IN i <= Len(t) /\ t[i] = "[" /\ e # 0 /\ Skip(t, e) = Len(t) + 1
ArrayOf(t) == LET i == Skip(t, 1) j == Skip(t, i + 1) IN IF t[j] = "]" THEN <<>> ELSE Elements(t, j).vs
RECURSIVE Commas(_, _, _)
Commas(t, cur, acc) == IF t = <<>> THEN Append(acc, cur)
                       ELSE IF Head(t) = "," THEN Commas(Tail(t), <<>>, Append(acc, cur)) ELSE Commas(Tail(t), Append(cur, Head(t)), acc)
(* what a server makes of the values of a parameter *)
ListOf(vs) == IF Len(vs) # 1 THEN vs ELSE IF vs[1] = <<>> THEN <<>>
              ELSE IF IsArray(vs[1]) THEN ArrayOf(vs[1]) ELSE Commas(vs[1], <<>>, <<>>)
Has(t, c) == \E i \in 1..Len(t) : t[i] = c
(* JSON text is not in LChars when it has a quote to escape: given as the list itself *)
Given(x) == IF Quote /\ Len(x) = 1 /\ (x[1] = <<>> \/ Has(x[1], ",") \/ Has(x[1], "[")) THEN [json |-> TRUE, vs |-> x] ELSE [json |-> FALSE, vs |-> x]
Got(g) == IF g.json THEN g.vs ELSE ListOf(g.vs)
ListKept == k = "list" => Got(Given(l)) = l
(* the three forms of a list that has no text two of them would read differently *)
RECURSIVE JoinC(_)
JoinC(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] \o <<",">> \o JoinC(Tail(x))
RECURSIVE JoinQ(_)
JoinQ(x) == LET q == <<"\"">> \o x[1] \o <<"\"">> IN IF Len(x) = 1 THEN q ELSE q \o <<",">> \o JoinQ(Tail(x))
Tame(x) == x # <<>> /\ x # <<<<>>>> /\ \A i \in 1..Len(x) : ~\E c \in {",", "[", "\""} : Has(x[i], c)
FormsAgree == k = "list" /\ Tame(l) =>
   /\ ListOf(l) = l
   /\ ListOf(<<JoinC(l)>>) = l
   /\ ListOf(<<<<"[">> \o JoinQ(l) \o <<"]">>>>) = l

Init == \/ k = "path" /\ s \in Seqs(Chars, Max) /\ l = <<>>
        \/ k = "list" /\ s = <<>> /\ l \in UNION {[1..m -> Seqs(LChars, IF m > 2 THEN 1 ELSE LMax)] : m \in 0..3}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Tok(t) == LET RECURSIVE R(_)
              R(i) == IF i > Len(t) THEN "" ELSE (IF t[i] \in {"\"", "\\"} THEN "\\" \o t[i] ELSE t[i]) \o R(i + 1) IN R(1)
Fld(n, c) == [n |-> n, c |-> c, t |-> "string", r |-> 0, key |-> "", oo |-> ""]
Seg(kk, v) == [k |-> kk, v |-> v, pre |-> "", post |-> ""]
Def == [types |-> <<[n |-> "Msg", k |-> "msg", up |-> 0, file |-> 1, f |-> <<Fld("f", "one"), Fld("o", "opt"), Fld("l", "rep")>>]>>, files |-> 1,
        svc |-> [n |-> "Text", file |-> 1, rpcs |-> <<
          [n |-> "P", q |-> 1, s |-> 1, x |-> "", bs |-> <<[verb |-> "get", path |-> <<Seg("lit", "v"), Seg("var", "f"), Seg("lit", "e")>>, body |-> ""]>>],
          [n |-> "Q", q |-> 1, s |-> 1, x |-> "", bs |-> <<[verb |-> "get", path |-> <<Seg("lit", "q")>>, body |-> ""]>>]>>]]
Msg == IF k = "path" THEN (IF s = <<>> THEN [o |-> ""] ELSE [f |-> Tok(s), o |-> Tok(s)]) ELSE IF l = <<>> THEN [x \in {} |-> ""] ELSE [l |-> [i \in 1..Len(l) |-> Tok(l[i])]]
Layout(rpc) == IF rpc = "P" /\ s = <<>> THEN [ok |-> FALSE, verb |-> "", path |-> <<>>, query |-> {}, body |-> {}]
               ELSE [ok |-> TRUE, verb |-> "GET", path |-> IF rpc = "P" THEN <<"v", Tok(PathEscape(s)), "e">> ELSE <<"q">>,
                     query |-> (DOMAIN Msg) \ (IF rpc = "P" THEN {"f"} ELSE {}), body |-> {}]
Call(rpc) == [t |-> "http", rpc |-> rpc, msg |-> Msg, resp |-> Msg, x |-> <<Layout(rpc)>>]
QCODE == [c \in {"a", "2", "/", "%", "+", "&", " ", "[", "]", "\"", ",", "=", "-"} |->
   CASE c = "/" -> "%2F" [] c = "%" -> "%25" [] c = "+" -> "%2B" [] c = "&" -> "%26" [] c = " " -> "%20" [] c = "[" -> "%5B" [] c = "]" -> "%5D"
     [] c = "\"" -> "%22" [] c = "," -> "%2C" [] c = "=" -> "%3D" [] OTHER -> c]
Enc(t) == LET RECURSIVE R(_)
              R(i) == IF i > Len(t) THEN "" ELSE QCODE[t[i]] \o R(i + 1) IN R(1)
Amp(ts) == LET RECURSIVE R(_)
               R(i) == IF i > Len(ts) THEN "" ELSE (IF i > 1 THEN "&" ELSE "") \o "l=" \o Enc(ts[i]) \o R(i + 1) IN R(1)
Raw(q, why) == [t |-> "raw", method |-> "GET", path |-> "/q", query |-> q, body |-> "", want |-> [rpc |-> "Q", msg |-> Msg], why |-> why]
FormCalls == IF l = <<>> THEN <<Raw("", "none"), Raw("l=", "none"), Raw("l=%5B%5D", "json")>>
             ELSE IF ~Tame(l) THEN <<>>
             ELSE <<Raw(Amp(l), "params"), Raw("l=" \o Enc(JoinC(l)), "comma"), Raw("l=%5B" \o Enc(JoinQ(l)) \o "%5D", "json")>>
Emit == PrintT("@@" \o ToJson([calls |-> IF Mode = "forms" THEN (IF k = "path" THEN <<>> ELSE FormCalls) ELSE IF k = "path" THEN <<Call("P"), Call("Q")>> ELSE <<Call("Q")>>]))
       /\ (k = "path" /\ s = <<>> => PrintT("@@" \o ToJson([d |-> Def, transport |-> "all", client |-> FALSE])))
=============================================================================
