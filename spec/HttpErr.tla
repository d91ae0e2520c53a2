------------------------------ MODULE HttpErr -------------------------------
(* Every error a handler may return, and every short header name, over one
   definition: as a request and as a call of the client.                     *)
EXTENDS Errs
CONSTANTS Codes, NameLen, NChars
VARIABLES k, code, head, json, name
vars == <<k, code, head, json, name>>
ShortNames == UNION {[1..m -> NChars] : m \in 0..NameLen}
Init == \/ k = "err" /\ code \in Codes /\ head \in 1..Len(HEADS) /\ json \in 1..Len(JSONS) /\ name = <<>>
        \/ k = "long" /\ code \in {0, 404, 503} /\ head \in 1..Len(LongMsgs) /\ json \in {1, 5} /\ name = <<>>
        \/ k = "name" /\ code = 0 /\ head = 1 /\ json = 1 /\ name \in ShortNames
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
F(n, c) == [n |-> n, c |-> c, t |-> "string", r |-> 0, key |-> "", oo |-> ""]
Lit(v) == [k |-> "lit", v |-> v, pre |-> "", post |-> ""]
Var(v) == [k |-> "var", v |-> v, pre |-> "", post |-> ""]
B(v, p, b) == [verb |-> v, path |-> p, body |-> b]
D == [types |-> <<[n |-> "Msg", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("a", "one"), F("b", "opt"), F("c", "rep")>>],
                  [n |-> "Out", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("error", "one"), F("err", "one")>>]>>, files |-> 1,
      svc |-> [n |-> "Errs", file |-> 1, rpcs |-> <<
        [n |-> "First", q |-> 1, s |-> 2, x |-> "", bs |-> <<B("get", <<Lit("v"), Var("a")>>, "")>>],
        [n |-> "Other", q |-> 1, s |-> 1, x |-> "", bs |-> <<B("post", <<Lit("other")>>, "*"), B("put", <<Lit("o"), Var("b")>>, "c"), B("delete", <<Lit("gone")>>, "")>>],
        [n |-> "third", q |-> 1, s |-> 2, x |-> "", bs |-> <<B("patch", <<Lit("third"), Var("a")>>, "*")>>]>>]]
M == [a |-> "a/b", b |-> "+", c |-> <<"a", ",">>]
M1 == [a |-> "a", b |-> "a b"]
Text1(s) == LET RECURSIVE R(_)
                R(i) == IF i > Len(s) THEN "" ELSE s[i] \o R(i + 1) IN "q" \o R(1)
Rot(n) == Strings[1 + (n % Len(Strings))].v
TheErr == IF k = "long" THEN Err(LongMsgs[head], code, NoFields, JSONS[json], 0) ELSE LET e == Err(Rot(code + 7 * head + 11 * json), code, HEADS[head], JSONS[json], 0) IN
          IF (code + head + json) % 2 = 0 THEN Wrapped(e) ELSE e
E == [err |-> TheErr, err_want |-> ErrWant(TheErr)]
Rpc == 1 + ((code + head) % 3)
NoAlong == Along(NoFields, NoFields, {})
Val == HeaderVals[1 + (Len(name) % Len(HeaderVals))]
Flip(s) == LET RECURSIVE R(_)
               R(i) == IF i > Len(s) THEN "" ELSE (IF i % 2 = 1 THEN LowC(At(s, i)) ELSE UpC(At(s, i))) \o R(i + 1) IN R(1)
Out == [error |-> "a", err |-> "null"]
Good(i, j) == LET b == D.svc.rpcs[i].bs[j] fs == FieldsOf(D, i) w == Encode(D, fs, b, M1) IN
   Raw(w.verb, w.path, QueryOf(D, fs, w.query, 1), BodyText(D, fs, b, w.body)) @@ Want(D, i, M1) @@ [why |-> k]
Resp(i) == IF i = 2 THEN M ELSE Out
Calls == IF k \in {"err", "long"}
  THEN <<Good(Rpc, 1 + (json % Len(D.svc.rpcs[Rpc].bs))) @@ E @@ NoAlong, HttpCall(D, Rpc, M, Resp(Rpc)) @@ E @@ NoAlong>>
  ELSE LET n == Text1(name) h == n :> Val @@ ("X-Else" :> "w") IN
       <<Good(1, 1) @@ Along(h, NoFields, {}), HttpCall(D, 2, M, M) @@ Along(NoFields, h, {n}), HttpCall(D, 3, M, Out) @@ Along(NoFields, h, {"X-Else", "X-None"})>>
Emit == PrintT("@@" \o ToJson([calls |-> Calls])) /\ (k = "name" /\ name = <<>> => PrintT("@@" \o ToJson([d |-> D, transport |-> "all", client |-> FALSE])))
(* of the specification: the two forms of a name are forms of each other *)
NamesMeet == k = "name" => LET n == Text1(name) IN
   /\ LowerOf(Canonical(n)) = LowerOf(n) /\ Canonical(LowerOf(n)) = Canonical(n) /\ Canonical(Canonical(n)) = Canonical(n)
   /\ Canonical(Flip(n)) = Canonical(n)
Sound == WellFormed(D) /\ Servable(D)
=============================================================================
