-------------------------------- MODULE Errs --------------------------------
(* What crosses a call besides request and response: the error of a handler,
   and headers, metadata and context values.                                 *)
EXTENDS HttpGen

(* ---- names of headers, a character at a time *)
Alphabet == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LOW == [c \in {UP[Alphabet[i]] : i \in 1..26} |-> Alphabet[CHOOSE i \in 1..26 : UP[Alphabet[i]] = c]]
LowC(c) == IF c \in DOMAIN LOW THEN LOW[c] ELSE c
UpC(c) == IF c \in Lowers THEN UP[c] ELSE c
RECURSIVE LowFrom(_, _), CanonFrom(_, _)
LowFrom(s, i) == IF i > Len(s) THEN "" ELSE LowC(At(s, i)) \o LowFrom(s, i + 1)
LowerOf(s) == LowFrom(s, 1)
CanonFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 \/ At(s, i - 1) = "-" THEN UpC(At(s, i)) ELSE LowC(At(s, i))) \o CanonFrom(s, i + 1)
Canonical(s) == CanonFrom(s, 1)
(* values of headers, as in Go source *)
HeaderVals == <<"v", "a b", "50%", "\\\"q\\\"", "a,b;c=d", "{}", "", "Bearer x.y-z_~+/=", "\\\\", "0", "http://h/p?q=1">>

(* ---- errors of a handler.  msg: what it says; code: its status, 0 if it has
   none; headers: its own, <<>> if it has none; json: its own JSON form, "" if
   it has none, "!" if that fails; grpc: its gRPC status code, 0 if none      *)
Err(msg, code, headers, json, grpc) == [msg |-> msg, code |-> code, headers |-> headers, json |-> json, grpc |-> grpc, wrap |-> FALSE]
(* an error with another one as its cause; what it says itself is what counts *)
Wrapped(e) == [e EXCEPT !.wrap = TRUE]
JSONS == <<"", "{\"error\":\"own words\"}", "{\"code\":7,\"why\":[\"x\"]}", "\"text\"", "!", "{\"error\":{\"deep\":1}}", "{}", "[]", "0", "\"\"", "null">>
HEADS == <<NoFields, ("X-One" :> <<"1">>), ("X-Two" :> <<"a", "b,c">>) @@ ("x-low" :> <<"L">>), ("Content-Type" :> <<"text/plain">>),
           ("WWW-Authenticate" :> <<"Basic realm=\"x\"", "Bearer">>) @@ ("Retry-After" :> <<"3">>)>>
RECURSIVE Twice(_, _)
Twice(s, n) == IF n = 0 THEN s ELSE Twice(s \o s, n - 1)
(* texts longer than the buffers of readers *)
LongMsgs == <<Twice("long", 8), Twice("ab c", 11), Twice("text of an error", 13)>>
Words(e) == IF Len(e.msg) > 500 THEN "\"" \o e.msg \o "\"" ELSE Row(Strings, e.msg).j
(* what an HTTP caller sees of it *)
StatusOf(e) == IF e.code = 0 THEN 500 ELSE e.code
BodyOf(e) == IF e.json \in {"", "!"} THEN "{\"error\":" \o Words(e) \o "}" ELSE e.json
ErrWant(e) == [status |-> StatusOf(e), body |-> BodyOf(e), headers |-> [h \in {Canonical(n) : n \in DOMAIN e.headers} |->
                  e.headers[CHOOSE n \in DOMAIN e.headers : Canonical(n) = h]],
               text |-> IF e.json \in {"", "!"} THEN Words(e) ELSE IF e.json = JSONS[2] THEN "\"own words\"" ELSE "\"\"",
               words |-> Words(e), grpc |-> e.grpc]
RandErr(x) == LET e == Err(PickSeq(Strings).v, PickSeq(<<0, 400, 401, 403, 404, 409, 418, 422, 429, 451, 499, 500, 501, 503, 504, 599, 600, 999, 201, 202>>), PickSeq(HEADS), PickSeq(JSONS \o <<"">>), 0) IN IF Pick(1..2) = 1 THEN Wrapped(e) ELSE e

(* ---- names and values sent along.  Every name comes in the form it is given
   in; a handler looks for it in both forms.                                  *)
NameChars == <<"a", "B", "z", "Q", "0", "-", "-", "_", "c", "D", ".">>
RECURSIVE RandName(_)
RandName(k) == IF k = 0 THEN PickSeq(<<"q", "Q", "x-q", "X-Q">>) ELSE RandName(k - 1) \o PickSeq(NameChars)
RECURSIVE RandHeads(_)
RandHeads(k) == IF k = 0 THEN NoFields ELSE
  LET h == RandHeads(k - 1) n == RandName(Pick(0..6)) IN
  IF \E o \in DOMAIN h : LowerOf(o) = LowerOf(n) THEN h ELSE (n :> PickSeq(HeaderVals)) @@ h
BothForms(h) == {Canonical(n) : n \in DOMAIN h} \cup {LowerOf(n) : n \in DOMAIN h}
SeenAs(h) == [x \in BothForms(h) |-> h[CHOOSE n \in DOMAIN h : x \in {Canonical(n), LowerOf(n)}]]
(* what the handler must see of the names looked at: those sent, and no others;
   it makes no difference that some are sent with their value twice *)
Along(hdr, ctx, send) ==
  LET sent == Restrict(ctx, send)
      all == hdr @@ sent IN
  [hdr |-> hdr, twice |-> {n \in DOMAIN hdr : Len(n) % 2 = 0}, ctx |-> ctx, send |-> send, see |-> BothForms(hdr) \cup BothForms(ctx) \cup BothForms([n \in send |-> ""]),
   want_ctx |-> SeenAs(all)]
=============================================================================
