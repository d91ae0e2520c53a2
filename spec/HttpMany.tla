------------------------------ MODULE HttpMany ------------------------------
(* RPCs with as many HTTP bindings as one likes, beside RPCs whose names are
   those of the first with the words for a number behind it.  Every binding is
   called, and the client's call is laid out by one of them.                 *)
EXTENDS HttpGen
CONSTANTS Counts, Mode
VARIABLES k, at
vars == <<k, at>>
Lit(v) == [k |-> "lit", v |-> v, pre |-> "", post |-> ""]
Var(v) == [k |-> "var", v |-> v, pre |-> "", post |-> ""]
F(n, cc, t) == [n |-> n, c |-> cc, t |-> t, r |-> 0, key |-> "", oo |-> ""]
Types == <<[n |-> "Request", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("a", "one", "string"), F("b_c", "opt", "int32"), F("list", "rep", "uint64"), F("ok", "one", "bool")>>],
           [n |-> "Response", k |-> "msg", up |-> 0, file |-> 1, f |-> <<F("text", "one", "string")>>]>>
VERBS == <<"get", "post", "put", "patch", "delete", "PURGE">>
BODIES == <<"", "*", "list", "b_c", "", "ok", "a">>
B(tag, j) == LET body == BODIES[1 + (j % Len(BODIES))] IN
  [verb |-> VERBS[1 + (j % Len(VERBS))], body |-> body,
   path |-> <<Lit(tag), Lit("n" \o ToString(j))>> \o (IF j % 3 = 0 THEN <<Var("ok")>> ELSE IF j % 5 = 1 THEN <<Var("a"), Lit("end")>> ELSE <<>>)]
\* a field is bound to one place only
Fair(b) == IF \E i \in 1..Len(b.path) : b.path[i].k = "var" /\ b.path[i].v = b.body THEN [b EXCEPT !.body = ""] ELSE b
Bs(tag, n) == [j \in 1..n |-> Fair(B(tag, j))]
NAMES == <<"Do", "DoOne", "DoZero", "Do_OneZero", "do_one_zero_", "DoTwo", "DoOneOne", "Do_One_">>
D == [types |-> Types, files |-> 1,
      svc |-> [n |-> "Many", file |-> 1,
               rpcs |-> [i \in 1..Len(NAMES) |-> [n |-> NAMES[i], q |-> 1, s |-> 2, x |-> "", bs |-> Bs("r" \o ToString(i), IF i = 1 THEN k ELSE IF i = 2 THEN 11 ELSE 1 + (i % 3))]]]]
Concat(ss) == LET RECURSIVE R(_)
                  R(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o R(i + 1) IN R(1)
T(x, j) == LET t == Table(D, Types[1].f[x]) IN t[2 + (j % (Len(t) - 1))].v
M(j) == [a |-> T(1, j), ok |-> "true"] @@ (IF j % 3 = 0 THEN NoFields ELSE [b_c |-> T(2, j)] @@ (IF j % 3 = 1 THEN NoFields ELSE [list |-> <<T(3, j), T(3, j + 1)>>]))
Calls == Concat([i \in 1..Len(NAMES) |->
   IF Mode = "raw" THEN Concat([j \in 1..Len(D.svc.rpcs[i].bs) |-> RawFor(D, i, j, M(j), "good") \o RawFor(D, i, j, M(j), "badbody") \o RawFor(D, i, j, M(j), "verb")])
   ELSE [j \in 1..3 |-> HttpCall(D, i, M(j + k), [text |-> "t" \o ToString(j)])]])
Init == k \in Counts /\ at = "new"
Next == at = "new" /\ at' = "done" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Emit == at = "done" => PrintT("@@" \o ToJson([d |-> D, transport |-> "all", client |-> FALSE, calls |-> IF Mode = "compile" THEN <<>> ELSE Calls]))
Sound == WellFormed(D) /\ Servable(D)
ReadBack == at = "new" => \A i \in 1..Len(NAMES) : \A j \in 1..3 : RoundTrip(D, i, M(j + k)) /\ OncePlaced(D, i, M(j + k))
=============================================================================
