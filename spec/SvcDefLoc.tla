----------------------------- MODULE SvcDefLoc -----------------------------
(* C11, exhaustively: one request with a field of every kind, and every
   combination of path variables, body clause, verb and position of the binding
   among the bindings of the RPC. *)
EXTENDS SvcDef
CONSTANTS MaxVars
Fields == << [n |-> "a", c |-> "one", t |-> "string", r |-> 0, key |-> "", oo |-> ""],
             [n |-> "b_c", c |-> "opt", t |-> "int64", r |-> 0, key |-> "", oo |-> ""],
             [n |-> "string", c |-> "one", t |-> "bool", r |-> 0, key |-> "", oo |-> ""],
             [n |-> "m", c |-> "one", t |-> "@", r |-> 2, key |-> "", oo |-> ""],
             [n |-> "rep_", c |-> "rep", t |-> "uint32", r |-> 0, key |-> "", oo |-> ""],
             [n |-> "mp", c |-> "map", t |-> "string", r |-> 0, key |-> "string", oo |-> ""],
             [n |-> "ab", c |-> "one", t |-> "string", r |-> 0, key |-> "", oo |-> ""],   \* names that go on from one another
             [n |-> "mps", c |-> "rep", t |-> "string", r |-> 0, key |-> "", oo |-> ""],
             [n |-> "x", c |-> "one", t |-> "string", r |-> 0, key |-> "", oo |-> "choice_"],
             [n |-> "y", c |-> "one", t |-> "int32", r |-> 0, key |-> "", oo |-> "choice_"] >>
Vars == {"a", "ab", "b_c", "string", "m.sub", "rep_"}
Bodies == {"", "*", "a", "b_c", "string", "m", "rep_", "mp", "mps", "ab", "choice_"}
VerbSeq == <<"get", "post", "put", "patch", "delete", "HEAD">>
VARIABLES vs, body, rot
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Order(S \ {x})
Bind(k) == [verb |-> VerbSeq[((k + rot) % 6) + 1], body |-> body,
            path |-> <<[k |-> "lit", v |-> IF k % 2 = 0 THEN "ab" ELSE "v" \o ToString(k)]>> \o [j \in 1..Cardinality(vs) |-> [k |-> "var", v |-> Order(vs)[j]]]]
D == [types |-> << [n |-> "Request", k |-> "msg", up |-> 0, file |-> 1, f |-> Fields],
                   [n |-> "Sub", k |-> "msg", up |-> 0, file |-> 1, f |-> <<[n |-> "sub", c |-> "one", t |-> "string", r |-> 0, key |-> "", oo |-> ""]>>] >>,
      files |-> 1, svc |-> [n |-> "Loc", file |-> 1, rpcs |-> <<[n |-> "Do", q |-> 1, s |-> 2, x |-> "", bs |-> [k \in 1..6 |-> Bind(k)]]>>]]
Init == vs \in {S \in SUBSET Vars : Cardinality(S) <= MaxVars} /\ body \in Bodies /\ rot \in 0..5
Next == UNCHANGED <<vs, body, rot>>
Spec == Init /\ [][Next]_<<vs, body, rot>>
Emit == PrintT("@@" \o ToJson([d |-> D, m |-> Meaning(D)]))
(* One place per field; the path wins over the body, the body over the query. *)
Rule == \A k \in 1..6 : LET b == D.svc.rpcs[1].bs[k] IN
  \A j \in 1..Len(Fields) : LET f == Fields[j] p == f.oo = "" /\ f.n \in PathVars(b) IN
    /\ (Loc(f, b) = "path") = p
    /\ (Loc(f, b) = "body") = (~p /\ (b.body = "*" \/ b.body = f.n \/ (f.oo # "" /\ b.body = f.oo)))
    /\ (Loc(f, b) = "query") = ~(Loc(f, b) \in {"path", "body"})
=============================================================================
