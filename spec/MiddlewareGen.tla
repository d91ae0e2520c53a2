--------------------------- MODULE MiddlewareGen ----------------------------
(* Every sequence of wrapping operations of the bounds on a service of three
   RPCs, with what every endpoint must run into.                             *)
EXTENDS Wrap, TLC, Json
CONSTANTS MaxOps, MaxEx
VARIABLES ops, at
vars == <<ops, at>>
Names == {"Do", "GetIt", "X_Y"}
Msg == [n |-> "Msg", k |-> "msg", up |-> 0, file |-> 1, f |-> <<>>]
Def0 == [types |-> <<Msg>>, files |-> 1, svc |-> [n |-> "Wrapped", file |-> 1, rpcs |-> [i \in 1..3 |->
           [n |-> <<"Do", "get_it", "X_Y">>[i], q |-> 1, s |-> 1, x |-> "", bs |-> <<>>]]]]
Exs == UNION {[1..wn -> Names \cup {"Nope"}] : wn \in 0..MaxEx}
Ops(i) == {[k |-> kk, m |-> "m" \o ToString(i), ex |-> x, e |-> "", block |-> FALSE] : kk \in {"all", "label"}, x \in Exs}
          \cup {[k |-> "label", m |-> "m" \o ToString(i), ex |-> <<>>, e |-> "", block |-> TRUE]}
          \cup {[k |-> "one", m |-> "m" \o ToString(i), ex |-> <<>>, e |-> x, block |-> FALSE] : x \in Names}
Init == ops = <<>> /\ at = "grow"
Next == \/ at = "grow" /\ Len(ops) < MaxOps /\ (\E o \in Ops(Len(ops) + 1) : ops' = Append(ops, o)) /\ UNCHANGED at
        \/ at = "grow" /\ ops = <<>> /\ at' = "def" /\ UNCHANGED ops
Spec == Init /\ [][Next]_vars
CallOf(o) == [t |-> "wrap", ops |-> o, refused |-> [i \in 1..Len(o) |-> Refused(o[i], Names)], runs |-> [e \in Names |-> RunOf(o, Names, e)]]
Emit == IF at = "def" THEN PrintT("@@" \o ToJson([d |-> Def0, transport |-> "all", client |-> FALSE]))
        ELSE PrintT("@@" \o ToJson([calls |-> <<CallOf(ops)>>]))
=============================================================================
