----------------------------- MODULE Middleware -----------------------------
(* Wrapping a step at a time, as the generated code does it: the excluded
   names are looked at one after the other, then the endpoints that are left
   are wrapped one after the other in any order.  At rest the layers of every
   endpoint are those Wrap.tla gives it.
   Early: wrap before all names are known to exist (refuted).
   Strict: a name given twice does not exist the second time (refuted).      *)
EXTENDS Wrap, FiniteSets, TLC
CONSTANTS Names, MaxOps, MaxEx, Early, Strict
VARIABLES ops, layers, refused, at, todo, left
vars == <<ops, layers, refused, at, todo, left>>
All == Names \cup {"Nope"}
Exs == UNION {[1..wn -> All] : wn \in 0..MaxEx}
Ops == {[k |-> kk, m |-> ToString(Len(ops) + 1), ex |-> x, e |-> "", block |-> FALSE] : kk \in {"all", "label"}, x \in Exs}
       \cup {[k |-> "one", m |-> ToString(Len(ops) + 1), ex |-> <<>>, e |-> x, block |-> FALSE] : x \in Names}
Init == ops = <<>> /\ layers = [e \in Names |-> <<>>] /\ refused = <<>> /\ at = "rest" /\ todo = <<>> /\ left = {}
Cur == ops[Len(ops)]
Layer(e) == [m |-> Cur.m, label |-> IF Cur.k = "label" THEN e ELSE "", block |-> Cur.block]
Begin == at = "rest" /\ Len(ops) < MaxOps /\ \E o \in Ops :
  /\ ops' = Append(ops, o)
  /\ at' = IF o.k = "one" THEN "wrap" ELSE "check"
  /\ todo' = o.ex
  /\ left' = IF o.k = "one" THEN {o.e} ELSE Names
  /\ UNCHANGED <<layers, refused>>
Check == at = "check" /\
  IF todo = <<>> THEN at' = "wrap" /\ UNCHANGED <<ops, layers, refused, todo, left>>
  ELSE LET x == Head(todo) IN
    IF x \notin Names \/ (Strict /\ x \notin left) THEN at' = "rest" /\ refused' = Append(refused, TRUE) /\ todo' = <<>> /\ UNCHANGED <<ops, layers, left>>
    ELSE todo' = Tail(todo) /\ left' = left \ {x} /\ UNCHANGED <<ops, layers, refused, at>>
WrapOne == (at = "wrap" \/ (Early /\ at = "check" /\ todo # <<>>)) /\ \E e \in left :
  /\ (at = "check" => ~Among(e, todo))
  /\ layers' = [layers EXCEPT ![e] = Append(@, Layer(e))]
  /\ left' = left \ {e}
  /\ UNCHANGED <<ops, refused, at, todo>>
Done == at = "wrap" /\ left = {} /\ at' = "rest" /\ refused' = Append(refused, FALSE) /\ UNCHANGED <<ops, layers, todo, left>>
Next == Begin \/ Check \/ WrapOne \/ Done
Spec == Init /\ [][Next]_vars
AsAsked == at = "rest" => \A e \in Names : layers[e] = LayersOf(ops, Names, e)
RefusedRight == at = "rest" => \A i \in 1..Len(ops) : refused[i] = Refused(ops[i], Names)
(* the middleware wrapped last runs first *)
LastOutermost == at = "rest" => \A e \in Names : \A i, j \in 1..Len(layers[e]) : i < j => layers[e][i].m # layers[e][j].m /\
   \E x, y \in 1..Len(ops) : x < y /\ ops[x].m = layers[e][i].m /\ ops[y].m = layers[e][j].m
=============================================================================
