-------------------------------- MODULE Wrap --------------------------------
(* What wrapping endpoints means.  An operation is
     k "all":   every endpoint except those of the list ex
     k "label": the same, the middleware is told the name of the endpoint
     k "one":   the endpoint e alone
   by the middleware m, which lets calls through unless it blocks them.
   Names: the endpoints there are.                                           *)
EXTENDS Naturals, Sequences
Among(x, s) == \E wi \in 1..Len(s) : s[wi] = x
(* an operation naming an endpoint that does not exist is refused *)
Refused(op, names) == op.k # "one" /\ \E wi \in 1..Len(op.ex) : op.ex[wi] \notin names
Wraps(op, names, e) == IF op.k = "one" THEN op.e = e ELSE ~Refused(op, names) /\ ~Among(e, op.ex)
(* the layers of an endpoint after the operations, innermost first *)
RECURSIVE LayersOf(_, _, _)
LayersOf(ops, names, e) ==
  IF ops = <<>> THEN <<>> ELSE
  LET last == ops[Len(ops)] rest == LayersOf(SubSeq(ops, 1, Len(ops) - 1), names, e) IN
  IF Wraps(last, names, e) THEN Append(rest, [m |-> last.m, label |-> IF last.k = "label" THEN e ELSE "", block |-> last.block]) ELSE rest
(* what a call of the endpoint runs into, outermost first *)
RECURSIVE Through(_, _)
Through(layers, e) ==
  IF layers = <<>> THEN <<"handler " \o e, "ok">> ELSE
  LET l == layers[Len(layers)] IN
  <<l.m \o " " \o l.label>> \o (IF l.block THEN <<"blocked by " \o l.m>> ELSE Through(SubSeq(layers, 1, Len(layers) - 1), e))
RunOf(ops, names, e) == Through(LayersOf(ops, names, e), e)
=============================================================================
