------------------------------ MODULE HttpSim -------------------------------
(* Random definitions with HTTP bindings, then random calls of them.  Of every
   definition and message the specification itself is checked: every request
   belongs to its own binding and is read back as it was.                    *)
EXTENDS Errs, Wrap
CONSTANTS Steps, Calls, Mode    \* Mode: "http", "raw", "list", "err"
VARIABLES D, n, calls, at
vars == <<D, n, calls, at>>

TypeNames == {"Msg", "msg_two", "Item", "item2", "_hidden", "Foo_Server", "isOdd", "Outer", "v1_x", "A__b", "Get", "Choice", "Request", "String", "M_", "double_"}
FieldNames == {"a", "b_c", "_x", "x_1", "x1y", "A_B", "string", "reset", "get_a", "descriptor", "long_field_name", "trailing_", "two__under", "CamelCase", "xValue",
               "file_server", "id", "get_id", "marshal", "XXX_y", "type", "ctx", "err", "req", "z9_z", "f_", "Id", "A", "B_c", "body", "values", "path", "u", "r",
               "buf", "queryParams", "pathParams", "ok", "v", "data", "range", "func", "nil", "len", "error", "status", "code", "message"}
OneofNames == {"choice", "file_server", "get_it", "is_it", "string", "Kind_", "client"}
SvcNames == {"Abc", "echo_svc", "Foo", "X1_server", "IsServer", "_odd", "TheClient"}
RpcNames == {"Do", "do_it", "Get_All", "x", "_y", "List2", "Client", "Server", "two__u", "Isolate", "Func", "type", "Select", "Get", "err", "Do_It_", "doit", "GET", "SELECT", "list2_"}
Verbs == {"get", "put", "post", "delete", "patch", "PURGE", "Search"}
Lits == {"v1", "items", "a_b", "X.y", "id", "v2", "0"}

NewType(x) ==
  LET ms == Msgs(x) up == IF ms = {} \/ Pick(1..3) # 1 THEN 0 ELSE Pick(ms)
      k == IF x.types = <<>> \/ Pick(1..4) # 1 THEN "msg" ELSE "enum"
      t == [n |-> Pick(TypeNames), k |-> k, up |-> up, file |-> IF up = 0 THEN Pick(1..x.files) ELSE x.types[up].file, f |-> <<>>]
  IN [x EXCEPT !.types = Append(@, t)]
Visible(x, file) == {j \in 1..Len(x.types) : x.types[j].file <= file}
NewField(x) ==
  LET i == Pick(Msgs(x)) vis == Visible(x, x.types[i].file)
      kind == Pick(1..12)
      nm == Pick(FieldNames)
      t == IF nm = "error" /\ kind <= 7 THEN "string" ELSE IF kind <= 7 THEN Pick(DOMAIN SCALARS) ELSE IF kind <= 10 THEN "@" ELSE IF kind = 11 THEN Pick(DOMAIN IMPORTED) ELSE "string"
      r == IF t = "@" THEN Pick(vis) ELSE 0
      c == PickSeq(<<"one", "one", "rep", "opt", "map", "rep">>)
      last == x.types[i].f[Len(x.types[i].f)]
      oo == IF Pick(1..4) # 1 THEN ""
            ELSE IF x.types[i].f # <<>> /\ last.oo # "" /\ Pick(1..3) # 1 THEN last.oo ELSE Pick(OneofNames)
      f == [n |-> nm, c |-> IF oo # "" THEN "one" ELSE c, t |-> t, r |-> r,
            key |-> IF oo = "" /\ c = "map" THEN Pick(MapKeys) ELSE "", oo |-> oo]
  IN [x EXCEPT !.types[i].f = Append(@, f)]
NewRpc(x) ==
  LET vis == Msgs(x) \cap Visible(x, x.svc.file) big == {i \in vis : Len(x.types[i].f) > 1} IN
  IF vis = {} THEN x ELSE [x EXCEPT !.svc.rpcs = Append(@, [n |-> Pick(RpcNames), q |-> Pick(IF big = {} THEN vis ELSE big), s |-> Pick(vis), x |-> "", bs |-> <<>>])]
NewBinding(x) ==
  IF x.svc.rpcs = <<>> THEN x ELSE
  LET cap == PickSeq(<<2, 3, 4, 4, 13>>)
      bare == {i \in 1..Len(x.svc.rpcs) : x.svc.rpcs[i].bs = <<>>}
      i == IF bare # {} /\ Pick(1..3) # 1 THEN Pick(bare) ELSE Pick(1..Len(x.svc.rpcs))
      fs == x.types[x.svc.rpcs[i].q].f
      plain == {j \in 1..Len(fs) : InPath(x, fs[j])}
      whole == {j \in 1..Len(fs) : fs[j].oo = ""}
      Var(q) == LET k == Pick(1..6) IN [k |-> "var", v |-> fs[Pick(plain)].n, pre |-> IF k = 1 THEN "p-" ELSE "", post |-> IF k \in {1, 2} THEN ":go" ELSE ""]
      Seg(q) == IF plain # {} /\ Pick(1..2) = 1 THEN Var(q) ELSE [k |-> "lit", v |-> Pick(Lits), pre |-> "", post |-> ""]
      len == Pick(1..4)
      RECURSIVE Segs(_)
      Segs(q) == IF q = 0 THEN <<>> ELSE Append(Segs(q - 1), Seg(q))
      body == LET c == Pick(1..4) IN IF c <= 2 THEN "*" ELSE IF c = 3 /\ whole # {} THEN fs[Pick(whole)].n ELSE ""
  IN IF Len(x.svc.rpcs[i].bs) >= cap THEN x ELSE [x EXCEPT !.svc.rpcs[i].bs = Append(@, [verb |-> Pick(Verbs), path |-> Segs(len), body |-> body])]
Keep(c) == D' = IF WellFormed(c) /\ Servable(c) THEN c ELSE D
Start(x) == LET fl == Pick(1..2) IN [types |-> <<>>, svc |-> [n |-> Pick(SvcNames), file |-> Pick(1..fl), rpcs |-> <<>>], files |-> fl]

Bound == {i \in 1..Len(D.svc.rpcs) : D.svc.rpcs[i].bs # <<>>}
Grow == LET w == IF n = 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE IF n < 8 THEN Pick(1..2) ELSE IF n < Steps \div 2 THEN Pick(2..8) ELSE Pick(5..12) IN
     CASE w = 0 -> D' = Start(n)
       [] w = 1 -> Keep(NewType(D))
       [] w \in {2, 3, 4, 5} /\ Msgs(D) # {} -> Keep(NewField(D))
       [] w \in {6, 7} /\ Len(D.svc.rpcs) < 5 -> Keep(NewRpc(D))
       [] w \in {8, 9, 10, 11, 12} -> Keep(NewBinding(D))
       [] OTHER -> D' = D
NewCalls(x) ==
  CASE Mode = "http" -> IF Bound = {} THEN <<>> ELSE LET i == Pick(Bound) m0 == Msg(D, D.svc.rpcs[i].q)
                            m == IF Pick(1..12) = 1 THEN m0 ELSE FitAll(D, FieldsOf(D, i), D.svc.rpcs[i].bs, m0, 1) IN
                        <<[i |-> i, c |-> HttpCall(D, i, m, Msg(D, D.svc.rpcs[i].s)), m |-> m]>>
    [] Mode = "raw" -> IF Bound = {} THEN <<>> ELSE LET i == Pick(Bound) j == Pick(1..Len(D.svc.rpcs[i].bs)) b == D.svc.rpcs[i].bs[j] fs == FieldsOf(D, i)
                            m == Fit(D, fs, b, Msg(D, D.svc.rpcs[i].q), 1) kind == PickSeq(Kinds) r == RawFor(D, i, j, m, kind) IN
                       [k \in 1..Len(r) |-> [i |-> i, c |-> r[k] @@ [why |-> kind], m |-> m]]
    [] Mode = "list" ->
         LET ok == {p \in Bound \X (1..20) \X (1..20) : LET bs == D.svc.rpcs[p[1]].bs fs == FieldsOf(D, p[1]) IN
                      p[2] <= Len(bs) /\ p[3] <= Len(fs) /\ IsListParam(D, fs[p[3]]) /\ Loc(fs[p[3]], bs[p[2]]) = "query"} IN
         IF ok = {} THEN <<>> ELSE
         LET p == Pick(ok) i == p[1] b == D.svc.rpcs[i].bs[p[2]] fs == FieldsOf(D, i) f == fs[p[3]]
             v == RandList(D, f, 1, Pick(1..5))
             m == With(Fit(D, fs, b, Msg(D, D.svc.rpcs[i].q), 1), f.n, v)
             w == Encode(D, fs, b, m)
             rest == QueryOf(D, fs, Restrict(w.query, (DOMAIN w.query) \ {f.n}), 1)
             body == BodyText(D, fs, b, w.body)
             forms == Forms(D, f, v)
             One(form) == IF form \in forms THEN <<[i |-> i, m |-> m, c |-> Raw(w.verb, w.path, rest \o ListParams(D, f, v, form), body) @@ Want(D, i, m) @@ [why |-> form]]>> ELSE <<>> IN
         One("params") \o One("comma") \o One("json")
    [] Mode = "err" -> IF Bound = {} THEN <<>> ELSE
         LET i == Pick(Bound) bs == D.svc.rpcs[i].bs j == Pick(1..Len(bs)) fs == FieldsOf(D, i)
             m == FitAll(D, fs, bs, Msg(D, D.svc.rpcs[i].q), 1)
             fails == Pick(1..3) # 1
             e == RandErr(x)
             hs == RandHeads(Pick(0..4)) hn == DOMAIN hs
             ctx == Restrict(hs, Pick(SUBSET hn)) hdr == Restrict(hs, hn \ DOMAIN ctx)
             send == Pick(SUBSET hn)
             along == IF Pick(1..2) = 1 THEN Along(hdr, NoFields, {}) ELSE Along(NoFields, IF Pick(1..2) = 1 THEN hs ELSE Restrict(hs, Pick(SUBSET hn)), send)
             c == IF DOMAIN along.ctx = {} /\ Pick(1..3) # 1 THEN RawFor(D, i, j, m, "good")[1] @@ [why |-> "err"] ELSE HttpCall(D, i, m, Msg(D, D.svc.rpcs[i].s))
             d == c @@ (IF c.t = "http" THEN Along(NoFields, along.ctx, along.send) ELSE along)
         IN <<[i |-> i, m |-> m, c |-> IF fails THEN d @@ [err |-> e, err_want |-> ErrWant(e)] ELSE d]>>
    [] Mode \in {"grpc", "nats"} -> IF D.svc.rpcs = <<>> THEN <<>> ELSE
         LET i == Pick(1..Len(D.svc.rpcs)) r == D.svc.rpcs[i] m == Msg(D, r.q) s == Msg(D, r.s)
             fails == Pick(1..4) = 1
             e == IF Mode = "grpc" THEN Err(PickSeq(Strings).v, PickSeq(<<0, 0, 404>>), NoFields, "", PickSeq(<<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)) ELSE RandErr(x)
             hs == RandHeads(Pick(0..4)) hn == DOMAIN hs
             ctx == Restrict(hs, Pick(SUBSET hn))
             send == Pick(SUBSET hn)
             c == RpcCall(D, i, Mode, m, s) @@ (IF Mode = "grpc" THEN Along(Restrict(hs, hn \ DOMAIN ctx), ctx, send) ELSE [servers |-> Pick(1..3)])
         IN <<[i |-> i, m |-> m, c |-> IF fails THEN c @@ [err |-> e, err_want |-> ErrWant(e)] ELSE c]>>
    [] Mode = "wrap" -> IF D.svc.rpcs = <<>> THEN <<>> ELSE
         LET names == {Camel(D.svc.rpcs[i].n) : i \in 1..Len(D.svc.rpcs)}
             Name(q) == IF Pick(1..16) = 1 THEN Pick({"Nope", "", "do it", "Endpoint"}) ELSE Pick(names)
             RECURSIVE Ex(_)
             Ex(q) == IF q = 0 THEN <<>> ELSE Append(Ex(q - 1), Name(q))
             RECURSIVE Ops(_)
             Ops(q) == IF q = 0 THEN <<>> ELSE LET k == PickSeq(<<"all", "label", "all", "label", "one">>) IN
               Append(Ops(q - 1), [k |-> k, m |-> "m" \o ToString(q), ex |-> IF k = "one" THEN <<>> ELSE Ex(Pick(0..3)), e |-> IF k = "one" THEN Pick(names) ELSE "", block |-> Pick(1..12) = 1])
             RECURSIVE Fair(_)
             Fair(q) == Ops(Pick(1..7))
             ops == Fair(x)
         IN <<[i |-> 1, m |-> NoFields, c |-> [t |-> "wrap", ops |-> ops, refused |-> [i \in 1..Len(ops) |-> Refused(ops[i], names)], runs |-> [e \in names |-> RunOf(ops, names, e)]]]>>
    [] OTHER -> <<>>
Init == n = 0 /\ calls = <<>> /\ D = [types |-> <<>>, svc |-> [n |-> "Abc", file |-> 1, rpcs |-> <<>>], files |-> 1] /\ at = "grow"
Next ==
  /\ n < Steps + Calls
  /\ n' = n + 1
  /\ IF n < Steps THEN Grow /\ calls' = (IF Mode = "compile" /\ n \in {12, Steps \div 2} THEN Append(calls, D) ELSE calls)
     ELSE D' = D /\ calls' = calls \o NewCalls(n)
  /\ at' = IF n + 1 = Steps + Calls THEN "done" ELSE "grow"
Spec == Init /\ [][Next]_vars
(* a definition and the one it is changed to: a larger, a smaller, or its other half *)
Bare(x) == [x EXCEPT !.svc.rpcs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.bs = <<>>]]]
Retyped(x) == [x EXCEPT !.svc.rpcs = [i \in 1..Len(x.svc.rpcs) |-> LET r == x.svc.rpcs[i] IN [r EXCEPT !.q = r.s, !.s = r.q, !.bs = <<>>]]]
Dropped(x) == [x EXCEPT !.svc.rpcs = SelectSeq(@, LAMBDA r : r.n # x.svc.rpcs[1].n)]
Pairs == <<<<calls[1], D>>, <<calls[2], D>>, <<D, calls[2]>>, <<D, Bare(D)>>, <<Retyped(D), D>>, <<D, Retyped(D)>>,
           IF D.svc.rpcs = <<>> THEN <<D, D>> ELSE <<D, Dropped(D)>>>>
(* What compiles after the change is generated code, and the developer's own
   as long as what it names is still there: the bodies of the handlers name
   the responses, the example client the requests and the RPCs.              *)
SubsetRpcs(x, y) == \A i \in 1..Len(x.svc.rpcs) : \E j \in 1..Len(y.svc.rpcs) :
  LET r == x.svc.rpcs[i] q == y.svc.rpcs[j] IN r.n = q.n /\ r.q = q.q /\ r.s = q.s /\ (r.bs # <<>> => q.bs # <<>>)
Parts(x, y) == IF SubsetRpcs(x, y) /\ (x.svc.rpcs = <<>> => y.svc.rpcs = <<>>) THEN "all"
               ELSE IF \A i \in 1..Len(x.svc.rpcs) : \A j \in 1..Len(y.svc.rpcs) : x.svc.rpcs[i].n = y.svc.rpcs[j].n => x.svc.rpcs[i].s = y.svc.rpcs[j].s THEN "service" ELSE "generated"
EmitPair == at = "done" => LET p == PickSeq(Pairs) IN
  PrintT("@@" \o ToJson([d |-> p[1], then |-> p[2], parts |-> Parts(p[1], p[2]), transport |-> PickSeq(<<"", "all", "grpc", "nats">>), client |-> Pick(BOOLEAN), calls |-> <<>>]))
Emit == at = "done" /\ calls # <<>> => PrintT("@@" \o ToJson([d |-> D, transport |-> "all", client |-> FALSE, calls |-> [k \in 1..Len(calls) |-> calls[k].c]]))
(* of the specification *)
ReadBack == Mode \notin {"grpc", "nats", "compile", "wrap"} => \A k \in 1..Len(calls) : k = Len(calls) => RoundTrip(D, calls[k].i, calls[k].m)
Placed == Mode \notin {"grpc", "nats", "compile", "wrap"} => \A k \in 1..Len(calls) : k = Len(calls) => OncePlaced(D, calls[k].i, calls[k].m)
=============================================================================
