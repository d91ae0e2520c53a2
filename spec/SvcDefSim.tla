----------------------------- MODULE SvcDefSim -----------------------------
(* Random definitions, built a declaration at a time. *)
EXTENDS SvcDef
CONSTANTS Steps, Foreign

TypeNames == {"Msg", "msg_two", "Item", "item2", "_hidden", "Foo_Server", "RequestClient", "isOdd", "Outer", "v1_x", "A__b", "Get", "Choice", "Request", "String",
              "Unsafe", "M_", "double_", "UnsafeServer", "Foo", "UnimplementedFoo", "ITEM", "Msgtwo"}
NestedNames == {"Enum", "Type", "Kind", "Item", "Entry", "Message", "Msg", "Value"}
FieldNames == {"a", "b_c", "_x", "x_1", "x1y", "A_B", "string", "reset", "get_a", "descriptor", "long_field_name", "trailing_", "two__under", "CamelCase", "xValue",
               "file_server", "id", "get_id", "marshal", "XXX_y", "type", "ctx", "err", "req", "z9_z", "f_", "Id", "A", "B_c"}
OneofNames == {"choice", "file_server", "get_it", "is_it", "string", "Kind_", "client"}
SvcNames == {"Abc", "echo_svc", "Foo", "X1_server", "IsServer", "UnsafeThing", "_odd", "TheClient"}
RpcNames == {"Do", "do_it", "Get_All", "x", "_y", "List2", "Client", "Server", "two__u", "Isolate", "doit", "LIST2", "get_ALL"}
Verbs == {"get", "put", "post", "delete", "patch", "HEAD"}

Pick(S) == RandomElement(S)
VARIABLES D, n, st
vars == <<D, n, st>>

NewType(x) ==
  LET ms == Msgs(x) up == IF ms = {} \/ Pick(1..3) # 1 THEN 0 ELSE Pick(ms)
      k == IF x.types = <<>> \/ Pick(1..4) # 1 THEN "msg" ELSE "enum"
      t == [n |-> Pick(IF up # 0 /\ Pick(1..3) # 1 THEN NestedNames ELSE TypeNames), k |-> k, up |-> up, file |-> IF up = 0 THEN Pick(1..x.files) ELSE x.types[up].file, f |-> <<>>]
  IN [x EXCEPT !.types = Append(@, t)]
(* files may only refer to files before them, or themselves: imports have no cycles *)
Visible(x, file) == {j \in 1..Len(x.types) : x.types[j].file <= file}
NewField(x) ==
  LET i == Pick(Msgs(x)) vis == Visible(x, x.types[i].file)
      kind == Pick(1..10)
      t == IF kind <= 4 THEN Pick(DOMAIN SCALARS) ELSE IF kind <= 8 THEN "@" ELSE IF kind = 9 THEN Pick(DOMAIN IMPORTED) ELSE "string"
      r == IF t = "@" THEN Pick(vis) ELSE 0
      c == Pick({"one", "rep", "opt", "map"})
      last == x.types[i].f[Len(x.types[i].f)]
      oo == IF Pick(1..4) # 1 THEN ""
            ELSE IF x.types[i].f # <<>> /\ last.oo # "" /\ Pick(1..3) # 1 THEN last.oo ELSE Pick(OneofNames)
      f == [n |-> Pick(FieldNames), c |-> IF oo # "" THEN "one" ELSE c, t |-> t, r |-> r,
            key |-> IF oo = "" /\ c = "map" THEN Pick(MapKeys) ELSE "", oo |-> oo]
  IN [x EXCEPT !.types[i].f = Append(@, f)]
NewRpc(x) ==
  LET vis == Msgs(x) \cap Visible(x, x.svc.file) IN
  IF vis = {} THEN x ELSE [x EXCEPT !.svc.rpcs = Append(@, [n |-> Pick(RpcNames), q |-> Pick(vis), s |-> Pick(vis), x |-> "", bs |-> <<>>])]
NewBinding(x) ==
  IF x.svc.rpcs = <<>> THEN x ELSE
  LET i == Pick(1..Len(x.svc.rpcs))
      fs == x.types[x.svc.rpcs[i].q].f
      plain == {j \in 1..Len(fs) : fs[j].oo = ""}
      Var == [k |-> "var", v |-> LET f == fs[Pick(plain)] IN
                IF f.t = "@" /\ f.c = "one" /\ x.types[f.r].k = "msg" /\ Pick(1..2) = 1 THEN f.n \o ".sub" ELSE f.n]
      Seg == IF plain # {} /\ Pick(1..2) = 1 THEN Var ELSE [k |-> "lit", v |-> Pick({"v1", "items", "a_b", "X.y", "id"})]
      len == Pick(1..4)
      segs == [j \in 1..len |-> IF j = 1 THEN [k |-> "lit", v |-> Pick({"b", "c", "d"}) \o ToString(i) \o ToString(Len(x.svc.rpcs[i].bs))] ELSE Seg]
      body == LET c == Pick(1..4) IN IF c = 1 THEN "*" ELSE IF c = 2 /\ plain # {} THEN fs[Pick(plain)].n ELSE ""
  IN [x EXCEPT !.svc.rpcs[i].bs = Append(@, [verb |-> Pick(Verbs), path |-> segs, body |-> body])]

(* an RPC baron has to refuse *)
Spoil(x) == IF x.svc.rpcs = <<>> THEN x ELSE
  [x EXCEPT !.svc.rpcs[Pick(1..Len(x.svc.rpcs))].x = Pick({"request stream", "response stream", "both streams", "request imported", "response imported"})]
Keep(c) == D' = IF WellFormed(c) THEN c ELSE D
Init == n = 0 /\ st = "types" /\ D = [types |-> <<>>, svc |-> [n |-> "Abc", file |-> 1, rpcs |-> <<>>], files |-> 1]
Start(x) == LET fl == Pick(1..3) IN [types |-> <<>>, svc |-> [n |-> Pick(SvcNames), file |-> Pick(1..fl), rpcs |-> <<>>], files |-> fl]
Next ==
  /\ n < Steps
  /\ n' = n + 1
  /\ LET w == IF n = 0 THEN 0 ELSE IF Foreign /\ n = Steps - 1 THEN 11 ELSE IF n < 4 THEN 1 ELSE IF n < 8 THEN Pick(1..2) ELSE IF n < Steps \div 2 THEN Pick(2..8) ELSE Pick(6..10) IN
     CASE w = 0 -> D' = Start(n)
       [] w = 1 -> Keep(NewType(D))
       [] w \in {2, 3, 4, 5, 6} /\ Msgs(D) # {} -> Keep(NewField(D))
       [] w \in {7, 8} -> Keep(NewRpc(D))
       [] w = 11 -> D' = Spoil(D)
       [] w \in {9, 10} -> D' = NewBinding(D)
       [] OTHER -> D' = D
  /\ st' = IF n + 1 = Steps THEN "done" ELSE "types"
Spec == Init /\ [][Next]_vars
Emit == st = "done" => PrintT("@@" \o ToJson([d |-> D, m |-> Meaning(D)]))
(* C11, of the specification: one place for every field *)
OnePlace == \A i \in 1..Len(D.svc.rpcs) : LET m == D.svc.rpcs[i] IN
   \A b \in 1..Len(m.bs) : \A j \in 1..Len(D.types[m.q].f) : Loc(D.types[m.q].f[j], m.bs[b]) \in {"path", "body", "query"}
=============================================================================
