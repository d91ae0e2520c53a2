------------------------------- MODULE Start --------------------------------
(* baron --start: the names a starter definition gets from the name asked for,
   and what happens to the files around it over a history of invocations and of
   edits by the developer.

   tree: path (a sequence of names) -> [k: "file" | "dir" | "link", v]
         v of a file is <<"mine", n>> or <<"def", package, service>>; v of a
         link is the path it leads to, which may not exist
   hist: what was done, whether it succeeded, and the tree after it

   Faults (refuted): "truncate" an existing file is written over, "follow" a
   link that leads nowhere is written through, "anyname" no name is refused.  *)
EXTENDS SvcDef
CONSTANTS Fault, Steps
VARIABLES tree, hist, first
vars == <<tree, hist, first>>

(* ---- names *)
Mapped(s, M) == LET RECURSIVE Go(_)
                    Go(i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) \in DOMAIN M THEN M[At(s, i)] ELSE At(s, i)) \o Go(i + 1)
                IN Go(1)
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Alias(n) == LET m == IF n = "" THEN "start" ELSE n IN IF Ends(m, ".proto") THEN SubSeq(m, 1, Len(m) - 6) ELSE m
Pkg(a) == LowerFrom(Mapped(a, ("-" :> "") @@ (" " :> "")), 1)
Svc(a) == Camel(Mapped(a, ("-" :> "_") @@ (" " :> "_")))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Identifier(s) == Len(s) > 0 /\ At(s, 1) \notin Digits /\ \A i \in 1..Len(s) : At(s, i) \in Letters \cup Digits \cup {"_"}
Parts(s) == LET dots == {i \in 1..Len(s) : At(s, i) = "."}
                from == {1} \cup {i + 1 : i \in dots}
                end(b) == LET ds == {d \in dots : d >= b} IN IF ds = {} THEN Len(s) ELSE (CHOOSE d \in ds : \A e \in ds : d <= e) - 1
            IN {[at |-> b, s |-> SubSeq(s, b, end(b))] : b \in from}
(* the names in the starter itself *)
Own == {"ServiceStatus", "StatusRequest", "StatusResponse", "FAIL", "OK"}
Nameable(a) == /\ Identifier(Svc(a)) /\ Svc(a) \notin Own
               /\ \A p \in Parts(Pkg(a)) : Identifier(p.s) /\ (p.s = "google" => p.at = 1)
(* what the go tool takes a file and a package for by their names *)
Systems == {"windows", "linux", "darwin", "arm", "test", "js", "amd64"}
Buildable(a) == LET ps == Parts(Pkg(a)) head == CHOOSE p \in ps : p.at = 1 last == CHOOSE p \in ps : \A q \in ps : p.at >= q.at
                IN At(head.s, 1) # "_" /\ last.s # "main" /\ ~\E x \in Systems : Ends(head.s, "_" \o x)

(* ---- the file system *)
Has(t, p) == p = <<>> \/ p \in DOMAIN t
Kind(t, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN t THEN t[p].k ELSE "none"
RECURSIVE Real(_, _)
(* where a path leads when all but its last name is followed *)
Real(t, p) == IF Len(p) <= 1 THEN p
              ELSE LET d == Real(t, SubSeq(p, 1, Len(p) - 1))
                       e == IF Kind(t, d) = "link" THEN t[d].v ELSE d
                   IN Append(e, p[Len(p)])
Dir(t, p) == LET r == Real(t, p) IN IF Kind(t, r) = "link" THEN t[r].v ELSE r
Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
Blocked(t, p) == \E q \in Prefixes(p) : Kind(t, Dir(t, q)) = "file" \/ (Kind(t, Real(t, q)) = "link" /\ ~Has(t, Dir(t, q)))
Missing(t, p) == {Dir(t, q) : q \in {q \in Prefixes(p) : Kind(t, Dir(t, q)) = "none"}}
Put(t, p, n) == (p :> n) @@ t
WithDirs(t, ps) == [p \in DOMAIN t \cup ps |-> IF p \in ps THEN [k |-> "dir", v |-> <<>>] ELSE t[p]]

File(a) == Pkg(a) \o ".proto"
Target(t, a, o) == Real(t, Append(o.dir, File(a)))
Refused(t, a, o) == \/ ~Nameable(a) /\ Fault # "anyname"
                    \/ Blocked(t, o.dir)
                    \/ LET p == Target(t, a, o) k == Kind(t, p) IN
                       CASE k = "none" -> FALSE
                         [] k = "file" -> Fault # "truncate"
                         [] k = "link" -> Has(t, t[p].v) \/ Fault # "follow"
                         [] OTHER -> TRUE
Starter(a) == [k |-> "file", v |-> <<"def", Pkg(a), Svc(a)>>]
After(t, n, o) == LET a == Alias(n) p == Target(t, a, o) IN
  IF Refused(t, a, o) THEN t
  ELSE Put(WithDirs(t, Missing(t, o.dir)), IF Kind(t, p) = "link" THEN t[p].v ELSE p, Starter(a))

(* ---- what is tried *)
Out(a, d) == [arg |-> a, dir |-> d]
Outs == {Out("", <<>>), Out(".", <<>>), Out("sub", <<"sub">>), Out("sub/deep/", <<"sub", "deep">>), Out("./real", <<"real">>), Out("ln", <<"ln">>),
         Out("ln/more", <<"ln", "more">>), Out("occ", <<"occ">>), Out("occ/x", <<"occ", "x">>), Out("@/sub", <<"sub">>), Out("lost", <<"lost">>), Out("a b", <<"a b">>)}
Asked == {"foo-bar", "FooBar", "foobar.proto", "", "start", "x", "OK", "1"}
F(n) == [k |-> "file", v |-> <<"mine", n>>]
D == [k |-> "dir", v |-> <<>>]
L(p) == [k |-> "link", v |-> p]
Base == (<<"occ">> :> F("occ")) @@ (<<"real">> :> D) @@ (<<"ln">> :> L(<<"real">>)) @@ (<<"lost">> :> L(<<"nowhere">>)) @@ (<<"other.proto">> :> F("other"))
Targets == {F("t"), F(""), D, L(<<"other.proto">>), L(<<"gone">>)}
Trees == {Base} \cup {(p :> n) @@ Base : p \in {<<"foobar.proto">>, <<"real", "foobar.proto">>, <<"start.proto">>}, n \in Targets}
         \cup {(<<"sub">> :> D) @@ (<<"sub", "foobar.proto">> :> F("s")) @@ Base, (<<"sub">> :> D) @@ (<<"sub", "deep">> :> F("d")) @@ Base, (<<"sub">> :> L(<<"real">>)) @@ Base}

Rec(op, ok, t) == [op |-> op, ok |-> ok, tree |-> {[p |-> p, n |-> t[p]] : p \in DOMAIN t}]
Do(n, o) == /\ tree' = After(tree, n, o)
            /\ hist' = Append(hist, Rec([op |-> "start", name |-> n, out |-> o.arg, given |-> n # "" \/ o.arg # ""], ~Refused(tree, Alias(n), o), tree'))
Edit(p) == /\ tree[p].k = "file" /\ tree[p].v[1] # "mine" /\ tree' = [tree EXCEPT ![p].v = <<"mine", "edited">>]
           /\ hist' = Append(hist, Rec([op |-> "edit", path |-> p], TRUE, tree'))
Gone(p) == /\ tree[p].k = "file" /\ Len(p) > 1 /\ tree' = [q \in DOMAIN tree \ {p} |-> tree[q]]
           /\ hist' = Append(hist, Rec([op |-> "remove", path |-> p], TRUE, tree'))
Init == hist = <<>> /\ tree \in Trees /\ first = tree
Next == Len(hist) < Steps /\ UNCHANGED first /\ ((\E n \in Asked, o \in Outs : Do(n, o)) \/ (\E p \in DOMAIN tree : Edit(p) \/ Gone(p)))
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Started == Len(hist') > Len(hist) /\ hist'[Len(hist')].op.op = "start"
Kept == [][Started => \A p \in DOMAIN tree : p \in DOMAIN tree' /\ tree'[p] = tree[p]]_vars
Created == {p \in DOMAIN tree' : p \notin DOMAIN tree}
OneFile == [][Started => IF hist'[Len(hist')].ok THEN Cardinality({p \in Created : tree'[p].k = "file"}) = 1 ELSE Created = {}]_vars
(* whatever is written can be named so *)
Usable == \A p \in DOMAIN tree : tree[p].k = "file" /\ tree[p].v[1] = "def" => Identifier(tree[p].v[3]) /\ tree[p].v[3] \notin Own
(* it is where it says it is *)
Placed == \A p \in DOMAIN tree : tree[p].k = "file" /\ tree[p].v[1] = "def" => p[Len(p)] = tree[p].v[2] \o ".proto"
View == <<tree, first, Len(hist)>>
Emit == Len(hist) = Steps => PrintT("@@" \o ToJson([first |-> {[p |-> p, n |-> first[p]] : p \in DOMAIN first}, steps |-> hist]))
=============================================================================
