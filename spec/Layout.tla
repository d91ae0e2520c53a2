------------------------------- MODULE Layout -------------------------------
(* Where a run of baron puts what it generates.  Paths are sequences of names
   from one root on; the directory of GOPATH is the root itself, so that an
   import path p names the directory <<"src">> \o p.  A module whose import path
   is ex.com/@ lies at that place below GOPATH or somewhere else.

   proj: dir of the proto files, their names in the order given, which of them
         has the service, the service's name, how many directories GOPATH has
         (0: the variable is not set; the module is below the first, and below
         the others there is never anything), and the place of the module
   tree: paths of the files there are, without go.mod and the proto files
   log:  the runs so far

   A run: cwd, o the output option, c client, t transport, shape how the
   options are written, x a further option, files and at the files as they are
   by then (the service may have moved from one to another, and the order may
   be another), bad "" or what makes the run one to be refused.

   Faults (refuted): "always" a service directory of its own whatever was asked
   for, "both" a client whether or not it was asked for, "cwd" protocol code in
   the current directory, "stale" protocol code of the files as they were stays,
   "wide" with what an earlier version left its neighbours go.                *)
EXTENDS SvcDef
CONSTANTS Fault, Runs
VARIABLES proj, tree, log
vars == <<proj, tree, log>>

Mod == proj.place                  \* @ is told apart by the driver
Places == {<<"src", "ex.com", "@">>, <<"proj", "@">>}
Lower(s) == LowerFrom(s, 1)
Name == Lower(Camel(proj.svc))
Own == Name \o "-service"
(* ---- output options: rel to the current directory, an import path, or
   absolute; in how they are written # is the root, ! the module, % the name *)
Rel(s, up, p, slash) == [s |-> s, k |-> "rel", up |-> up, p |-> p, slash |-> slash]
Imp(s, p, slash) == [s |-> s, k |-> "imp", up |-> 0, p |-> <<"src">> \o p, slash |-> slash]
Abs(s, p, slash) == [s |-> s, k |-> "abs", up |-> 0, p |-> p, slash |-> slash]
Out == {Rel("none", 0, <<>>, TRUE), Rel("", 0, <<>>, TRUE), Rel(".", 0, <<>>, FALSE), Rel("./", 0, <<>>, TRUE),
        Rel("./out", 0, <<"out">>, FALSE), Rel("./out/", 0, <<"out">>, TRUE), Rel("./a/b/c", 0, <<"a", "b", "c">>, FALSE), Rel("./a/b/", 0, <<"a", "b">>, TRUE),
        Rel("../up", 1, <<"up">>, FALSE), Rel("../up/", 1, <<"up">>, TRUE), Rel("..", 1, <<>>, FALSE), Rel("../", 1, <<>>, TRUE), Rel("../../", 2, <<>>, TRUE),
        Rel("./x/../y.z/", 0, <<"y.z">>, TRUE), Rel("./service", 0, <<"service">>, FALSE), Rel("./cmd/", 0, <<"cmd">>, TRUE), Rel(".//p//q", 0, <<"p", "q">>, FALSE),
        Rel("./.hid/x", 0, <<".hid", "x">>, FALSE), Rel("./..hid/", 0, <<"..hid">>, TRUE),
        Rel("./%-service", 0, <<Own>>, FALSE), Rel("./%-service/", 0, <<Own>>, TRUE), Rel("../%-service", 1, <<Own>>, FALSE), Rel("../%-service/", 1, <<Own>>, TRUE), Rel("./%", 0, <<Name>>, FALSE), Rel("./%/", 0, <<Name>>, TRUE),
        Imp("ex.com/@/svc", <<"ex.com", "@", "svc">>, FALSE), Imp("ex.com/@/svc/", <<"ex.com", "@", "svc">>, TRUE), Imp("ex.com/@/", <<"ex.com", "@">>, TRUE), Imp("ex.com/@", <<"ex.com", "@">>, FALSE), Imp("ex.com/@/deep/er/svc", <<"ex.com", "@", "deep", "er", "svc">>, FALSE),
        Imp("ex.com/@/%-service", <<"ex.com", "@", Own>>, FALSE), Imp("ex.com/@/%-service/", <<"ex.com", "@", Own>>, TRUE),
        Imp(".hid/x", <<".hid", "x">>, FALSE), Imp("..hid/", <<"..hid">>, TRUE), Imp("out", <<"out">>, FALSE), Imp("@/", <<"@">>, TRUE),
        Abs("!/abs", Mod \o <<"abs">>, FALSE), Abs("!/abs/", Mod \o <<"abs">>, TRUE), Abs("!/%-service/", Mod \o <<Own>>, TRUE), Abs("!", Mod, FALSE), Abs("!/", Mod, TRUE), Abs("!/n/../m", Mod \o <<"m">>, FALSE),
        Imp("elsewhere", <<"elsewhere">>, FALSE), Imp("other.org/x/", <<"other.org", "x">>, TRUE), Abs("#/beside/", <<"beside">>, TRUE), Abs("#/src/beside", <<"src", "beside">>, FALSE)}
Cwds == {Mod, Mod \o <<"work">>, Mod \o <<"api">>, Mod \o <<"work", "er">>, Mod \o <<Own>>}
IsIn(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Up(p, n) == SubSeq(p, 1, Len(p) - n)
Base(r) == IF r.o.k = "rel" THEN Up(r.cwd, r.o.up) \o r.o.p ELSE r.o.p
SvcDir(r) == IF r.o.slash \/ Fault = "always" THEN Append(Base(r), Own) ELSE Base(r)

(* ---- what a run makes *)
At1(d, ps) == {d \o p : p \in ps}
PbDir(r) == IF Fault = "cwd" THEN r.cwd ELSE Mod \o proj.dir
Pb(r) == At1(PbDir(r), {<<r.files[i] \o ".pb.go">> : i \in DOMAIN r.files} \cup {<<r.files[r.at] \o "_grpc.pb.go">>})
Protocol(r) == Pb(r) \cup {PbDir(r) \o <<r.files[1] \o ".pb.baron.go">>}
Service(r) == At1(SvcDir(r), {<<"cmd", Name, "main.go">>, <<"server", "endpoints.go">>, <<"server", "interrupt.go">>, <<"server", "server.go">>, <<"server", "wrapper.go">>,
                              <<"service", "service.go">>, <<"service", "wrapper.go">>}
                             \cup IF r.c \/ Fault = "both" THEN {<<"cmd", Name \o "-client", "main.go">>} ELSE {})
Refused(r) == r.bad # "" \/ ~IsIn(SvcDir(r), Mod)
(* a run refused for its output has generated the protocol code; for its input, nothing *)
Makes(r) == IF r.bad # "" THEN {} ELSE IF Refused(r) THEN Pb(r) ELSE Protocol(r) \cup Service(r)
Leftovers(d) == At1(d, {<<"svc", "server", "cli", "old.go">>, <<"svc", "server", "cli", "deep", "old.go">>, <<"svc", "client", "cli", "old.go">>, <<"cmd", Name \o "-server", "main.go">>})
Neighbours(d) == At1(d, {<<"svc", "server", "cli.go">>, <<"svc", "client", "cli2", "own.go">>, <<"svc", "cli", "own.go">>, <<"cmd", Name \o "-server-tools", "own.go">>, <<"cmd", "other-server", "own.go">>,
                         <<"cmd", Name \o "-serve", "own.go">>, <<"keep", "go.go">>, <<"server", "own.go">>, <<"server", "cli", "own.go">>, <<"service", "own.go">>})
(* protocol code of the same files when the service was in another, or they were in another order *)
Stale(r) == IF Fault = "stale" \/ r.bad # "" THEN {}
            ELSE {PbDir(r) \o <<r.files[i] \o "_grpc.pb.go">> : i \in DOMAIN r.files \ {r.at}}
                 \cup IF Refused(r) THEN {} ELSE {PbDir(r) \o <<r.files[i] \o ".pb.baron.go">> : i \in 2..Len(r.files)}
Removes(r) == Stale(r) \cup IF Refused(r) THEN {} ELSE IF Fault = "wide" THEN Leftovers(SvcDir(r)) \cup Neighbours(SvcDir(r)) ELSE Leftovers(SvcDir(r))
(* import paths are where the packages lie in the module *)
ImportPath(d) == <<"ex.com", "@">> \o SubSeq(d, Len(Mod) + 1, Len(d))
Imports(r) == IF Refused(r) THEN {} ELSE {ImportPath(d) : d \in {PbDir(r), SvcDir(r) \o <<"server">>, SvcDir(r) \o <<"service">>}}

(* ---- projects and histories *)
Dirs == {<<"api">>, <<>>, <<"proto", "v1">>, <<"a.b", "c-d">>}
Files == {<<"thing">>, <<"my_things">>, <<"my.things">>, <<"My-Thing">>, <<"thing.v2">>, <<"a.pb">>, <<"thing.v1.extra", "thing">>, <<"thing", "extra">>, <<"extra", "thing">>, <<"a", "b", "c">>, <<"ab", "a">>}
Svcs == {"Thing", "my_thing", "HTTPThing", "Thing_2", "service", "a", "Server", "Cmd"}
Pick(S) == RandomElement(S)
Projects == {[dir |-> d, files |-> f, at |-> a, svc |-> s, paths |-> n, place |-> w] : d \in Dirs, f \in Files, a \in 1..3, s \in Svcs, n \in 0..3, w \in Places}
Whole == {p \in Projects : p.at <= Len(p.files)}
Run(cwd, o, c, t, bad, shape, x, files, at) == [cwd |-> cwd, o |-> o, c |-> c, t |-> t, bad |-> bad, shape |-> shape, x |-> x, files |-> files, at |-> at]
Bad == {"outside", "dirs", "missing", "type"}
Do(r) == /\ tree' = (tree \ Removes(r)) \cup Makes(r)
         /\ log' = Append(log, [run |-> r, dir |-> SvcDir(r), refused |-> Refused(r), makes |-> Makes(r), keeps |-> tree \ (Makes(r) \cup Removes(r)), tree |-> tree', imports |-> Imports(r)])
         /\ proj' = [proj EXCEPT !.files = r.files, !.at = r.at]
Orders(f) == {[i \in DOMAIN f |-> f[g[i]]] : g \in {h \in [DOMAIN f -> DOMAIN f] : \A i, j \in DOMAIN f : h[i] = h[j] => i = j}}
Around == {Mod, Mod \o <<"out">>, Mod \o <<"work">>, Mod \o <<Own>>, Mod \o <<"out", Own>>, Mod \o <<"work", Own>>}
Decoys == UNION {Leftovers(d) \cup Neighbours(d) : d \in Around}
Simple == [dir |-> <<"api">>, files |-> <<"thing">>, at |-> 1, svc |-> "Thing", paths |-> 2, place |-> <<"src", "ex.com", "@">>]
Init == log = <<>> /\ proj \in Whole /\ tree = Decoys
SInit == log = <<>> /\ proj = Simple /\ tree = Decoys
MInit == log = <<>> /\ proj \in {[Simple EXCEPT !.place = w] : w \in Places} /\ tree = Decoys
Next == Len(log) < Runs /\ \E cwd \in IF log = <<>> THEN Cwds ELSE {Mod}, o \in IF log = <<>> THEN Out ELSE {o \in Out : o.s \in {"none", ".", "./out/", "../", "!/abs", "ex.com/@/%-service"}}, c \in BOOLEAN, bad \in {"", "missing"} : Do(Run(cwd, o, c, "all", bad, "short", "", proj.files, proj.at))
Small == MInit /\ [][Next]_vars
(* the files in every order, and the service in each of them *)
FInit == log = <<>> /\ proj = [Simple EXCEPT !.files = <<"a", "b", "c">>] /\ tree = {}
FNext == Len(log) < Runs /\ \E o \in {o \in Out : o.s \in {"./out", "elsewhere", "none"}}, bad \in {"", "missing"}, f \in Orders(proj.files), at \in DOMAIN proj.files :
              Do(Run(Mod, o, FALSE, "all", bad, "short", "", f, at))
Moves == FInit /\ [][FNext]_vars
(* random runs; the project is chosen first *)
Choose == proj' = Pick(Whole) /\ tree' = Decoys' /\ UNCHANGED log
RNext == IF TLCGet("level") = 1 THEN Choose
         ELSE Len(log) < Runs /\ \E cwd \in {Pick(Cwds)}, o \in {Pick(Out)}, c \in {Pick(BOOLEAN)}, t \in {Pick({"none", "all", "grpc", "nats"})}, bad \in {Pick({""} \X (1..12) \cup Bad \X {1})}, sh \in {Pick({"short", "long"})},
                                 x \in {Pick({"", "-v", "--debug", "-d"})}, m \in {Pick(1..3)}, f \in {Pick(Orders(proj.files))}, at \in {Pick(DOMAIN proj.files)} :
              Do(Run(cwd, o, c, t, bad[1], sh, x, IF m = 1 THEN f ELSE proj.files, IF m = 1 \/ proj.files = f THEN at ELSE proj.at))
Random == SInit /\ [][RNext]_vars

(* ---- properties, about the last run *)
Last == log[Len(log)]
New == tree' \ tree
Ran == Len(log') > Len(log)
R == log'[Len(log')].run
Dir1 == log'[Len(log')].dir
(* only below the directory asked for and next to the proto files *)
Confined == [][Ran => \A p \in New \cup (tree \ tree') : IsIn(p, Dir1) \/ Up(p, 1) = Mod \o proj.dir]_vars
(* NAME-service stands for a trailing slash, and for no option, below what was asked for *)
Implied == [][Ran => IF R.o.slash THEN Dir1[Len(Dir1)] = Own /\ Up(Dir1, 1) = Base(R) ELSE Dir1 = Base(R)]_vars
ClientOnDemand == [][Ran => ((\E p \in New : \E i \in DOMAIN p : p[i] = Name \o "-client") => R.c)]_vars
Complete == [][Ran /\ ~Refused(R) => \A f \in {"server.go", "service.go", "main.go"} : \E p \in tree' : IsIn(p, Dir1) /\ p[Len(p)] = f]_vars
Untouched == [][Ran /\ Refused(R) => \A p \in New : Up(p, 1) = Mod \o proj.dir]_vars
(* what is no longer there is what an earlier version of the tool left, or protocol code *)
Kept == [][Ran => \A d \in Around : Neighbours(d) \cap tree \subseteq tree']_vars
(* after a run there is the gRPC code of one file of those given and, after one that was not refused, baron's code of one *)
Ending(p, s) == LET n == Len(p[Len(p)]) IN n >= Len(s) /\ SubSeq(p[Len(p)], n - Len(s) + 1, n) = s
Current == [][Ran => /\ R.bad = "" => Cardinality({p \in tree' : Up(p, 1) = Mod \o proj.dir /\ Ending(p, "_grpc.pb.go")}) = 1
                     /\ ~Refused(R) => Cardinality({p \in tree' : Up(p, 1) = Mod \o proj.dir /\ Ending(p, ".pb.baron.go")}) = 1]_vars
View == <<proj, tree, Len(log)>>
Emit == Len(log) = Runs => PrintT("@@" \o ToJson([proj |-> proj, name |-> Name, first |-> Decoys, log |-> log]))
=============================================================================
