----------------------------- MODULE StartNames -----------------------------
(* Names for a starter definition: every text up to a length over letters of
   either case, digits and the characters names are made of or may not have,
   and names that mean something to protoc, to Go or to baron.               *)
EXTENDS Start
CONSTANTS MaxLen
Chars == <<"a", "B", "_", "1", "-", " ", ".">>
RECURSIVE OfLen(_)
OfLen(l) == IF l = 0 THEN {""} ELSE {s \o Chars[i] : s \in OfLen(l - 1), i \in 1..Len(Chars)}
Words == {"start", "foo", "Foo", "fooBar", "foo-bar", "foo_bar", "Foo Bar", "foo.bar", "foo.Bar", "foo--bar", "foo-Bar-baz", "foo.proto", "foo.proto.proto", "foo.protobuf", "google.protobuf",
          "foo.Proto", ".proto", "a.proto.b", "http", "grpc", "nats", "service", "server", "client", "cmd", "main", "type", "func", "package", "import", "message", "rpc", "option", "enum", "string",
          "syntax", "google", "google.api", "foo.google", "Google.foo", "OK", "Ok", "ok", "FAIL", "fail", "status", "Status", "StatusRequest", "status-request", "status_response", "Service Status",
          "service.status", "StatusServer", "context", "errors", "log", "os", "fmt", "pb", "baron", "io", "init", "error", "nil", "Endpoints", "foo_windows", "foo_test", "foo-linux", "bool", "full",
          "a/b", "../x", "/x", "a\\b", "a\"b", "a'b", "a;b", "a{b", "{{.}}", "%s", "$HOME", "*", "é", "fooé", "名", "a\tb", "a\nb", "--x", "-x", "x-", "x.", "x..y", "9", "9x", "x9", "v1", "foo.v1", "foo.V1beta", "foo.1",
          "averyveryveryverylongnamewhichgoesonandonandonandstilldoesnotend"}
VARIABLES name
Nvars == <<vars, name>>
NInit == Init /\ tree = Base /\ name \in Words \cup UNION {OfLen(l) : l \in 1..MaxLen}
NSpec == NInit /\ [][FALSE]_Nvars
A == Alias(name)
Case == [name |-> name, ok |-> Nameable(A), pkg |-> Pkg(A), svc |-> Svc(A), file |-> File(A), dir |-> LowerFrom(Svc(A), 1) \o "-service", go |-> Nameable(A) /\ Buildable(A)]
NEmit == PrintT("@@" \o ToJson(Case))
(* names that are refused are no identifiers or in use; the rest can be told apart from what the starter has *)
Sane == Nameable(A) => Identifier(Svc(A)) /\ At(Svc(A), 1) \in Uppers /\ Svc(A) \notin Own /\ Len(Pkg(A)) > 0
=============================================================================
