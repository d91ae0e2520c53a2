package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// Profile fixes the concrete names behind the specification's model values.
type Profile struct {
	Module     string
	Svc        string // service name in the proto file
	GoSvc      string // and in Go
	Proto      string // path of the proto file in the project
	Proto2     string // and of a second one
	Pkg        string
	Out        string            // -o argument
	SvcDir     string            // where the service directory ends up
	Rpc        map[string]string // proto names
	GoRpc      map[string]string // Go names
	Type       map[string]string
	GoType     map[string]string
	PBPath     string // Go import path of the protocol code
	Unprefixed string
}

func id(s ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i < len(s); i += 2 {
		m[s[i]] = s[i+1]
	}
	return m
}

var profiles = []Profile{
	{Module: "example.com/a", Svc: "Foo", GoSvc: "Foo", Proto: "api/foo.proto", Proto2: "api/extra.proto", Pkg: "foo", Out: "./", SvcDir: "foo-service",
		Rpc:   id("A", "Status", "B", "GetItem", "C", "List", "D", "Update", "E", "Ping"),
		GoRpc: id("A", "Status", "B", "GetItem", "C", "List", "D", "Update", "E", "Ping"),
		Type:  id("T1", "Req", "T2", "Item", "T3", "Reply"), GoType: id("T1", "Req", "T2", "Item", "T3", "Reply"), PBPath: "example.com/a/api"},
	{Module: "example.com/deep/mod", Svc: "user_account", GoSvc: "UserAccount", Proto: "proto/v1/my_users.proto", Proto2: "proto/v1/users_more.proto", Pkg: "users.v1", Out: "./svc", SvcDir: "svc",
		Rpc:   id("A", "get_one", "B", "Put_It", "C", "RemoveAll2", "D", "x", "E", "getOneMore"),
		GoRpc: id("A", "GetOne", "B", "Put_It", "C", "RemoveAll2", "D", "X", "E", "GetOneMore"),
		Type:  id("T1", "user_query", "T2", "User_Record", "T3", "Ack1"), GoType: id("T1", "UserQuery", "T2", "User_Record", "T3", "Ack1"), PBPath: "example.com/deep/mod/proto/v1"},
	{Module: "example.com/b", Svc: "HTTPGateway", GoSvc: "HTTPGateway", Proto: "gw.proto", Proto2: "a.b.proto", Pkg: "gw", Out: "./gen/out/", SvcDir: "gen/out/httpgateway-service",
		Rpc:   id("A", "GetGateway", "B", "Get", "C", "GetGatewayStatus", "D", "NewThing", "E", "Service"),
		GoRpc: id("A", "GetGateway", "B", "Get", "C", "GetGatewayStatus", "D", "NewThing", "E", "Service"),
		Type:  id("T1", "GetRequest", "T2", "Get_Response", "T3", "Thing"), GoType: id("T1", "GetRequest", "T2", "Get_Response", "T3", "Thing"), PBPath: "example.com/b"},
	{Module: "m", Svc: "Server", GoSvc: "Server", Proto: "pb/server.proto", Proto2: "pb/server2.proto", Pkg: "server", Out: ".", SvcDir: ".",
		Rpc:   id("A", "Run", "B", "Server", "C", "NewService", "D", "Wrap", "E", "Client"),
		GoRpc: id("A", "Run", "B", "Server", "C", "NewService", "D", "Wrap", "E", "Client"),
		Type:  id("T1", "Request", "T2", "Response", "T3", "Both"), GoType: id("T1", "Request", "T2", "Response", "T3", "Both"), PBPath: "m/pb"},
}

func (p *Profile) lower() string { return strings.ToLower(p.GoSvc) }

func (p *Profile) abstract(m map[string]string, g string) string {
	for k, v := range m {
		if v == g {
			return k
		}
	}
	return "?" + g
}

func (p *Profile) once(f string) string {
	switch f {
	case "endpoints":
		return "server/endpoints.go"
	case "interrupt":
		return "server/interrupt.go"
	case "swrapper":
		return "server/wrapper.go"
	case "wrapper":
		return "service/wrapper.go"
	case "main":
		return "cmd/" + p.lower() + "/main.go"
	case "cli":
		return "cmd/" + p.lower() + "-client/main.go"
	}
	panic(f)
}

var onceFiles = []string{"endpoints", "interrupt", "swrapper", "wrapper", "main", "cli"}
var ownedFiles = []string{"server", "pb", "grpcpb", "baron", "pb2", "grpcpb2", "baron2"}
var otherFiles = []string{"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12", "o13"}
var legacyFiles = []string{"l1", "l2", "l3"}

func (p *Profile) path(f string) string {
	base := strings.TrimSuffix(p.Proto, ".proto")
	switch f {
	case "pb2", "grpcpb2", "baron2":
		base, f = strings.TrimSuffix(p.Proto2, ".proto"), f[:len(f)-1]
	}
	switch f {
	case "handler":
		return filepath.Join(p.SvcDir, "service/service.go")
	case "server":
		return filepath.Join(p.SvcDir, "server/server.go")
	case "pb":
		return base + ".pb.go"
	case "grpcpb":
		return base + "_grpc.pb.go"
	case "baron":
		return base + ".pb.baron.go"
	case "o1":
		return filepath.Join(p.SvcDir, "service/helpers.go")
	case "o2":
		return filepath.Join(p.SvcDir, "server/server_test.go")
	case "o3":
		return filepath.Join(p.SvcDir, "README.md")
	case "o4":
		return filepath.Join(p.SvcDir, "cmd", p.lower(), "flags.go")
	case "o5":
		return filepath.Join(p.SvcDir, "internal/deep/er/util.go")
	case "o6":
		return filepath.Join(p.SvcDir, "svc/server/keep.go")
	case "o7":
		return filepath.Join(p.SvcDir, "service/service.go.orig")
	case "o8":
		return filepath.Join(p.SvcDir, "cmd/other/server/main.go")
	case "o9":
		return filepath.Join(p.SvcDir, "svc/server/client.go")
	case "o10":
		return filepath.Join(p.SvcDir, "svc/client/own.go")
	case "o11":
		return filepath.Join(p.SvcDir, "cmd/"+p.lower()+"-server-tools/main.go")
	case "o12":
		return filepath.Join(p.SvcDir, "svc/server/cli2/x.go")
	case "o13":
		return filepath.Join(p.SvcDir, "server/svc/server/cli/handlers.go")
	case "l1":
		return filepath.Join(p.SvcDir, "svc/server/cli/handlers.go")
	case "l2":
		return filepath.Join(p.SvcDir, "svc/client/cli/client.go")
	case "l3":
		return filepath.Join(p.SvcDir, "cmd/"+p.lower()+"-server/main.go")
	}
	return filepath.Join(p.SvcDir, p.once(f))
}

// protos renders a definition as the texts of the two files: the messages are
// in the first, the service is where the arrangement says.
func (p *Profile) protos(def []RPC, split string) (a, b string) {
	a = fmt.Sprintf("syntax = \"proto3\";\n\npackage %s;\n\n", p.Pkg)
	b = a
	if inSecond(split) {
		b += fmt.Sprintf("import %q;\n", filepath.Base(p.Proto)) + p.service(def)
	} else {
		a += p.service(def)
	}
	for i, t := range []string{"T1", "T2", "T3"} {
		a += fmt.Sprintf("message %s {\n  int64 num = 1;\n  string name_%d = 2;\n  repeated bool flags = 3;\n"+
			"  oneof pick {\n    string by_name = 4;\n    int64 by_id = 5;\n    bool all = 6;\n    double near = 7;\n  }\n"+
			"  enum Kind {\n    NONE = 0;\n    SOME = 1;\n  }\n  Kind kind = 8;\n  repeated Kind kinds = 9;\n  map<string, int64> counts = 10;\n"+
			"  message Inner {\n    uint32 z = 1;\n    bytes y = 2;\n  }\n  Inner inner = 11;\n  map<string, Inner> more = 12;\n  repeated string names = 13;\n}\n\n", p.Type[t], i)
	}
	return a, b + "message Besides_2 {\n  string note = 1;\n}\n"
}

func inSecond(split string) bool { return strings.HasSuffix(split, ":b") }

func (p *Profile) service(def []RPC) string {
	var b strings.Builder
	fmt.Fprintf(&b, "import \"google/api/annotations.proto\";\n\nservice %s {\n", p.Svc)
	for _, r := range def {
		fmt.Fprintf(&b, "  // %s does it.\n  rpc %s(%s) returns (%s)", r.N, p.Rpc[r.N], p.Type[r.Q], p.Type[r.R])
		switch r.N {
		case "A":
			b.WriteString(" {\n    option (google.api.http) = {\n      get: \"/a\"\n    };\n  }\n")
		case "B":
			b.WriteString(" {\n    option (google.api.http) = {\n      post: \"/b/{num}\"\n      body: \"*\"\n      additional_bindings {\n        put: \"/b2\"\n      }\n    };\n  }\n")
		default:
			b.WriteString(";\n")
		}
	}
	b.WriteString("}\n\n")
	return b.String()
}

// badProtos are texts of an unacceptable definition.
func (p *Profile) badProtos(def []RPC, split, kind string) (string, string) {
	a, b := p.protos(def, split)
	if kind == "syntax" {
		return strings.Replace(a, "message "+p.Type["T2"]+" {", "message "+p.Type["T2"]+" ", 1), b
	}
	if inSecond(split) {
		return a, p.bad(b, kind)
	}
	return p.bad(a, kind), b
}

func (p *Profile) bad(good, kind string) string {
	switch kind {
	case "unsupported":
		// protoc accepts streams, baron does not
		return strings.Replace(good, "service "+p.Svc+" {\n", "service "+p.Svc+" {\n  rpc Streamed("+p.Type["T1"]+") returns (stream "+p.Type["T1"]+");\n", 1)
	case "import":
		return strings.Replace(good, "service "+p.Svc+" {\n", "import \"not/there.proto\";\n\nservice "+p.Svc+" {\n", 1)
	case "type":
		return strings.Replace(good, "service "+p.Svc+" {\n", "message Extra { Unknown u = 1; }\n\nservice "+p.Svc+" {\n", 1)
	case "truncated":
		return good[:strings.Index(good, "service ")+20]
	case "nofile", "noplugin", "nogrpc", "noprotoc":
		return good
	case "nosvc":
		i := strings.Index(good, "service ")
		j := strings.Index(good, "\n}\n\n")
		return good[:i] + good[j+4:]
	}
	panic(kind)
}

func (p *Profile) args(o Opt) []string {
	a := []string{"-o", p.Out, "-t", o.T}
	if o.C {
		a = append(a, "-c")
	}
	if strings.HasPrefix(o.S, "ba") {
		return append(a, p.Proto2, p.Proto)
	}
	return append(a, p.Proto, p.Proto2)
}

func (p *Profile) create(dir string, def []RPC, split string) {
	check(os.MkdirAll(filepath.Join(dir, filepath.Dir(p.Proto)), 0o777))
	check(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+p.Module+"\n\ngo 1.20\n"), 0o666))
	p.writeProtos(dir, def, split, "")
}

// writeProtos leaves an unchanged file alone, time stamp included.
func (p *Profile) writeProtos(dir string, def []RPC, split, bad string) {
	a, b := p.protos(def, split)
	if bad != "" {
		a, b = p.badProtos(def, split, bad)
	}
	for f, text := range map[string]string{p.Proto: a, p.Proto2: b} {
		if old, err := os.ReadFile(filepath.Join(dir, f)); err == nil && string(old) == text {
			continue
		}
		check(os.WriteFile(filepath.Join(dir, f), []byte(text), 0o666))
	}
}

// ---- fresh runs, shared between histories

type freshEntry struct {
	once sync.Once
	f    Fresh
	ok   bool
	log  string
}

var (
	freshMu sync.Mutex
	freshM  = map[string]*freshEntry{}
)

func fresh(pi int, def []RPC, opt Opt) *freshEntry {
	kb, _ := json.Marshal([]interface{}{pi, def, opt})
	freshMu.Lock()
	e := freshM[string(kb)]
	if e == nil {
		e = &freshEntry{}
		freshM[string(kb)] = e
	}
	freshMu.Unlock()
	e.once.Do(func() {
		p := &profiles[pi]
		dir, err := os.MkdirTemp(*work, "fresh")
		check(err)
		defer os.RemoveAll(dir)
		p.create(dir, def, opt.S)
		code, log := runBaron(dir, p.args(opt)...)
		e.ok, e.log = code == 0, log
		e.f = Fresh{Def: append([]RPC{}, def...), Opt: opt, Files: map[string]string{}}
		for _, f := range append(append([]string{}, onceFiles...), ownedFiles...) {
			b, err := os.ReadFile(filepath.Join(dir, p.path(f)))
			if err != nil {
				e.f.Files[f] = "absent"
			} else {
				e.f.Files[f] = sum(b)
			}
		}
	})
	return e
}
