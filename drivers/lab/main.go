// Driver of the generated code: renders definitions of SvcDef.tla, runs the
// real baron on them, compiles everything it generates in one Go module (with
// the real protobuf and gRPC and the stand-ins of /verif/stubs) and executes
// calls on it.
package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	baron  = flag.String("baron", "", "the baron binary")
	work   = flag.String("work", "", "scratch directory")
	stubs  = flag.String("stubs", "", "stand-in libraries")
	runSrc = flag.String("run", "", "source of the call runner")
	in     = flag.String("in", "", "definitions and calls, a JSON object a line")
	out    = flag.String("out", "", "results")
	build  = flag.Bool("build", false, "compile only")
	full   = flag.Bool("full", false, "compile the whole service, not only what the calls need")
	race   = flag.Bool("race", false, "build the calls with the race detector")
	limit  = flag.Duration("limit", 10*time.Minute, "time for the calls")
)

type Case struct {
	D         *Def              `json:"d"`
	Then      *Def              `json:"then"` // the definition of a second run
	Transport string            `json:"transport"`
	Client    bool              `json:"client"`
	Parts     string            `json:"parts"` // what is compiled: all, service (no example client), generated
	Calls     []json.RawMessage `json:"calls"`
	Par       int               `json:"par"` // calls at a time
	Traffic   json.RawMessage   `json:"traffic"`
	Serve     bool              `json:"serve"`  // the server itself is run
	Beside    string            `json:"beside"` // another package served beside it during traffic

	i      int
	ifc    string
	server string // binary of the generated server
	svcDir string
	res    Result
}

type Result struct {
	I      int               `json:"i"`
	Rc     int               `json:"rc"` // of baron, -1 if it did not end
	Log    string            `json:"log"`
	Build  string            `json:"build"` // compiler errors
	Files  []string          `json:"files,omitempty"`
	Protos map[string]string `json:"protos"`
	Calls  []json.RawMessage `json:"calls,omitempty"`
	Events json.RawMessage   `json:"events,omitempty"`
	Cut    bool              `json:"cut,omitempty"` // calls were left out
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "lab:", err)
		os.Exit(3)
	}
}

func parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

//go:embed labm.mod.txt
var gomod string

func (c *Case) generate(mod string) {
	dir := filepath.Join(mod, c.D.pkg)
	must(os.MkdirAll(dir, 0o755))
	// an importable package before anything is generated
	must(os.WriteFile(filepath.Join(dir, "doc.go"), []byte("package "+c.D.pkg+"\n"), 0o644))
	defs := []*Def{c.D}
	if c.Then != nil {
		defs = append(defs, c.Then)
	}
	for n, d := range defs {
		c.res.Protos = map[string]string{}
		var args []string
		if c.Transport != "" {
			args = append(args, "--transport", c.Transport)
		}
		if c.Client {
			args = append(args, "--client")
		}
		if n > 0 {
			old, _ := filepath.Glob(filepath.Join(dir, "*.pb*.go"))
			for _, f := range old {
				os.Remove(f)
			}
		}
		// the file with the service first: generated code is named after it
		order := []int{d.Svc.File}
		for f := 1; f <= d.Files; f++ {
			if f != d.Svc.File {
				order = append(order, f)
			}
		}
		for _, f := range order {
			text := d.render(f)
			c.res.Protos[d.file(f)] = text
			must(os.WriteFile(filepath.Join(dir, d.file(f)), []byte(text), 0o644))
			args = append(args, d.file(f))
		}
		cmd := exec.Command(*baron, args...)
		cmd.Dir = dir
		var log bytes.Buffer
		cmd.Stdout, cmd.Stderr = &log, &log
		must(cmd.Start())
		t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		c.res.Log = log.String()
		if len(c.res.Log) > 4000 {
			c.res.Log = c.res.Log[len(c.res.Log)-4000:]
		}
		if err != nil {
			c.res.Rc = cmd.ProcessState.ExitCode()
			return
		}
	}
	dirs, _ := filepath.Glob(filepath.Join(dir, "*-service"))
	if len(dirs) == 1 {
		c.svcDir = filepath.Base(dirs[0])
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(dir, p)
			c.res.Files = append(c.res.Files, r)
		}
		return nil
	})
}

// glue writes what connects the runner with one generated package.
func (c *Case) glue(mod string) error {
	p := c.D.pkg
	fs := token.NewFileSet()
	gs, _ := filepath.Glob(filepath.Join(mod, p, "*_grpc.pb.go"))
	type meth struct{ n, q, s string }
	var ms []meth
	for _, g := range gs {
		f, err := parser.ParseFile(fs, g, nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				it, ok := ts.Type.(*ast.InterfaceType)
				if !ok || !strings.HasSuffix(ts.Name.Name, "Server") || strings.HasPrefix(ts.Name.Name, "Unsafe") {
					continue
				}
				isServer := false
				var found []meth
				for _, m := range it.Methods.List {
					ft, ok := m.Type.(*ast.FuncType)
					if !ok || len(m.Names) == 0 {
						continue
					}
					if strings.HasPrefix(m.Names[0].Name, "mustEmbed") {
						isServer = true
						continue
					}
					if ft.Params.NumFields() != 2 || ft.Results.NumFields() != 2 {
						continue
					}
					ty := func(e ast.Expr) string {
						if st, ok := e.(*ast.StarExpr); ok {
							if id, ok := st.X.(*ast.Ident); ok {
								return id.Name
							}
						}
						return "?"
					}
					found = append(found, meth{m.Names[0].Name, ty(ft.Params.List[1].Type), ty(ft.Results.List[0].Type)})
				}
				if isServer {
					c.ifc, ms = ts.Name.Name, found
				}
			}
		}
	}
	if c.ifc == "" {
		return fmt.Errorf("no server interface in the generated code of %s", p)
	}
	var w strings.Builder
	fmt.Fprintf(&w, "package main\n\nimport (\n\t\"context\"\n\t\"net/http\"\n\tpb \"labm/%s\"\n", p)
	if c.svcDir != "" {
		fmt.Fprintf(&w, "\tserver \"labm/%s/%s/server\"\n", p, c.svcDir)
	}
	grpc := c.Transport == "" || c.Transport == "all" || c.Transport == "grpc"
	nats := c.Transport == "" || c.Transport == "all" || c.Transport == "nats"
	fmt.Fprintf(&w, "\thttptransport \"github.com/go-kit/kit/transport/http\"\n\t\"google.golang.org/protobuf/proto\"\n")
	if grpc {
		fmt.Fprintf(&w, "\tgrpctransport \"github.com/go-kit/kit/transport/grpc\"\n\t\"google.golang.org/grpc\"\n")
	}
	if nats {
		fmt.Fprintf(&w, "\t\"github.com/nats-io/nats.go\"\n")
	}
	svc := strings.TrimSuffix(c.ifc, "Server")
	if c.Serve {
		var t strings.Builder
		fmt.Fprintf(&t, "package service\n\nimport (\n\t\"context\"\n\t\"os\"\n\n\t\"github.com/go-kit/kit/endpoint\"\n\tpb \"labm/%s\"\n)\n", p)
		fmt.Fprintf(&t, `
// Say notes what a call runs into.
func Say(s string) {
	f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err == nil {
		f.WriteString(s + "\n")
		f.Close()
	}
}

func WrapEndpoints(in pb.Endpoints) pb.Endpoints {
	in.WrapAllLabeledExcept(func(name string, next endpoint.Endpoint) endpoint.Endpoint {
		return func(ctx context.Context, req interface{}) (interface{}, error) {
			Say("endpoint " + name)
			return next(ctx, req)
		}
	})
	return in
}

type traced struct{ pb.%s }

func WrapService(in pb.%s) pb.%s { return traced{in} }
`, c.ifc, c.ifc, c.ifc)
		for _, m := range ms {
			fmt.Fprintf(&t, "\nfunc (t traced) %s(ctx context.Context, in *pb.%s) (*pb.%s, error) {\n\tSay(\"service %s\")\n\treturn t.%s.%s(ctx, in)\n}\n", m.n, m.q, m.s, m.n, c.ifc, m.n)
		}
		if err := os.WriteFile(filepath.Join(mod, p, c.svcDir, "service", "wrapper.go"), []byte(t.String()), 0o644); err != nil {
			return err
		}
		o := `package server

import (
	"context"
	"net/http"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc/metadata"
	"SVC/service"
)

func GRPCServerOptions() []grpctransport.ServerOption {
	return []grpctransport.ServerOption{grpctransport.ServerBefore(func(ctx context.Context, _ metadata.MD) context.Context { service.Say("option grpc"); return ctx })}
}

func HTTPServerOptions() []httptransport.ServerOption {
	return []httptransport.ServerOption{httptransport.ServerBefore(func(ctx context.Context, _ *http.Request) context.Context { service.Say("option http"); return ctx })}
}

func NATSSubscriberOptions() []natstransport.SubscriberOption {
	return []natstransport.SubscriberOption{natstransport.SubscriberBefore(func(ctx context.Context, _ *nats.Msg) context.Context { service.Say("option nats"); return ctx })}
}
`
		o = strings.ReplaceAll(o, "SVC", "labm/"+p+"/"+c.svcDir)
		if err := os.WriteFile(filepath.Join(mod, p, c.svcDir, "server", "wrapper.go"), []byte(o), 0o644); err != nil {
			return err
		}
		cmds, _ := filepath.Glob(filepath.Join(mod, p, c.svcDir, "cmd", "*"))
		for _, d := range cmds {
			if strings.HasSuffix(d, "-client") {
				continue
			}
			c.server = filepath.Join(*work, p+".server")
			cmd := exec.Command("go", "build", "-gcflags=labm/...=-N -l", "-o", c.server, "./"+filepath.Join(p, c.svcDir, "cmd", filepath.Base(d)))
			cmd.Dir = mod
			if b, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("building the server: %s", b)
			}
		}
		if c.server == "" {
			return fmt.Errorf("no server command in %v", cmds)
		}
	}
	fmt.Fprintf(&w, ")\n\ntype h_%s struct {\n\tpb.Unimplemented%s\n\trec *Recorder\n}\n\n", p, c.ifc)
	for _, m := range ms {
		fmt.Fprintf(&w, "func (h *h_%s) %s(ctx context.Context, in *pb.%s) (*pb.%s, error) {\n\tout, err := h.rec.call(ctx, %q, in, new(pb.%s))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn out.(*pb.%s), nil\n}\n\n",
			p, m.n, m.q, m.s, m.n, m.s, m.s)
	}
	fmt.Fprintf(&w, "func init() {\n\tregister(%q, &Def{\n", p)
	fmt.Fprintf(&w, "\t\tReq: map[string]func() proto.Message{\n")
	for _, m := range ms {
		fmt.Fprintf(&w, "\t\t\t%q: func() proto.Message { return new(pb.%s) },\n", m.n, m.q)
	}
	fmt.Fprintf(&w, "\t\t},\n\t\tResp: map[string]func() proto.Message{\n")
	for _, m := range ms {
		fmt.Fprintf(&w, "\t\t\t%q: func() proto.Message { return new(pb.%s) },\n", m.n, m.s)
	}
	fmt.Fprintf(&w, "\t\t},\n")
	fmt.Fprintf(&w, "\t\tEndpoints: func(rec *Recorder) interface{} { return server.NewEndpoints(&h_%s{rec: rec}) },\n", p)
	fmt.Fprintf(&w, "\t\tEndpointsPtr: func(rec *Recorder) interface{} { e := server.NewEndpoints(&h_%s{rec: rec}); return &e },\n", p)
	fmt.Fprintf(&w, "\t\tNoEndpoints: func() interface{} { return &pb.Endpoints{} },\n")
	fmt.Fprintf(&w, "\t\tHTTPHandler: func(e interface{}, o ...httptransport.ServerOption) http.Handler { return pb.MakeHTTPHandler(e.(pb.Endpoints), o...) },\n")
	fmt.Fprintf(&w, "\t\tHTTPClient: func(a string, o ...httptransport.ClientOption) (interface{}, error) { return pb.NewHTTPClient(a, o...) },\n")
	fmt.Fprintf(&w, "\t\tHTTPValues: pb.CtxValuesToSend,\n")
	if grpc {
		fmt.Fprintf(&w, "\t\tRegisterGRPC: func(s *grpc.Server, e interface{}, o ...grpctransport.ServerOption) { pb.Register%sServer(s, pb.MakeGRPCServer(e.(pb.Endpoints), o...)) },\n", svc)
		fmt.Fprintf(&w, "\t\tGRPCServer: func(e interface{}) interface{} { return pb.MakeGRPCServer(*e.(*pb.Endpoints)) },\n")
		fmt.Fprintf(&w, "\t\tGRPCClient: func(c *grpc.ClientConn, o ...grpctransport.ClientOption) (interface{}, error) { return pb.NewGRPCClient(c, o...) },\n")
		fmt.Fprintf(&w, "\t\tGRPCValues: pb.ContextValuesToGRPCMetadata,\n")
	}
	if nats {
		fmt.Fprintf(&w, "\t\tServeNATS: func(c *nats.Conn, e interface{}) error { return pb.ServeNATS(c, pb.MakeNATSServer(e.(pb.Endpoints))) },\n")
		fmt.Fprintf(&w, "\t\tNATSClient: func(c *nats.Conn) (interface{}, error) { return pb.NewNATSClient(c) },\n")
	}
	fmt.Fprintf(&w, "\t})\n}\n")
	return os.WriteFile(filepath.Join(mod, "run", p+".go"), []byte(w.String()), 0o644)
}

// exec runs the calls of a case; a call during which the process dies is told
// apart and the others are run without it.
// cut counts the cases left early, each of which has a violation: after a few
// of them the others are left out.
var cut int32

func (c *Case) exec(bin string, end time.Time) {
	c.res.Calls = make([]json.RawMessage, len(c.Calls))
	if atomic.LoadInt32(&cut) >= 4 {
		c.res.Cut = true
		return
	}
	var skip []int
	for try := 0; ; try++ {
		b, _ := json.Marshal(map[string]interface{}{"i": c.i, "pkg": c.D.pkg, "calls": c.Calls, "skip": skip, "par": c.Par, "traffic": c.Traffic, "beside": c.Beside, "server": c.server})
		cmd := exec.Command(bin)
		cmd.Dir = *work
		cmd.Stdin = bytes.NewReader(append(b, '\n'))
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		must(cmd.Start())
		t := time.AfterFunc(time.Until(end), func() { cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		last := -1
		for _, l := range bytes.Split(o.Bytes(), []byte("\n")) {
			var r struct {
				K      int
				Start  bool
				Res    json.RawMessage
				Events json.RawMessage
			}
			if len(l) == 0 || json.Unmarshal(l, &r) != nil {
				continue
			}
			if r.Events != nil {
				c.res.Events = r.Events
				continue
			}
			if r.Start {
				last = r.K
				continue
			}
			last = -1
			c.res.Calls[r.K] = r.Res
			skip = append(skip, r.K)
		}
		if err == nil {
			return
		}
		if cmd.ProcessState.ExitCode() == 4 {
			atomic.AddInt32(&cut, 1)
			c.res.Cut = true
			return
		}
		tail := e.String()
		if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 1500 {
			tail = tail[:1500]
		}
		if c.Traffic != nil && c.res.Events == nil {
			c.res.Events, _ = json.Marshal([]map[string]string{{"e": "died", "val": tail}})
			c.Traffic = nil
			continue
		}
		if time.Now().After(end) {
			fmt.Fprintf(os.Stderr, "lab: the calls of %s did not end: %s\n", c.D.pkg, tail)
			c.res.Cut = true
			return
		}
		if last < 0 || cmd.ProcessState.ExitCode() == 3 {
			must(fmt.Errorf("the runner of %s: %v\n%s", c.D.pkg, err, tail))
		}
		d, _ := json.Marshal(map[string]interface{}{"seen": []int{}, "err": "the process died: " + tail, "died": true})
		c.res.Calls[last] = d
		skip = append(skip, last)
		if try >= 3 {
			atomic.AddInt32(&cut, 1)
			c.res.Cut = true
			return
		}
	}
}

var section = regexp.MustCompile(`^# labm/([a-z0-9]+)`)

func main() {
	flag.Parse()
	mod := filepath.Join(*work, "labm")
	must(os.MkdirAll(filepath.Join(mod, "run"), 0o755))
	must(os.WriteFile(filepath.Join(mod, "go.mod"), []byte(strings.ReplaceAll(gomod, "STUBS", *stubs)), 0o644))
	fh, err := os.Open(*in)
	must(err)
	var cases []*Case
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		c := &Case{i: len(cases)}
		must(json.Unmarshal(sc.Bytes(), c))
		c.D.pkg = fmt.Sprintf("d%d", c.i)
		if c.Then != nil {
			c.Then.pkg = c.D.pkg
		}
		c.res.I = c.i
		cases = append(cases, c)
	}
	must(sc.Err())
	t0 := time.Now()
	parallel(len(cases), 8, func(i int) { cases[i].generate(mod) })
	fmt.Fprintf(os.Stderr, "lab: generated %d packages in %v\n", len(cases), time.Since(t0))
	// compile
	pk := []string{}
	for _, c := range cases {
		if c.res.Rc != 0 {
			continue
		}
		p := "./" + c.D.pkg
		if *full && c.Parts == "generated" {
		} else if *full && c.Parts == "service" {
			cmds, _ := filepath.Glob(filepath.Join(mod, c.D.pkg, c.svcDir, "cmd", "*"))
			for _, d := range cmds {
				if !strings.HasSuffix(d, "-client") {
					pk = append(pk, p+"/"+c.svcDir+"/cmd/"+filepath.Base(d))
				}
			}
		} else if *full {
			p += "/..."
		} else if c.svcDir != "" {
			p += "/" + c.svcDir + "/server"
		}
		pk = append(pk, p)
	}
	t0 = time.Now()
	fails := map[string]string{}
	if len(pk) > 0 {
		cmd := exec.Command("go", append([]string{"build", "-gcflags=labm/...=-N -l"}, pk...)...)
		cmd.Dir = mod
		b, err := cmd.CombinedOutput()
		if err != nil {
			cur := ""
			other := ""
			for _, l := range strings.Split(string(b), "\n") {
				if m := section.FindStringSubmatch(l); m != nil {
					cur = m[1]
				} else if m := regexp.MustCompile(`^(d[0-9]+)/[^ ]*:[0-9]+:[0-9]+: `).FindStringSubmatch(l); m != nil {
					cur = m[1]
				} else if l != "" && cur == "" {
					other += l + "\n"
				}
				if cur != "" && len(fails[cur]) < 3000 {
					fails[cur] += l + "\n"
				}
			}
			if len(fails) == 0 {
				must(fmt.Errorf("the generated module does not build: %s", b))
			}
			_ = other
		}
	}
	fmt.Fprintf(os.Stderr, "lab: compiled in %v, %d failed\n", time.Since(t0), len(fails))
	var todo, ready []*Case
	for _, c := range cases {
		c.res.Build = fails[c.D.pkg]
		if *build || c.res.Rc != 0 || c.res.Build != "" || len(c.Calls) == 0 && c.Traffic == nil {
			continue
		}
		ready = append(ready, c)
	}
	parallel(len(ready), 6, func(i int) {
		if err := ready[i].glue(mod); err != nil {
			ready[i].res.Build = err.Error()
		}
	})
	for _, c := range ready {
		if c.res.Build == "" {
			todo = append(todo, c)
		}
	}
	if len(todo) > 0 {
		t0 = time.Now()
		srcs, _ := filepath.Glob(filepath.Join(*runSrc, "*.go"))
		for _, s := range srcs {
			b, err := os.ReadFile(s)
			must(err)
			must(os.WriteFile(filepath.Join(mod, "run", filepath.Base(s)), b, 0o644))
		}
		bin := filepath.Join(*work, "run.bin")
		args := []string{"build", "-gcflags=labm/...=-N -l", "-o", bin}
		if *race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./run")...)
		cmd.Dir = mod
		if b, err := cmd.CombinedOutput(); err != nil {
			must(fmt.Errorf("building the runner: %s", b))
		}
		fmt.Fprintf(os.Stderr, "lab: runner built in %v\n", time.Since(t0))
		t0 = time.Now()
		end := time.Now().Add(*limit)
		parallel(len(todo), 8, func(k int) { todo[k].exec(bin, end) })
		fmt.Fprintf(os.Stderr, "lab: calls took %v\n", time.Since(t0))
	}
	of, err := os.Create(*out)
	must(err)
	w := bufio.NewWriter(of)
	for _, c := range cases {
		sort.Strings(c.res.Files)
		b, _ := json.Marshal(c.res)
		w.Write(b)
		w.WriteByte('\n')
	}
	must(w.Flush())
	must(of.Close())
}
