// Command regen replays histories of the Regen specification against the
// real baron binary in scratch projects and records, after every run, the
// projection of the project onto the specification's state.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type RPC struct {
	N string `json:"n"`
	Q string `json:"q"`
	R string `json:"r"`
}
type Opt struct {
	T string `json:"t"`
	C bool   `json:"c"`
	S string `json:"s"` // order of the two definition files, and which has the service
}
type Decl struct {
	K string `json:"k"`
	N string `json:"n"`
	Q string `json:"q"`
	R string `json:"r"`
	B int    `json:"b"`
}
type Obs struct {
	Res    string            `json:"res"`
	Hs     string            `json:"hs"`
	Same   bool              `json:"same"`
	H      []Decl            `json:"h"`
	Cf     map[string]string `json:"cf"`
	Of     map[string]string `json:"of"`
	Oth    map[string]int    `json:"oth"`
	Stray  string            `json:"stray"`
	Det    bool              `json:"det"`
	Idem   bool              `json:"idem"`
	Log    string            `json:"log"`
	Trials []Trial           `json:"trials"`
}
type Step struct {
	A    string `json:"a"`
	I    int    `json:"i,omitempty"`
	N    string `json:"n,omitempty"`
	Q    string `json:"q,omitempty"`
	R    string `json:"r,omitempty"`
	T    string `json:"t,omitempty"`
	S    string `json:"s,omitempty"`
	C    bool   `json:"c"`
	B    int    `json:"b,omitempty"`
	D    *Decl  `json:"d,omitempty"`
	F    string `json:"f,omitempty"`
	ID   int    `json:"id"`
	Kind string `json:"kind,omitempty"`
	Obs  *Obs   `json:"obs,omitempty"`
}
type Init struct {
	Def []RPC `json:"def"`
	Opt Opt   `json:"opt"`
}
type Fresh struct {
	Def   []RPC             `json:"def"`
	Opt   Opt               `json:"opt"`
	Files map[string]string `json:"files"`
}
type Trace struct {
	Profile int     `json:"profile"`
	Salt    int     `json:"salt"`
	Init    Init    `json:"init"`
	Steps   []Step  `json:"steps"`
	Fresh   []Fresh `json:"fresh"`
	Err     string  `json:"err"`
}

var (
	baron    = flag.String("baron", "", "baron binary")
	work     = flag.String("work", "", "scratch directory")
	in       = flag.String("in", "", "histories")
	out      = flag.String("out", "", "recorded histories")
	det      = flag.Bool("det", false, "repeat runs to observe determinism and idempotence")
	crash    = flag.Int("crash", 0, "number of runs per history, counted from its end, to interrupt everywhere")
	faultrun = flag.String("faultrun", "", "fault injection tool")
	keep     = flag.Bool("keep", false, "keep scratch projects")
	layout   = flag.Bool("layout", false, "only print the kinds of declarations in a new handler file before and after its handlers")
	workers  = flag.Int("j", 8, "parallel projects")
	limit    = flag.Duration("limit", 10*time.Minute, "stop starting histories after")
)

func main() {
	flag.Parse()
	if g := os.Getenv("GOPATH"); g == "" || strings.HasPrefix(g, "/opt") || strings.HasPrefix(g, "/root") {
		check(fmt.Errorf("GOPATH must be a scratch directory, not %q", g))
	}
	if *layout {
		showLayout()
		return
	}
	f, err := os.Open(*in)
	check(err)
	var traces []*Trace
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var t Trace
		check(json.Unmarshal(sc.Bytes(), &t))
		traces = append(traces, &t)
	}
	start := time.Now()
	var wg sync.WaitGroup
	ch := make(chan int)
	done := make([]bool, len(traces))
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if time.Since(start) > *limit {
					continue
				}
				runTrace(i, traces[i])
				done[i] = true
			}
		}()
	}
	for i := range traces {
		ch <- i
	}
	close(ch)
	wg.Wait()
	o, err := os.Create(*out)
	check(err)
	bw := bufio.NewWriter(o)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	for i, t := range traces {
		if done[i] {
			check(enc.Encode(t))
		}
	}
	check(bw.Flush())
	check(o.Close())
	fmt.Println("cli runs:", cliRuns)
}

func showLayout() {
	dir, err := os.MkdirTemp(*work, "layout")
	check(err)
	defer os.RemoveAll(dir)
	p := &profiles[0]
	opt := Opt{T: "all", S: "ab:a"}
	p.create(dir, []RPC{{N: "A", Q: "T1", R: "T1"}}, opt.S)
	var l struct {
		Above []string `json:"above"`
		Below []string `json:"below"`
	}
	l.Above, l.Below = []string{"gen", "ctor", "gen"}, []string{}
	// a tool that cannot do this is judged along the histories
	if code, _ := runBaron(dir, p.args(opt)...); code == 0 {
		b, _ := os.ReadFile(filepath.Join(dir, p.path("handler")))
		if items, err := split(p, b); err == nil {
			above, below, past := []string{}, []string{}, false
			for _, it := range items {
				switch {
				case it.d.K == "meth":
					past = true
				case past:
					below = append(below, it.d.K)
				default:
					above = append(above, it.d.K)
				}
			}
			l.Above, l.Below = above, below
		}
	}
	check(json.NewEncoder(os.Stdout).Encode(l))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "regen driver:", err)
		os.Exit(3)
	}
}

var (
	runMu   sync.Mutex
	cliRuns int
)

// runBaron runs the tool in dir and returns its exit code and output.
func runBaron(dir string, args ...string) (int, string) { return runBaronEnv(dir, nil, args...) }

func runBaronEnv(dir string, env []string, args ...string) (int, string) {
	runMu.Lock()
	cliRuns++
	runMu.Unlock()
	for attempt := 0; ; attempt++ {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, *baron, args...)
		cmd.Dir = dir
		if env != nil {
			cmd.Env = env
		}
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		if timedOut {
			if attempt == 0 {
				continue
			}
			return -2, "timeout\n" + b.String()
		}
		if err == nil {
			return 0, b.String()
		}
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), b.String()
		}
		return -3, err.Error()
	}
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return "h" + hex.EncodeToString(h[:8])
}

// snapshot maps every file of a tree, seen through symbolic links, to its bytes.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	var walk func(rel string)
	walk = func(rel string) {
		es, _ := os.ReadDir(filepath.Join(dir, rel))
		for _, e := range es {
			r := filepath.Join(rel, e.Name())
			info, err := os.Stat(filepath.Join(dir, r))
			if err != nil {
				t, _ := os.Readlink(filepath.Join(dir, r))
				m[r] = "->" + t
			} else if info.IsDir() {
				walk(r)
			} else {
				b, _ := os.ReadFile(filepath.Join(dir, r))
				m[r] = string(b)
			}
		}
	}
	walk("")
	return m
}

func copyTree(src, dst string) {
	for rel, c := range snapshot(src) {
		p := filepath.Join(dst, rel)
		check(os.MkdirAll(filepath.Dir(p), 0o777))
		if strings.HasPrefix(c, "->") {
			os.Symlink(c[2:], p)
			continue
		}
		check(os.WriteFile(p, []byte(c), 0o666))
	}
	// directories without files matter to nothing here
}

func diff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "-"+k)
		} else if v != w {
			d = append(d, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "+"+k)
		}
	}
	sort.Strings(d)
	return d
}

var (
	pathMu sync.Mutex
	paths  = map[string][]string{}
)

// brokenPath is an environment in which one of the programs baron needs is
// missing or fails.
func brokenPath(kind string) []string {
	pathMu.Lock()
	defer pathMu.Unlock()
	if e, ok := paths[kind]; ok {
		return e
	}
	tools := map[string]string{}
	for _, t := range []string{"protoc", "protoc-gen-go", "protoc-gen-go-grpc", "go"} {
		p, err := exec.LookPath(t)
		check(err)
		tools[t] = p
	}
	dir, err := os.MkdirTemp(*work, "path")
	check(err)
	for t, p := range tools {
		script := fmt.Sprintf("#!/bin/sh\nexec %s \"$@\"\n", p)
		switch {
		case kind == "noplugin" && t == "protoc-gen-go":
			continue
		case kind == "nogrpc" && t == "protoc-gen-go-grpc":
			script = "#!/bin/sh\necho broken plugin >&2\nexit 1\n"
		case kind == "noprotoc" && t == "protoc":
			script = "#!/bin/sh\nexit 3\n"
		}
		check(os.WriteFile(filepath.Join(dir, t), []byte(script), 0o755))
	}
	var env []string
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "PATH=") {
			env = append(env, kv)
		}
	}
	env = append(env, "PATH="+dir+":/usr/bin:/bin")
	paths[kind] = env
	return env
}
