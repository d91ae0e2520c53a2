// Driver for the definition reader: replays what the specifications generate
// into svcparse and svcdef and compares.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/svcdef/svcparse"
)

type Sym []string

func (s Sym) S() string { return strings.Join(s, "") }

type Item struct {
	V Sym    `json:"v"`
	T string `json:"t"`
	L int    `json:"l"`
}

type ScanCase struct {
	T   Sym    `json:"t"`
	Us  []Item `json:"us"`
	Ts  []Item `json:"ts"`
	Bal bool   `json:"bal"`
}

type Op struct {
	Op  string `json:"op"`
	K   int    `json:"k"`
	Pos int    `json:"pos"`
	Err bool   `json:"err"`
	Res struct {
		Eof bool   `json:"eof"`
		V   Sym    `json:"v"`
		T   string `json:"t"`
		L   int    `json:"l"`
	} `json:"res"`
}

type Session struct {
	Text Sym    `json:"text"`
	Kind string `json:"kind"`
	Bal  bool   `json:"bal"`
	Ops  []Op   `json:"ops"`
}

type Bind struct {
	Verb Sym               `json:"verb"`
	Path Sym               `json:"path"`
	Body Sym               `json:"body"`
	Loc  map[string]string `json:"loc"`
}

type ParseCase struct {
	T  Sym `json:"t"`
	Ms []struct {
		N  Sym    `json:"n"`
		Bs []Bind `json:"bs"`
	} `json:"ms"`
	Ok bool `json:"ok"`
}

// within runs f and reports a panic or a hang.
func within(d time.Duration, f func() string) (res string) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- fmt.Sprintf("panic: %v", r)
			}
		}()
		ch <- f()
	}()
	select {
	case res = <-ch:
	case <-time.After(d):
		res = "hang"
	}
	return
}

func scan(c ScanCase) string {
	text := c.T.S()
	scn := svcparse.NewSvcScanner(strings.NewReader(text))
	all := ""
	for i := 0; ; i++ {
		u, err := scn.ReadUnit()
		if err != nil {
			if err != io.EOF {
				return "scanner: error " + err.Error()
			}
			if i != len(c.Us) {
				return fmt.Sprintf("scanner: %d units, expected %d", i, len(c.Us))
			}
			break
		}
		if i >= len(c.Us) {
			return fmt.Sprintf("scanner: extra unit %q", string(u))
		}
		if string(u) != c.Us[i].V.S() {
			return fmt.Sprintf("scanner: unit %d is %q, expected %q", i+1, string(u), c.Us[i].V.S())
		}
		if scn.GetLineNumber() != c.Us[i].L {
			return fmt.Sprintf("scanner: line of unit %d (%q) is %d, expected %d", i+1, string(u), scn.GetLineNumber(), c.Us[i].L)
		}
		all += string(u)
	}
	if all != text {
		return "scanner: units do not make up the text"
	}
	if !c.Bal {
		return ""
	}
	lex := svcparse.NewSvcLexer(strings.NewReader(text))
	for i := 0; ; i++ {
		tk, v := lex.GetToken()
		if tk == svcparse.EOF {
			if i != len(c.Ts) {
				return fmt.Sprintf("lexer: %d tokens, expected %d", i, len(c.Ts))
			}
			return ""
		}
		if i >= len(c.Ts) {
			return fmt.Sprintf("lexer: extra token %v %q", tk, v)
		}
		w := c.Ts[i]
		if v != w.V.S() || tk.String() != w.T {
			return fmt.Sprintf("lexer: token %d is %v %q, expected %v %q", i+1, tk, v, w.T, w.V.S())
		}
		if lex.GetLineNumber() != w.L {
			return fmt.Sprintf("lexer: line of token %d (%q) is %d, expected %d", i+1, v, lex.GetLineNumber(), w.L)
		}
	}
}

func session(s Session) string {
	text := s.Text.S()
	if s.Kind == "scan" {
		scn := svcparse.NewSvcScanner(strings.NewReader(text))
		for i, o := range s.Ops {
			at := fmt.Sprintf("scanner: operation %d (%s %d): ", i+1, o.Op, o.K)
			switch o.Op {
			case "R":
				u, err := scn.ReadUnit()
				if (err != nil) != o.Res.Eof || err != nil && err != io.EOF {
					return at + fmt.Sprintf("error %v, expected end of input: %v", err, o.Res.Eof)
				}
				if err == nil && (string(u) != o.Res.V.S() || scn.GetLineNumber() != o.Res.L) {
					return at + fmt.Sprintf("read %q on line %d, expected %q on line %d", string(u), scn.GetLineNumber(), o.Res.V.S(), o.Res.L)
				}
			case "U":
				if err := scn.UnreadUnit(); (err != nil) != o.Err {
					return at + fmt.Sprintf("error %v, expected one: %v", err, o.Err)
				}
			case "F":
				if err := scn.FastForward(); (err != nil) != o.Err {
					return at + fmt.Sprintf("error %v, expected one: %v", err, o.Err)
				}
			case "P":
				if err := scn.UnReadToPosition(o.K); (err != nil) != o.Err {
					return at + fmt.Sprintf("error %v, expected one: %v", err, o.Err)
				}
			}
			if scn.UnitPos != o.Pos {
				return at + fmt.Sprintf("position %d, expected %d", scn.UnitPos, o.Pos)
			}
		}
		return ""
	}
	if !s.Bal {
		return ""
	}
	lex := svcparse.NewSvcLexer(strings.NewReader(text))
	for i, o := range s.Ops {
		at := fmt.Sprintf("lexer: operation %d (%s %d): ", i+1, o.Op, o.K)
		switch o.Op {
		case "G", "GW", "GI":
			get := map[string]func() (svcparse.Token, string){"G": lex.GetToken,
				"GW": lex.GetTokenIgnoreWhitespace, "GI": lex.GetTokenIgnoreCommentAndWhitespace}[o.Op]
			tk, v := get()
			if tk.String() != o.Res.T || v != o.Res.V.S() {
				return at + fmt.Sprintf("read %v %q, expected %v %q", tk, v, o.Res.T, o.Res.V.S())
			}
			if !o.Res.Eof && lex.GetLineNumber() != o.Res.L {
				return at + fmt.Sprintf("line %d, expected %d", lex.GetLineNumber(), o.Res.L)
			}
		case "U":
			if err := lex.UnGetToken(); (err != nil) != o.Err {
				return at + fmt.Sprintf("error %v, expected one: %v", err, o.Err)
			}
		case "P":
			if err := lex.UnGetToPosition(o.K); (err != nil) != o.Err {
				return at + fmt.Sprintf("error %v, expected one: %v", err, o.Err)
			}
		}
		if lex.GetPosition() != o.Pos {
			return at + fmt.Sprintf("position %d, expected %d", lex.GetPosition(), o.Pos)
		}
	}
	return ""
}

func verbPathBody(b *svcparse.HTTPBinding) (verb, path, body string) {
	for _, f := range b.Fields {
		switch f.Kind {
		case "get", "put", "post", "delete", "patch":
			verb, path = f.Kind, f.Value
		case "body":
			body = f.Value
		}
	}
	for _, f := range b.CustomHTTPPattern {
		switch f.Kind {
		case "kind":
			verb = f.Value
		case "path":
			path = f.Value
		}
	}
	return
}

func same(a, b []string) string {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("bindings %q, expected %q", a, b)
	}
	return ""
}

func parse(c ParseCase) string {
	svc, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(c.T.S())))
	if err != nil {
		if c.Ok {
			return "refused: " + err.Error()
		}
		return ""
	}
	var want, got []string
	bound := map[string]bool{}
	for _, m := range c.Ms {
		if len(m.Bs) > 0 {
			want = append(want, m.N.S())
			bound[m.N.S()] = true
		}
	}
	for _, m := range svc.Methods {
		if bound[m.Name] || len(m.HTTPBindings) > 0 {
			got = append(got, m.Name)
		}
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("RPCs with bindings are %q, expected %q", got, want)
	}
	for _, m := range c.Ms {
		for _, pm := range svc.Methods {
			if pm.Name != m.N.S() {
				continue
			}
			var gb, wb []string
			for _, b := range pm.HTTPBindings {
				v, p, bo := verbPathBody(b)
				gb = append(gb, v+" "+p+" body="+bo)
			}
			for _, b := range m.Bs {
				wb = append(wb, b.Verb.S()+" "+b.Path.S()+" body="+b.Body.S())
			}
			if d := same(gb, wb); d != "" {
				return "RPC " + pm.Name + ": " + d
			}
		}
	}
	return ""
}

// camel is protoc-gen-go's name for an RPC (the rules needed for the names of
// the specification).
func camel(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			out += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return out
}

func define(c ParseCase) string {
	var g strings.Builder
	g.WriteString("package p\n\ntype Req struct {\n\tId string `protobuf:\"bytes,1,opt,name=id,proto3\"`\n\tName string `protobuf:\"bytes,2,opt,name=name,proto3\"`\n\tBodyF string `protobuf:\"bytes,3,opt,name=body_f,json=bodyF,proto3\"`\n}\n\ntype AbcSvcServer interface {\n")
	for _, m := range c.Ms {
		fmt.Fprintf(&g, "\t%s(context.Context, *Req) (*Req, error)\n", camel(m.N.S()))
	}
	g.WriteString("}\n")
	sd, err := svcdef.New(map[string]io.Reader{"a.pb.go": strings.NewReader(g.String())},
		map[string]io.Reader{"a.proto": strings.NewReader(c.T.S())})
	if err != nil {
		if c.Ok {
			return "svcdef refused: " + err.Error()
		}
		return ""
	}
	if sd.Service == nil || len(sd.Service.Methods) != len(c.Ms) {
		return "svcdef: methods missing"
	}
	for i, m := range c.Ms {
		sm := sd.Service.Methods[i]
		if sm.Name != camel(m.N.S()) {
			return fmt.Sprintf("svcdef: method %d is %s, expected %s", i+1, sm.Name, camel(m.N.S()))
		}
		key := func(verb, path string, loc map[string]string) string {
			var l []string
			for f, w := range loc {
				l = append(l, f+":"+w)
			}
			sort.Strings(l)
			return verb + " " + path + " " + strings.Join(l, ",")
		}
		var gb, wb []string
		for _, b := range sm.Bindings {
			loc := map[string]string{}
			for _, p := range b.Params {
				loc[p.Field.PBFieldName] += p.Location
			}
			gb = append(gb, key(b.Verb, b.Path, loc))
		}
		for _, b := range m.Bs {
			wb = append(wb, key(b.Verb.S(), b.Path.S(), b.Loc))
		}
		if d := same(gb, wb); d != "" {
			return "svcdef: RPC " + sm.Name + ": " + d
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// Outcomes: everything the reader says about a text, as one string.

func outcome(text string) string {
	return within(10*time.Second, func() string {
		svc, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(text)))
		if err != nil {
			return "error " + err.Error()
		}
		if svc == nil {
			return "nothing"
		}
		b, err := json.Marshal(svc)
		if err != nil {
			return "unprintable " + err.Error()
		}
		h := sha256.Sum256(b)
		return "definition " + hex.EncodeToString(h[:8])
	})
}

type Read struct {
	Text int    `json:"text"`
	Out  string `json:"out"`
}

// fresh reads the text in a process of its own.
func fresh(text string) string {
	cmd := exec.Command(os.Args[0], "-mode", "one")
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	if err != nil {
		return "crash: " + err.Error()
	}
	return out.String()
}

func lines(path string, each func([]byte)) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		if len(s.Bytes()) > 0 {
			each(s.Bytes())
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func main() {
	mode := flag.String("mode", "", "scan, session, parse, define, one or reads")
	in := flag.String("in", "", "input")
	out := flag.String("out", "", "output")
	flag.Parse()
	logrus.SetOutput(io.Discard)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	must(syscall.Setrlimit(syscall.RLIMIT_AS, &lim))
	if *mode == "one" {
		b, err := io.ReadAll(os.Stdin)
		must(err)
		os.Stdout.WriteString(outcome(string(b)))
		return
	}
	o, err := os.Create(*out)
	must(err)
	defer o.Close()
	enc := json.NewEncoder(o)
	n := 0
	cur, err := os.Create(*out + ".cur")
	must(err)
	defer cur.Close()
	// the case being tried, for when it ends the process
	try := func(f func() string) {
		cur.WriteAt([]byte(fmt.Sprintf("%12d", n)), 0)
		what := within(20*time.Second, f)
		if what != "" {
			must(enc.Encode(map[string]interface{}{"i": n, "what": what}))
		}
		if what == "hang" {
			os.Exit(0)
		}
		n++
	}
	switch *mode {
	case "scan":
		lines(*in, func(b []byte) {
			var c ScanCase
			must(json.Unmarshal(b, &c))
			try(func() string { return scan(c) })
		})
	case "session":
		lines(*in, func(b []byte) {
			var c Session
			must(json.Unmarshal(b, &c))
			try(func() string { return session(c) })
		})
	case "parse", "define":
		lines(*in, func(b []byte) {
			var c ParseCase
			must(json.Unmarshal(b, &c))
			f := parse
			if *mode == "define" {
				f = define
			}
			try(func() string { return f(c) })
		})
	case "reads":
		// Input: {"texts": [...], "order": [...]}; output one line with the
		// outcome of every text in a fresh process and of every read of order.
		var c struct {
			Texts []string `json:"texts"`
			Order []int    `json:"order"`
		}
		lines(*in, func(b []byte) { must(json.Unmarshal(b, &c)) })
		fr := make([]string, len(c.Texts))
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i := range c.Texts {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer wg.Done()
				fr[i] = fresh(c.Texts[i])
				<-sem
			}(i)
		}
		wg.Wait()
		var rs []Read
		for _, i := range c.Order {
			if !strings.HasPrefix(fr[i], "definition") && !strings.HasPrefix(fr[i], "error") && fr[i] != "nothing" {
				continue
			}
			r := outcome(c.Texts[i])
			rs = append(rs, Read{i + 1, r})
			if r == "hang" {
				break
			}
		}
		must(enc.Encode(map[string]interface{}{"fresh": fr, "reads": rs}))
	default:
		panic("mode " + *mode)
	}
}
