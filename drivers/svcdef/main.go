// Driver for svcdef.New: renders the definitions of SvcDef as .proto files,
// runs protoc, and compares what svcdef.New makes of them with their meaning.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/teamlint/baron/svcdef"
)

type Field struct {
	N, C, T, Key, Oo string
	R                int
}
type Type struct {
	N, K string
	Up   int
	File int
	F    []Field
}
type Seg struct{ K, V string }
type Bind struct {
	Verb, Body string
	Path       []Seg
}
type Rpc struct {
	N, X string
	Q, S int
	Bs   []Bind
}
type Def struct {
	Types []Type
	Files int
	Svc   struct {
		N    string
		File int
		Rpcs []Rpc
	}
}

type Ty struct {
	K string `json:"k"`
	N string `json:"n"`
}
type Opt struct {
	Go string `json:"go"`
	Pb string `json:"pb"`
	Ty Ty     `json:"ty"`
}
type MField struct {
	Go   string `json:"go"`
	Pb   string `json:"pb"`
	Card string `json:"card"`
	Ty   Ty     `json:"ty"`
	Key  string `json:"key"`
	Opts []Opt  `json:"opts"`
}
type Msg struct {
	N  string   `json:"n"`
	Fs []MField `json:"fs"`
}
type MBind struct {
	Verb string   `json:"verb"`
	Path string   `json:"path"`
	Locs []string `json:"locs"`
}
type MRpc struct {
	N  string  `json:"n"`
	Q  string  `json:"q"`
	S  string  `json:"s"`
	Bs []MBind `json:"bs"`
}
type Meaning struct {
	Ok    bool     `json:"ok"`
	Msgs  []Msg    `json:"msgs"`
	Enums []string `json:"enums"`
	Svc   string   `json:"svc"`
	Rpcs  []MRpc   `json:"rpcs"`
}
type Case struct {
	D Def
	M Meaning
}

// ---- rendering

func (d *Def) full(i int) string {
	t := d.Types[i-1]
	if t.Up == 0 {
		return ".defs." + t.N
	}
	return d.full(t.Up) + "." + t.N
}

func (d *Def) ref(f Field) string {
	switch {
	case f.T == "@":
		return d.full(f.R)
	case strings.Contains(f.T, "."):
		return "." + f.T
	}
	return f.T
}

func (d *Def) renderType(w *strings.Builder, i int, ind string) {
	t := d.Types[i-1]
	if t.K == "enum" {
		fmt.Fprintf(w, "%senum %s {\n%s  V%d_A = 0;\n%s  V%d_B = 1;\n%s}\n", ind, t.N, ind, i, ind, i, ind)
		return
	}
	fmt.Fprintf(w, "%smessage %s {\n", ind, t.N)
	for j := range d.Types {
		if d.Types[j].Up == i {
			d.renderType(w, j+1, ind+"  ")
		}
	}
	in := ""
	for k, f := range t.F {
		if f.Oo != in {
			if in != "" {
				fmt.Fprintf(w, "%s  }\n", ind)
			}
			if f.Oo != "" {
				fmt.Fprintf(w, "%s  oneof %s {\n", ind, f.Oo)
			}
			in = f.Oo
		}
		ty := d.ref(f)
		switch f.C {
		case "rep":
			ty = "repeated " + ty
		case "opt":
			ty = "optional " + ty
		case "map":
			ty = "map<" + f.Key + ", " + ty + ">"
		}
		fmt.Fprintf(w, "%s  %s %s = %d;\n", ind, ty, f.N, k+1)
	}
	if in != "" {
		fmt.Fprintf(w, "%s  }\n", ind)
	}
	fmt.Fprintf(w, "%s}\n", ind)
}

func (b Bind) render() string {
	p := ""
	for _, s := range b.Path {
		if s.K == "var" {
			p += "/{" + s.V + "}"
		} else {
			p += "/" + s.V
		}
	}
	r := ""
	switch b.Verb {
	case "get", "put", "post", "delete", "patch":
		r = fmt.Sprintf("%s: %q", b.Verb, p)
	default:
		r = fmt.Sprintf("custom { kind: %q path: %q }", b.Verb, p)
	}
	if b.Body != "" {
		r += fmt.Sprintf("\n      body: %q", b.Body)
	}
	return r
}

func (d *Def) render(file int) string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto3\";\npackage defs;\noption go_package = \"example.com/defs;defs\";\n")
	imp := map[string]bool{}
	for i := 1; i < file; i++ {
		imp[fmt.Sprintf("f%d.proto", i)] = true
	}
	for _, t := range d.Types {
		for _, f := range t.F {
			if t.File == file && strings.Contains(f.T, ".") {
				n := strings.ToLower(f.T[strings.LastIndex(f.T, ".")+1:])
				if n == "stringvalue" {
					n = "wrappers"
				}
				imp["google/protobuf/"+n+".proto"] = true
			}
		}
	}
	if d.Svc.File == file {
		imp["google/api/annotations.proto"] = true
		for _, r := range d.Svc.Rpcs {
			if strings.HasSuffix(r.X, "imported") {
				imp["google/protobuf/empty.proto"] = true
			}
		}
	}
	var is []string
	for i := range imp {
		is = append(is, i)
	}
	sort.Strings(is)
	for _, i := range is {
		fmt.Fprintf(&w, "import %q;\n", i)
	}
	svc := func() {
		if d.Svc.File != file {
			return
		}
		fmt.Fprintf(&w, "service %s {\n", d.Svc.N)
		for _, r := range d.Svc.Rpcs {
			q, s := d.full(r.Q)[6:], d.full(r.S)[6:]
			switch r.X {
			case "request stream":
				q = "stream " + q
			case "response stream":
				s = "stream " + s
			case "both streams":
				q, s = "stream "+q, "stream "+s
			case "request imported":
				q = ".google.protobuf.Empty"
			case "response imported":
				s = ".google.protobuf.Empty"
			}
			fmt.Fprintf(&w, "  rpc %s (%s) returns (%s) {\n", r.N, q, s)
			if len(r.Bs) > 0 {
				fmt.Fprintf(&w, "    option (google.api.http) = {\n      %s\n", r.Bs[0].render())
				for _, b := range r.Bs[1:] {
					fmt.Fprintf(&w, "      additional_bindings {\n      %s\n      }\n", b.render())
				}
				fmt.Fprintf(&w, "    };\n")
			}
			fmt.Fprintf(&w, "  }\n")
		}
		fmt.Fprintf(&w, "}\n")
	}
	if len(d.Types)%2 == 0 {
		svc()
	}
	for i, t := range d.Types {
		if t.File == file && t.Up == 0 {
			d.renderType(&w, i+1, "")
		}
	}
	if len(d.Types)%2 == 1 {
		svc()
	}
	return w.String()
}

// ---- projection of a Svcdef

func ty(f *svcdef.FieldType) Ty {
	switch {
	case f.Message != nil:
		if f.Message.Name != f.Name {
			return Ty{"msg", f.Name + " resolved to " + f.Message.Name}
		}
		return Ty{"msg", f.Name}
	case f.Enum != nil:
		if f.Enum.Name != f.Name {
			return Ty{"enum", f.Name + " resolved to " + f.Enum.Name}
		}
		return Ty{"enum", f.Name}
	case strings.Contains(f.Name, "."):
		return Ty{"imported", f.Name}
	case f.Name == "byte" && f.ArrayType:
		return Ty{"scalar", "bytes"}
	}
	return Ty{"scalar", f.Name}
}

func field(f *svcdef.Field) MField {
	t := f.Type
	r := MField{Go: f.Name, Pb: f.PBFieldName, Card: "one", Opts: []Opt{}}
	switch {
	case t.Map != nil:
		r.Card, r.Key, r.Ty = "map", t.Map.KeyType.Name, ty(t.Map.ValueType)
	case t.Oneof != nil:
		r.Card, r.Ty = "oneof", Ty{"oneof", ""}
		for _, o := range t.Oneof {
			ot := *o.Type
			n := Ty{"scalar", ot.Name}
			switch {
			case ot.Name == "byte" && ot.ArrayType:
				n = Ty{"scalar", "bytes"}
			case strings.Contains(ot.Name, "."):
				n.K = "imported"
			case ot.Enum != nil:
				n.K = "enum"
			case ot.StarExpr:
				n.K = "msg"
			}
			r.Opts = append(r.Opts, Opt{o.Name, o.PBFieldName, n})
		}
	default:
		r.Ty = ty(t)
		if t.Name == "[]byte" {
			r.Card, r.Ty = "rep", Ty{"scalar", "bytes"}
		} else if t.ArrayType && r.Ty.N != "bytes" {
			r.Card = "rep"
		} else if t.StarExpr && r.Ty.K != "msg" && r.Ty.K != "imported" {
			r.Card = "opt"
		}
	}
	return r
}

func project(sd *svcdef.Svcdef) (m Meaning) {
	for _, x := range sd.Messages {
		mm := Msg{N: x.Name, Fs: []MField{}}
		for _, f := range x.Fields {
			mm.Fs = append(mm.Fs, field(f))
		}
		m.Msgs = append(m.Msgs, mm)
	}
	for _, e := range sd.Enums {
		m.Enums = append(m.Enums, e.Name)
	}
	if sd.Service == nil {
		return
	}
	m.Svc = sd.Service.Name
	name := func(f *svcdef.FieldType) string {
		if t := ty(f); t.K == "msg" {
			return t.N
		}
		return f.Name + " unresolved"
	}
	for _, r := range sd.Service.Methods {
		mr := MRpc{N: r.Name, Q: name(r.RequestType), S: name(r.ResponseType)}
		for _, b := range r.Bindings {
			mb := MBind{Verb: b.Verb, Path: b.Path}
			for i, p := range b.Params {
				if r.RequestType.Message == nil || i >= len(r.RequestType.Message.Fields) || r.RequestType.Message.Fields[i] != p.Field {
					mb.Locs = append(mb.Locs, "not a field of the request: "+p.Field.Name)
					continue
				}
				mb.Locs = append(mb.Locs, p.Location)
			}
			mr.Bs = append(mr.Bs, mb)
		}
		m.Rpcs = append(m.Rpcs, mr)
	}
	return
}

func norm(m *Meaning) {
	sort.SliceStable(m.Msgs, func(i, j int) bool { return m.Msgs[i].N < m.Msgs[j].N })
	sort.Strings(m.Enums)
	for i := range m.Msgs {
		for j := range m.Msgs[i].Fs {
			if m.Msgs[i].Fs[j].Opts == nil {
				m.Msgs[i].Fs[j].Opts = []Opt{}
			}
		}
	}
	for i := range m.Rpcs {
		b := m.Rpcs[i].Bs
		sort.SliceStable(b, func(x, y int) bool { return b[x].Path+b[x].Verb < b[y].Path+b[y].Verb })
	}
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// diff names the first difference but those of the places of fields.
func diff(want, got Meaning) string {
	norm(&want)
	norm(&got)
	if want.Svc != got.Svc {
		return fmt.Sprintf("service: is %q, declared %q", got.Svc, want.Svc)
	}
	if len(want.Enums)+len(got.Enums) > 0 && !reflect.DeepEqual(want.Enums, got.Enums) {
		return fmt.Sprintf("enums: are %v, declared %v", got.Enums, want.Enums)
	}
	names := func(m Meaning) (r []string) {
		for _, x := range m.Msgs {
			r = append(r, x.N)
		}
		return
	}
	if js(names(want)) != js(names(got)) {
		return fmt.Sprintf("messages: are %v, declared %v", names(got), names(want))
	}
	for i := range want.Msgs {
		w, g := want.Msgs[i].Fs, got.Msgs[i].Fs
		for j := 0; j < len(w) || j < len(g); j++ {
			if j >= len(w) || j >= len(g) {
				return fmt.Sprintf("fields: of %s are %s, declared %s", want.Msgs[i].N, js(g), js(w))
			}
			if js(w[j]) != js(g[j]) {
				return fmt.Sprintf("field: of %s is %s, declared %s", want.Msgs[i].N, js(g[j]), js(w[j]))
			}
		}
	}
	if len(want.Rpcs) != len(got.Rpcs) {
		return fmt.Sprintf("rpcs: are %s, declared %s", js(got.Rpcs), js(want.Rpcs))
	}
	for i := range want.Rpcs {
		w, g := want.Rpcs[i], got.Rpcs[i]
		if w.N != g.N || w.Q != g.Q || w.S != g.S || len(w.Bs) != len(g.Bs) {
			return fmt.Sprintf("rpc: is %s, declared %s", js(g), js(w))
		}
		for j := range w.Bs {
			if w.Bs[j].Verb != g.Bs[j].Verb || w.Bs[j].Path != g.Bs[j].Path {
				return fmt.Sprintf("binding: is %s, declared %s", js(g.Bs[j]), js(w.Bs[j]))
			}
		}
	}
	return ""
}

// locations names the first difference in where fields travel: a binding of an
// RPC that is not there, or not that RPC's, has no field where it belongs.
func locations(want, got Meaning) string {
	norm(&want)
	norm(&got)
	for _, w := range want.Rpcs {
		for _, g := range got.Rpcs {
			if w.N != g.N || w.Q != g.Q {
				continue
			}
			for j := 0; j < len(w.Bs) || j < len(g.Bs); j++ {
				if j >= len(w.Bs) || j >= len(g.Bs) || w.Bs[j].Verb != g.Bs[j].Verb || w.Bs[j].Path != g.Bs[j].Path {
					return fmt.Sprintf("bindings: of %s are %s, declared %s", w.N, js(g.Bs), js(w.Bs))
				}
				if strings.Join(w.Bs[j].Locs, " ") != strings.Join(g.Bs[j].Locs, " ") {
					return fmt.Sprintf("locations: of %s %s %s are %v, declared %v", w.N, w.Bs[j].Verb, w.Bs[j].Path, g.Bs[j].Locs, w.Bs[j].Locs)
				}
			}
		}
	}
	return ""
}

// ---- running

type built struct {
	goFiles, protos map[string]string
	err             string
}

func run(cmd string, dir string, args ...string) (string, error) {
	c := exec.Command(cmd, args...)
	c.Dir = dir
	b, err := c.CombinedOutput()
	return string(b), err
}

func build(d *Def, dir, third string) (b built) {
	b.goFiles, b.protos = map[string]string{}, map[string]string{}
	var files []string
	for i := 1; i <= d.Files; i++ {
		n := fmt.Sprintf("f%d.proto", i)
		t := d.render(i)
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0666); err != nil {
			b.err = err.Error()
			return
		}
		b.protos[n] = t
		files = append(files, n)
	}
	args := append([]string{"--experimental_allow_proto3_optional", "--proto_path=" + dir, "-I" + third,
		"--go_out=" + dir, "--go_opt=paths=source_relative", "--go-grpc_out=" + dir, "--go-grpc_opt=paths=source_relative"}, files...)
	out, err := run("protoc", dir, args...)
	if err != nil {
		b.err = err.Error() + ": " + out
		return
	}
	gs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, g := range gs {
		t, err := os.ReadFile(g)
		if err != nil {
			b.err = err.Error()
			return
		}
		b.goFiles[filepath.Base(g)] = string(t)
	}
	return
}

func readers(m map[string]string) map[string]io.Reader {
	r := map[string]io.Reader{}
	for k, v := range m {
		r[k] = strings.NewReader(v)
	}
	return r
}

func read(b built) (sd *svcdef.Svcdef, what string) {
	type res struct {
		sd   *svcdef.Svcdef
		what string
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{nil, fmt.Sprintf("panic: %v", r)}
			}
		}()
		sd, err := svcdef.New(readers(b.goFiles), readers(b.protos))
		if err != nil {
			ch <- res{nil, "error: " + err.Error()}
			return
		}
		ch <- res{sd, ""}
	}()
	select {
	case r := <-ch:
		return r.sd, r.what
	case <-time.After(20 * time.Second):
		return nil, "hang: svcdef.New does not return"
	}
}

// ---- histories (C08)

type Input struct {
	Go, Protos map[string]string
}

func outcome(in Input) string {
	sd, what := read(built{goFiles: in.Go, protos: in.Protos})
	if what != "" {
		if strings.HasPrefix(what, "error") {
			return "error"
		}
		return what
	}
	m := project(sd)
	norm(&m)
	b, _ := json.Marshal(m)
	return fmt.Sprintf("definition %x", sha256.Sum256(b))
}

// spoil makes something else out of what protoc made.
func spoil(rnd *rand.Rand, b built, other built) Input {
	in := Input{map[string]string{}, map[string]string{}}
	for k, v := range b.goFiles {
		in.Go[k] = v
	}
	for k, v := range b.protos {
		in.Protos[k] = v
	}
	pick := func(m map[string]string) string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks[rnd.Intn(len(ks))]
	}
	switch rnd.Intn(8) {
	case 0: // not all files given
		delete(in.Go, pick(in.Go))
	case 1:
		k := pick(in.Go)
		in.Go[k] = in.Go[k][:rnd.Intn(len(in.Go[k])+1)]
	case 2:
		k := pick(in.Protos)
		in.Protos[k] = in.Protos[k][:rnd.Intn(len(in.Protos[k])+1)]
	case 3: // the Go code of an older definition
		in.Go = other.goFiles
	case 4:
		k := pick(in.Go)
		ls := strings.Split(in.Go[k], "\n")
		i := rnd.Intn(len(ls))
		in.Go[k] = strings.Join(append(ls[:i:i], ls[i+1:]...), "\n")
	case 5:
		k := pick(in.Protos)
		ls := strings.Split(in.Protos[k], "\n")
		i := rnd.Intn(len(ls))
		in.Protos[k] = strings.Join(append(ls[:i:i], ls[i+1:]...), "\n")
	}
	return in
}

func history(bs []built, out string, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	var ins []Input
	for i, b := range bs {
		if b.err != "" {
			panic(b.err)
		}
		for k := 0; k < 3; k++ {
			ins = append(ins, spoil(rnd, b, bs[(i+1)%len(bs)]))
		}
	}
	fresh := make([]string, len(ins))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c := exec.Command(os.Args[0], "-mode", "one")
				b, _ := json.Marshal(ins[i])
				c.Stdin = bytes.NewReader(b)
				o, err := c.Output()
				fresh[i] = string(o)
				if err != nil {
					fresh[i] = "crash: " + err.Error()
				}
			}
		}()
	}
	for i := range ins {
		ch <- i
	}
	close(ch)
	wg.Wait()
	type rd struct {
		Text int    `json:"text"`
		Out  string `json:"out"`
	}
	var reads []rd
	for k := 0; k < 3; k++ {
		for _, i := range rnd.Perm(len(ins)) {
			if strings.HasPrefix(fresh[i], "definition") || fresh[i] == "error" || strings.HasPrefix(fresh[i], "panic") {
				reads = append(reads, rd{i + 1, outcome(ins[i])})
			}
		}
	}
	var texts []string
	for _, in := range ins {
		texts = append(texts, js(in))
	}
	o, _ := os.Create(out)
	defer o.Close()
	json.NewEncoder(o).Encode(map[string]interface{}{"fresh": fresh, "reads": reads, "inputs": texts})
}

func main() {
	mode := flag.String("mode", "define", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	work := flag.String("work", "", "")
	third := flag.String("third", "", "")
	reps := flag.Int("reps", 3, "")
	seed := flag.Int64("seed", 1, "")
	flag.Parse()
	logrus.SetOutput(io.Discard)
	if *mode == "one" {
		var in Input
		if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
			panic(err)
		}
		fmt.Print(outcome(in))
		return
	}
	if *mode == "replay" { // a sequence of inputs; the outcome of each
		var ins []Input
		if err := json.NewDecoder(os.Stdin).Decode(&ins); err != nil {
			panic(err)
		}
		for _, in := range ins {
			fmt.Println(outcome(in))
		}
		return
	}
	var cases []Case
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		cases = append(cases, c)
	}
	bs := make([]built, len(cases))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				dir := filepath.Join(*work, fmt.Sprint("d", i))
				os.MkdirAll(dir, 0777)
				bs[i] = build(&cases[i].D, dir, *third)
				os.RemoveAll(dir)
			}
		}()
	}
	for i := range cases {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if *mode == "history" {
		history(bs, *out, *seed)
		return
	}
	// every definition several times, in an order that mixes them, in one process
	rnd := rand.New(rand.NewSource(*seed))
	var order []int
	for k := 0; k < *reps; k++ {
		order = append(order, rnd.Perm(len(cases))...)
	}
	o, _ := os.Create(*out)
	defer o.Close()
	enc := json.NewEncoder(o)
	refused := 0
	bad := map[int]bool{}
	for _, i := range order {
		if bad[i] {
			continue
		}
		if bs[i].err != "" {
			bad[i] = true
			refused++
			enc.Encode(map[string]interface{}{"i": i, "refused": bs[i].err})
			continue
		}
		sd, what := read(bs[i])
		if !cases[i].M.Ok {
			if what == "" {
				what = "accepted: a definition with an RPC that is not supported"
			} else if strings.HasPrefix(what, "error") {
				continue
			}
		}
		place := ""
		if what == "" {
			what, place = diff(cases[i].M, project(sd)), locations(cases[i].M, project(sd))
		}
		for loc, x := range map[bool]string{false: what, true: place} {
			if x != "" {
				bad[i] = true
				enc.Encode(map[string]interface{}{"i": i, "what": x, "loc": loc, "protos": bs[i].protos})
			}
		}
	}
	enc.Encode(map[string]interface{}{"i": -1, "reads": len(order)})
}
