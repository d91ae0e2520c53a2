package main

import (
	"bytes"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strings"
)

type world struct {
	t         *Trace
	p         *Profile
	dir       string
	cwd       string
	def       []RPC
	opt       Opt
	items     []item         // handler file as last known
	known     map[string]int // developer texts: kind+canon -> id
	zero      map[string]bool
	broken    bool
	mended    []byte
	onceU     map[string]int // developer content id of a create-once / owned file
	otherU    map[string]int
	freshSeen map[string]bool
	crashAt   []int
	bad       string // kind of unacceptable input of the current run
}

func (w *world) abs(f string) string { return filepath.Join(w.dir, w.p.path(f)) }

func runTrace(i int, t *Trace) {
	dir, err := os.MkdirTemp(*work, fmt.Sprintf("t%d-", i))
	check(err)
	if !*keep {
		defer os.RemoveAll(dir)
	}
	defer os.RemoveAll(dir + ".real")
	defer os.Remove(dir + ".link")
	w := &world{t: t, p: &profiles[t.Profile%len(profiles)], dir: dir, cwd: dir, opt: t.Init.Opt,
		known: map[string]int{}, zero: map[string]bool{}, onceU: map[string]int{}, otherU: map[string]int{}, freshSeen: map[string]bool{}}
	w.def = append(w.def, t.Init.Def...)
	w.p.create(dir, w.def, w.opt.S)
	w.addFresh()
	okRuns := 0
	for k := len(t.Steps) - 1; k >= 0; k-- {
		if t.Steps[k].A == "RunOk" {
			if okRuns < *crash {
				w.crashAt = append(w.crashAt, k)
			}
			okRuns++
		}
	}
	for k := range t.Steps {
		if err := w.step(&t.Steps[k], k); err != nil {
			t.Err = fmt.Sprintf("step %d (%s): %v", k+1, t.Steps[k].A, err)
			t.Steps = t.Steps[:k]
			return
		}
		s := &t.Steps[k]
		if s.Obs != nil && s.A == "RunOk" && s.Obs.Res != "ok" {
			// nothing after an unexpected failure is meaningful
			t.Steps = t.Steps[:k+1]
			return
		}
	}
}

func (w *world) addFresh() *freshEntry {
	e := fresh(w.t.Profile%len(profiles), w.def, w.opt)
	key := fmt.Sprint(w.def, w.opt)
	if !w.freshSeen[key] {
		w.freshSeen[key] = true
		w.t.Fresh = append(w.t.Fresh, e.f)
	}
	return e
}

// visible returns the index in items of the i-th visible one (1-based), or
// len(items) when i is one past the end.
func (w *world) visible(i int) int {
	n := 0
	for k, it := range w.items {
		if it.hidden {
			continue
		}
		n++
		if n == i {
			return k
		}
	}
	return len(w.items)
}

func (w *world) writeHandler(k int) {
	src := join(w.items, []int{wild, plain, tight, crlf, tight}[(w.t.Salt+k)%5])
	if len(w.items) == 0 {
		src = []byte("package service\n")
	}
	check(os.MkdirAll(filepath.Dir(w.abs("handler")), 0o777))
	check(os.WriteFile(w.abs("handler"), src, 0o666))
}

func (w *world) newItem(d Decl, b int, first bool) (item, error) {
	it, err := canonical(w.p, w.p.text(d, b, w.t.Salt, first), first)
	if err != nil {
		return it, err
	}
	if it.d.K != d.K {
		return it, fmt.Errorf("developer text of kind %s reads as %s:\n%s", d.K, it.d.K, it.text)
	}
	it.d.B = b
	w.known[it.d.K+"\x00"+it.canon] = b
	return it, nil
}

func (w *world) step(s *Step, k int) error {
	switch s.A {
	case "EditDecl", "DelDecl", "SwapDecl":
		n := w.visible(s.I)
		if s.A == "SwapDecl" {
			n = w.visible(s.I + 1)
		}
		if n >= len(w.items) {
			return fmt.Errorf("the handler file has no item %d", s.I)
		}
	}
	switch s.A {
	case "AddRpc":
		nd := append([]RPC{}, w.def[:s.I-1]...)
		nd = append(nd, RPC{s.N, s.Q, s.R})
		w.def = append(nd, w.def[s.I-1:]...)
	case "DropRpc":
		w.def = append(append([]RPC{}, w.def[:s.I-1]...), w.def[s.I:]...)
	case "MoveRpc":
		w.def = append([]RPC{}, w.def...)
		w.def[s.I-1], w.def[s.I] = w.def[s.I], w.def[s.I-1]
	case "RetypeRpc":
		w.def = append([]RPC{}, w.def...)
		w.def[s.I-1].Q, w.def[s.I-1].R = s.Q, s.R
	case "SetOpt":
		w.opt.T, w.opt.C = s.T, s.C
	case "SetSplit":
		w.opt.S = s.S
	case "AddDecl":
		it, err := w.newItem(*s.D, s.D.B, false)
		if err != nil {
			return err
		}
		at := w.visible(s.I)
		ni := append([]item{}, w.items[:at]...)
		ni = append(ni, it)
		w.items = append(ni, w.items[at:]...)
		w.writeHandler(k)
	case "EditDecl":
		at := w.visible(s.I)
		it, err := w.newItem(w.items[at].d, s.B, at == 0)
		if err != nil {
			return err
		}
		w.items[at] = it
		w.writeHandler(k)
	case "DelDecl":
		at := w.visible(s.I)
		w.items = append(append([]item{}, w.items[:at]...), w.items[at+1:]...)
		w.writeHandler(k)
	case "SwapDecl":
		a, b := w.visible(s.I), w.visible(s.I+1)
		w.items[a], w.items[b] = w.items[b], w.items[a]
		w.writeHandler(k)
	case "BreakHandler":
		b, err := os.ReadFile(w.abs("handler"))
		if err != nil {
			return err
		}
		w.mended, w.broken = b, true
		bad := [][]byte{append(append([]byte{}, b...), []byte("\nfunc (s *fooService {\n")...), []byte("<<<<<<< HEAD\n" + string(b)), b[:len(b)*2/3], {}}[(w.t.Salt+k)%4]
		if _, err := format.Source(bad); err == nil && len(bad) > 0 {
			bad = append(bad, []byte("\n}}}\n")...)
		}
		check(os.WriteFile(w.abs("handler"), bad, 0o666))
	case "MendHandler":
		w.broken = false
		check(os.WriteFile(w.abs("handler"), w.mended, 0o666))
	case "DelHandler":
		check(os.Remove(w.abs("handler")))
		w.items = nil
	case "EditOnce", "Tamper":
		check(os.MkdirAll(filepath.Dir(w.abs(s.F)), 0o777))
		check(os.WriteFile(w.abs(s.F), w.userFile(s.F, s.ID), 0o666))
		w.onceU[s.F] = s.ID
	case "DelOnce", "DelOwned":
		os.Remove(w.abs(s.F))
		delete(w.onceU, s.F)
	case "PutOther":
		if s.ID == 0 {
			os.Remove(w.abs(s.F))
		} else {
			check(os.MkdirAll(filepath.Dir(w.abs(s.F)), 0o777))
			check(os.WriteFile(w.abs(s.F), otherText(s.F, s.ID), 0o666))
		}
		w.otherU[s.F] = s.ID
	case "Clutter":
		for _, f := range otherFiles {
			check(os.MkdirAll(filepath.Dir(w.abs(f)), 0o777))
			check(os.WriteFile(w.abs(f), otherText(f, s.ID), 0o666))
			w.otherU[f] = s.ID
		}
		for _, f := range legacyFiles {
			check(os.MkdirAll(filepath.Dir(w.abs(f)), 0o777))
			check(os.WriteFile(w.abs(f), []byte("package cli\n"), 0o666))
		}
	case "PutLegacy":
		check(os.MkdirAll(filepath.Dir(w.abs(s.F)), 0o777))
		check(os.WriteFile(w.abs(s.F), []byte("package cli\n"), 0o666))
	case "Relink":
		w.relink(s.F)
	case "RunOk":
		w.p.writeProtos(w.dir, w.def, w.opt.S, "")
		if e := w.addFresh(); !e.ok {
			s.Obs = &Obs{Res: "rejected", Log: "run in an empty project failed: " + e.log, H: []Decl{}, Trials: []Trial{}}
			return nil
		}
		return w.run(s, k, true)
	case "RunBroken":
		w.p.writeProtos(w.dir, w.def, w.opt.S, "")
		w.addFresh()
		return w.run(s, k, false)
	case "RunBadDef":
		w.p.writeProtos(w.dir, w.def, w.opt.S, s.Kind)
		w.bad = s.Kind
		err := w.run(s, k, false)
		w.bad = ""
		w.p.writeProtos(w.dir, w.def, w.opt.S, "")
		return err
	default:
		return fmt.Errorf("unknown step %q", s.A)
	}
	return nil
}

// relink moves a part of the project out of it and leaves a symbolic link; the
// project itself is reached through one.
func (w *world) relink(place string) {
	var p string
	switch place {
	case "svc":
		p = filepath.Join(w.dir, w.p.SvcDir)
	case "service", "server", "cmd":
		p = filepath.Join(w.dir, w.p.SvcDir, place)
	case "handler":
		p = w.abs("handler")
	}
	if place == "cwd" || p == w.dir {
		w.cwd = w.dir + ".link"
		os.Symlink(w.dir, w.cwd)
		return
	}
	info, err := os.Lstat(p)
	if err != nil || info.Mode()&os.ModeSymlink != 0 {
		return
	}
	to := filepath.Join(w.dir+".real", place)
	check(os.MkdirAll(filepath.Dir(to), 0o777))
	if os.Rename(p, to) == nil {
		check(os.Symlink(to, p))
	}
}

func otherText(f string, n int) []byte {
	switch n % 4 {
	case 0:
		return []byte(fmt.Sprintf("not go at all %s %d \x00\xff\r\n", f, n))
	case 1:
		return []byte(fmt.Sprintf("package  x\nfunc   Unformatted%d( ) { }\n", n))
	case 2:
		return []byte(fmt.Sprintf("package x\n\n// %s\nfunc (s *fooService) Status%d() {}\n", f, n))
	}
	return []byte(fmt.Sprintf("// Code generated by baron. DO NOT EDIT.\npackage x // %d", n))
}

// userFile is the developer's version n of a create-once or owned file.
func (w *world) userFile(f string, n int) []byte {
	pkg := "server"
	switch f {
	case "wrapper":
		pkg = "service"
	case "main", "cli":
		pkg = "main"
	case "pb", "grpcpb", "baron", "pb2", "grpcpb2", "baron2":
		// keep the package loadable: same package clause, other contents
		cur, _ := os.ReadFile(w.abs(f))
		if len(cur) == 0 || n%2 == 0 {
			i := strings.LastIndex(w.p.Pkg, ".")
			pkg = w.p.Pkg[i+1:]
			return []byte(fmt.Sprintf("package %s\n\nvar tampered%d%s = 1\n", pkg, n, f))
		}
		return append(cur, []byte(fmt.Sprintf("\n// tampered %d\n", n))...)
	}
	switch (n + w.t.Salt) % 8 {
	case 7:
		return []byte{}
	case 0:
		return []byte(fmt.Sprintf("package   %s\n\n\n\nimport \"fmt\"\nfunc  Unformatted( ){fmt.Println(%d)}\n", pkg, n))
	case 1:
		return []byte(fmt.Sprintf("package %s\n\nfunc broken( { %d\n", pkg, n))
	case 2:
		cur, _ := os.ReadFile(w.abs(f))
		return append(append([]byte{}, cur...), []byte(fmt.Sprintf("\n// Added %d by hand.\nfunc Added%d() int {\n\treturn %d // here\n}\n", n, n, n))...)
	case 3:
		return []byte(fmt.Sprintf("// only a comment %d", n))
	case 4:
		cur, _ := os.ReadFile(w.abs(f))
		return []byte(strings.Replace(string(cur), "\n\n", fmt.Sprintf("\n\n// note %d\n\n", n), 1))
	case 5:
		return []byte(fmt.Sprintf("// Code generated by baron. DO NOT EDIT.\n// Rerunning baron will overwrite this file.\npackage %s\n\nvar v%d = 1\n", pkg, n))
	}
	return []byte(fmt.Sprintf("package %s\n\n// Handler %d\nfunc (s *%sService) Exported(x int) { /* kept */ }\n", pkg, n, w.p.lower()))
}

func canonFile(b []byte) string {
	f, err := format.Source(b)
	if err != nil {
		return string(b)
	}
	return string(f)
}

func (w *world) run(s *Step, k int, wantOk bool) error {
	before := snapshot(w.dir)
	alt := ""
	if *det && wantOk {
		var err error
		alt, err = os.MkdirTemp(*work, "alt")
		check(err)
		defer os.RemoveAll(alt)
		copyTree(w.dir, alt)
	}
	args, env := w.p.args(w.opt), []string(nil)
	switch w.bad {
	case "nofile":
		args = append(args, "missing.proto")
	case "noplugin", "nogrpc", "noprotoc":
		env = brokenPath(w.bad)
	}
	code, log := runBaronEnv(w.cwd, env, args...)
	after := snapshot(w.dir)
	o := &Obs{Cf: map[string]string{}, Of: map[string]string{}, Oth: map[string]int{}, Det: true, Idem: true, H: []Decl{}}
	s.Obs = o
	switch {
	case code == 0 && s.A == "RunBadDef" && s.Kind == "nosvc":
		o.Res = "noservice"
	case code == 0:
		o.Res = "ok"
	case code == 1:
		o.Res = "rejected"
	default:
		o.Res = fmt.Sprintf("exit %d", code)
	}
	if o.Res == "ok" != wantOk {
		o.Log = tail(log)
	}
	if alt != "" && code == 0 {
		for rep := 0; rep < 3 && o.Det; rep++ {
			if rep > 0 {
				check(os.RemoveAll(alt))
				for f, c := range before {
					p := filepath.Join(alt, f)
					check(os.MkdirAll(filepath.Dir(p), 0o777))
					check(os.WriteFile(p, []byte(c), 0o666))
				}
			}
			c2, _ := runBaron(alt, w.p.args(w.opt)...)
			o.Det = c2 == 0 && len(diff(after, snapshot(alt))) == 0
			if !o.Det {
				o.Log += "second run from the same tree differs in: " + strings.Join(diff(after, snapshot(alt)), " ")
			}
		}
		c3, _ := runBaron(alt, w.p.args(w.opt)...)
		again := snapshot(alt)
		if o.Det {
			o.Idem = c3 == 0 && len(diff(after, again)) == 0
			if !o.Idem {
				o.Log += "run on own output changes: " + strings.Join(diff(after, again), " ")
			}
		}
	}
	o.Trials = []Trial{}
	for _, c := range w.crashAt {
		if c == k && code == 0 {
			o.Trials = w.trials(before, after)
		}
	}
	// handler file
	hp := w.p.path("handler")
	hb, hasAfter := before[hp]
	ha, has := after[hp]
	o.Same = hasAfter == has && hb == ha
	if !has {
		o.Hs = "absent"
	} else if w.broken && ha == hb {
		o.Hs = "broken"
	} else {
		o.Hs = "ok"
		items, err := split(w.p, []byte(ha))
		if err != nil {
			o.H = append(o.H, Decl{K: "gen", B: -1})
			o.Log += "handler file no longer parses: " + err.Error()
		} else {
			pre := map[string]bool{}
			for _, it := range w.items {
				if it.d.K == "meth" {
					pre[it.d.N] = true
				}
			}
			firstTime := !hasAfter
			for i := range items {
				it := &items[i]
				key := it.d.K + "\x00" + it.canon
				if b, ok := w.known[key]; ok {
					it.d.B = b
				} else if firstTime || w.zero[key] {
					it.d.B = 0
					w.zero[key] = true
				} else if it.d.K == "cmt" {
					it.hidden = true
				} else if it.d.K == "meth" && !pre[it.d.N] {
					it.d.B = 0
					w.zero[key] = true
				} else {
					it.d.B = -1
					o.Log += "unrecognised text: " + it.text + "\n"
				}
			}
			w.items = items
			for _, it := range items {
				if !it.hidden {
					o.H = append(o.H, it.d)
				}
			}
		}
	}
	expected := map[string]bool{hp: true}
	obsFile := func(f string) string {
		p := w.p.path(f)
		expected[p] = true
		c, ok := after[p]
		if !ok {
			return "absent"
		}
		if n, ok := w.onceU[f]; ok {
			if prev, had := before[p]; had && canonFile([]byte(prev)) == canonFile([]byte(c)) {
				return fmt.Sprintf("u%d", n)
			}
		}
		return sum([]byte(c))
	}
	for _, f := range onceFiles {
		o.Cf[f] = obsFile(f)
	}
	for _, f := range ownedFiles {
		o.Of[f] = obsFile(f)
		if o.Res == "ok" && !strings.HasPrefix(o.Of[f], "u") {
			delete(w.onceU, f)
		}
	}
	for _, f := range otherFiles {
		p := w.p.path(f)
		expected[p] = true
		n := w.otherU[f]
		c, ok := after[p]
		switch {
		case !ok:
			o.Oth[f] = 0
		case n > 0 && bytes.Equal([]byte(c), otherText(f, n)):
			o.Oth[f] = n
		default:
			o.Oth[f] = -1
		}
	}
	for _, d := range diff(before, after) {
		p := d[1:]
		if expected[p] {
			continue
		}
		if d[0] == '-' && o.Res == "ok" && w.isLegacy(p) {
			continue
		}
		o.Stray += d + " "
	}
	return nil
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}
