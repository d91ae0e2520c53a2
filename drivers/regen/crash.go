package main

import (
	"bufio"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Trial is one run with a fault, and the run after it.
type Trial struct {
	Mode  string            `json:"mode"` // kill | short | errno=N
	K     int               `json:"k"`
	Op    string            `json:"op"`
	File  string            `json:"file"`
	Hit   bool              `json:"hit"`   // the fault happened
	Res   string            `json:"res"`   // ok | failed | killed
	Files map[string]string `json:"files"` // old | new | torn | missing, per developer file
	Had   map[string]bool   `json:"had"`   // it was there before the run
	Stray string            `json:"stray"`
	Whole bool              `json:"whole"` // every file as after the run without a fault
	Rec   string            `json:"rec"`   // the same judgement of developer files after one more run
	RecOk bool              `json:"recok"`
}

func (w *world) devPath(p string) (string, bool) {
	if p == w.p.path("handler") {
		return "handler", true
	}
	for _, f := range onceFiles {
		if p == w.p.path(f) {
			return f, true
		}
	}
	for _, f := range otherFiles {
		if p == w.p.path(f) {
			return f, true
		}
	}
	return "", false
}

func (w *world) isOwned(p string) bool {
	for _, f := range ownedFiles {
		if p == w.p.path(f) {
			return true
		}
	}
	return false
}

func (w *world) isLegacy(p string) bool {
	for _, l := range legacyFiles {
		if p == w.p.path(l) {
			return true
		}
	}
	return false
}

func restore(dir string, m map[string]string) {
	check(os.RemoveAll(dir))
	check(os.MkdirAll(dir, 0o777))
	for f, c := range m {
		p := filepath.Join(dir, f)
		check(os.MkdirAll(filepath.Dir(p), 0o777))
		check(os.WriteFile(p, []byte(c), 0o666))
	}
}

type mutation struct {
	op, file string
	n        int
}

func (w *world) faultRun(dir, mode string, k int) (int, []mutation) {
	lf, err := os.CreateTemp(*work, "fault")
	check(err)
	lf.Close()
	defer os.Remove(lf.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, *faultrun, append([]string{dir, mode, fmt.Sprint(k), lf.Name(), *baron}, w.p.args(w.opt)...)...)
	cmd.Dir = dir
	err = cmd.Run()
	code := 0
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	} else if err != nil {
		code = 99
	}
	if ctx.Err() != nil || code == 98 || code == 99 {
		check(fmt.Errorf("faultrun gave no answer (%d)", code))
	}
	runMu.Lock()
	cliRuns++
	runMu.Unlock()
	var ms []mutation
	f, err := os.Open(lf.Name())
	check(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var m mutation
		var i int
		p := strings.SplitN(sc.Text(), " ", 4)
		if len(p) != 4 {
			continue
		}
		fmt.Sscan(p[0], &i)
		m.op = p[1]
		m.file = p[2]
		fmt.Sscan(p[3], &m.n)
		ms = append(ms, m)
	}
	return code, ms
}

// trials kills and fails the run from the tree before at every one of its
// file-system mutations; ref is the tree after the run without faults.
func (w *world) trials(before, ref map[string]string) []Trial {
	dir, err := os.MkdirTemp(*work, "crash")
	check(err)
	defer os.RemoveAll(dir)
	restore(dir, before)
	_, ms := w.faultRun(dir, "list", 0)
	var out []Trial
	errnos := []int{28, 5, 13, 30, 27}
	for k := 1; k <= len(ms); k++ {
		modes := []string{"kill", fmt.Sprintf("errno=%d", errnos[(k+w.t.Salt)%len(errnos)])}
		if ms[k-1].op == "write" || k%5 == 0 {
			modes = append(modes, "short")
		}
		if len(ms) > 60 && k%2 == 0 {
			modes = modes[:1]
		}
		for _, mode := range modes {
			restore(dir, before)
			code, got := w.faultRun(dir, mode, k)
			t := Trial{Mode: mode, K: k, Files: map[string]string{}, Had: map[string]bool{}}
			if len(got) >= k {
				t.Hit, t.Op, t.File = true, got[k-1].op, got[k-1].file
			}
			switch {
			case code == 137:
				t.Res = "killed"
			case code == 0:
				t.Res = "ok"
			default:
				t.Res = "failed"
			}
			after := snapshot(dir)
			judge := func(after map[string]string) (files map[string]string, stray string, whole bool) {
				files, whole = map[string]string{}, true
				seen := map[string]bool{}
				for _, m := range []map[string]string{before, ref} {
					for p := range m {
						if seen[p] || w.isLegacy(p) {
							continue
						}
						seen[p] = true
						o, hadO := before[p]
						n, hadN := ref[p]
						c, has := after[p]
						if has != hadN || c != n {
							whole = false
						}
						s := "torn"
						switch {
						case has && hadN && c == n:
							s = "new"
						case has == hadO && c == o:
							s = "old"
						case !has:
							s = "missing"
						}
						if f, ok := w.devPath(p); ok {
							files[f] = s
						} else if !w.isOwned(p) && s != "old" && s != "new" {
							stray += p + " " + s + "; "
						}
					}
				}
				return
			}
			t.Files, t.Stray, t.Whole = judge(after)
			for f := range t.Files {
				_, t.Had[f] = before[w.p.path(f)]
			}
			code, _ = runBaron(dir, w.p.args(w.opt)...)
			t.RecOk = code == 0
			fs, stray, whole := judge(snapshot(dir))
			t.Rec = "same"
			if !whole || stray != "" {
				t.Rec = "differs " + stray
				for f, s := range fs {
					if s != "new" {
						t.Rec += f + " " + s + " "
					}
				}
			}
			out = append(out, t)
		}
	}
	return out
}
