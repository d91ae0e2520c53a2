package main

import (
	"fmt"
	"sort"
	"strings"
)

// A definition as SvcDef.tla has it.
type Field struct {
	N, C, T, Key, Oo string
	R                int
}
type Type struct {
	N, K string
	Up   int
	File int
	F    []Field
}

// Seg is a segment of a path; pre and post stand around a variable.
type Seg struct{ K, V, Pre, Post string }
type Bind struct {
	Verb, Body string
	Path       []Seg
}
type Rpc struct {
	N, X string
	Q, S int
	Bs   []Bind
}
type Def struct {
	Types []Type
	Files int
	Svc   struct {
		N    string
		File int
		Rpcs []Rpc
	}
	pkg string
}

func (d *Def) full(i int) string {
	t := d.Types[i-1]
	if t.Up == 0 {
		return "." + d.pkg + "." + t.N
	}
	return d.full(t.Up) + "." + t.N
}

// arg is a message as the argument of an RPC: relative to the package, unless
// an RPC has the same name.
func (d *Def) arg(i int) string {
	rel := strings.TrimPrefix(d.full(i), "."+d.pkg+".")
	for _, r := range d.Svc.Rpcs {
		if r.N == strings.Split(rel, ".")[0] {
			return d.full(i)
		}
	}
	return rel
}

func (d *Def) ref(f Field) string {
	switch {
	case f.T == "@":
		return d.full(f.R)
	case strings.Contains(f.T, "."):
		return "." + f.T
	}
	return f.T
}

func (d *Def) renderType(w *strings.Builder, i int, ind string) {
	t := d.Types[i-1]
	if t.K == "enum" {
		fmt.Fprintf(w, "%senum %s {\n%s  V%d_A = 0;\n%s  V%d_B = 1;\n%s  V%d_N = -2;\n%s}\n", ind, t.N, ind, i, ind, i, ind, i, ind)
		return
	}
	fmt.Fprintf(w, "%smessage %s {\n", ind, t.N)
	for j := range d.Types {
		if d.Types[j].Up == i {
			d.renderType(w, j+1, ind+"  ")
		}
	}
	in := ""
	for k, f := range t.F {
		if f.Oo != in {
			if in != "" {
				fmt.Fprintf(w, "%s  }\n", ind)
			}
			if f.Oo != "" {
				fmt.Fprintf(w, "%s  oneof %s {\n", ind, f.Oo)
			}
			in = f.Oo
		}
		ty := d.ref(f)
		switch f.C {
		case "rep":
			ty = "repeated " + ty
		case "opt":
			ty = "optional " + ty
		case "map":
			ty = "map<" + f.Key + ", " + ty + ">"
		}
		fmt.Fprintf(w, "%s  %s %s = %d;\n", ind, ty, f.N, k+1)
	}
	if in != "" {
		fmt.Fprintf(w, "%s  }\n", ind)
	}
	fmt.Fprintf(w, "%s}\n", ind)
}

func (b Bind) render() string {
	p := ""
	for _, s := range b.Path {
		if s.K == "var" {
			p += "/" + s.Pre + "{" + s.V + "}" + s.Post
		} else {
			p += "/" + s.V
		}
	}
	r := ""
	switch b.Verb {
	case "get", "put", "post", "delete", "patch":
		r = fmt.Sprintf("%s: %q", b.Verb, p)
	default:
		r = fmt.Sprintf("custom { kind: %q path: %q }", b.Verb, p)
	}
	if b.Body != "" {
		r += fmt.Sprintf("\n      body: %q", b.Body)
	}
	return r
}

func (d *Def) file(i int) string { return fmt.Sprintf("%s_f%d.proto", d.pkg, i) }

func (d *Def) render(file int) string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto3\";\npackage %s;\noption go_package = \"labm/%s;%s\";\n", d.pkg, d.pkg, d.pkg)
	imp := map[string]bool{}
	for i := 1; i < file; i++ {
		imp[d.file(i)] = true
	}
	for _, t := range d.Types {
		for _, f := range t.F {
			if t.File == file && strings.Contains(f.T, ".") {
				n := strings.ToLower(f.T[strings.LastIndex(f.T, ".")+1:])
				switch n {
				case "stringvalue":
					n = "wrappers"
				case "fieldmask":
					n = "field_mask"
				}
				imp["google/protobuf/"+n+".proto"] = true
			}
		}
	}
	if d.Svc.File == file {
		imp["google/api/annotations.proto"] = true
	}
	var is []string
	for i := range imp {
		is = append(is, i)
	}
	sort.Strings(is)
	for _, i := range is {
		fmt.Fprintf(&w, "import %q;\n", i)
	}
	if d.Svc.File == file {
		fmt.Fprintf(&w, "service %s {\n", d.Svc.N)
		for _, r := range d.Svc.Rpcs {
			fmt.Fprintf(&w, "  rpc %s (%s) returns (%s) {\n", r.N, d.arg(r.Q), d.arg(r.S))
			if len(r.Bs) > 0 {
				fmt.Fprintf(&w, "    option (google.api.http) = {\n      %s\n", r.Bs[0].render())
				for _, b := range r.Bs[1:] {
					fmt.Fprintf(&w, "      additional_bindings {\n      %s\n      }\n", b.render())
				}
				fmt.Fprintf(&w, "    };\n")
			}
			fmt.Fprintf(&w, "  }\n")
		}
		fmt.Fprintf(&w, "}\n")
	}
	for i, t := range d.Types {
		if t.File == file && t.Up == 0 {
			d.renderType(&w, i+1, "")
		}
	}
	return w.String()
}
