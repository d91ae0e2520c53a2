package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"strings"
	"unicode"
)

// item is one declaration or free-standing comment of the handler file.
type item struct {
	d      Decl
	text   string // as gofmt prints it, with message types in place
	canon  string // with the message types of a handler signature blanked
	hidden bool   // comments that belong to no declaration of ours
}

// split cuts a handler file into its items.  It returns an error when the
// file does not parse.
func split(p *Profile, src []byte) ([]item, error) {
	fm, err := format.Source(src)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", fm, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	type span struct{ a, b int }
	var items []item
	var covered []span
	lineEnd := func(b int) int {
		e := b
		for e < len(fm) && fm[e] != '\n' {
			e++
		}
		rest := strings.TrimSpace(string(fm[b:e]))
		if strings.HasPrefix(rest, "//") || strings.HasPrefix(rest, "/*") {
			return e
		}
		return b
	}
	starts := map[int]item{}
	var order []int
	for i, d := range f.Decls {
		a, b := off(d.Pos()), off(d.End())
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil {
				a = off(x.Doc.Pos())
			}
		case *ast.GenDecl:
			if x.Doc != nil {
				a = off(x.Doc.Pos())
			}
		}
		if i == 0 {
			a = 0
		}
		b = lineEnd(b)
		it := item{text: string(fm[a:b])}
		it.canon = it.text
		switch x := d.(type) {
		case *ast.GenDecl:
			it.d.K = "gen"
		case *ast.FuncDecl:
			name := x.Name.Name
			switch {
			case x.Recv == nil && name == "NewService":
				it.d.K = "ctor"
			case !ast.IsExported(name):
				it.d.K = "ufn"
			default:
				it.d.K = "exp"
				if x.Recv != nil && len(x.Recv.List) == 1 && expr(fm, fset, x.Recv.List[0].Type) == "*"+p.lower()+"Service" {
					an := p.abstract(p.GoRpc, name)
					if !strings.HasPrefix(an, "?") {
						it.d.K, it.d.N = "meth", an
						var qs, rs *ast.Ident
						if n := len(x.Type.Params.List); n > 0 {
							qs = pbSel(x.Type.Params.List[n-1].Type)
						}
						if x.Type.Results != nil && len(x.Type.Results.List) > 0 {
							rs = pbSel(x.Type.Results.List[0].Type)
						}
						if qs != nil && rs != nil {
							it.d.Q, it.d.R = p.abstract(p.GoType, qs.Name), p.abstract(p.GoType, rs.Name)
							it.canon = string(fm[a:off(qs.Pos())]) + "X" + string(fm[off(qs.End()):off(rs.Pos())]) + "X" + string(fm[off(rs.End()):b])
						} else {
							it.d.Q, it.d.R = "?", "?"
						}
					}
				}
			}
		}
		if x, ok := d.(*ast.FuncDecl); ok && x.Body != nil && len(x.Body.List) > 0 && fset.Position(x.Body.Lbrace).Line == fset.Position(x.Body.Rbrace).Line {
			// gofmt keeps a body on one line or not by how long the types' names are
			l, r := len(it.canon)-(b-off(x.Body.Lbrace)), len(it.canon)-(b-off(x.Body.Rbrace))
			it.canon = it.canon[:l+1] + "\n" + it.canon[l+1:r] + "\n" + it.canon[r:]
		}
		// and aligns it with the lines beside it
		if c, err := format.Source([]byte(it.canon)); err == nil {
			it.canon = string(c)
		}
		starts[a] = it
		order = append(order, a)
		covered = append(covered, span{a, b})
	}
	for _, g := range f.Comments {
		a, b := off(g.Pos()), off(g.End())
		in := false
		for _, s := range covered {
			if a >= s.a && b <= s.b {
				in = true
			}
		}
		if in {
			continue
		}
		t := string(fm[a:b])
		starts[a] = item{d: Decl{K: "cmt"}, text: t, canon: t}
		order = append(order, a)
	}
	// order of appearance
	for i := 1; i < len(order); i++ {
		for j := i; j > 0 && order[j] < order[j-1]; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	for _, a := range order {
		items = append(items, starts[a])
	}
	return items, nil
}

func expr(src []byte, fset *token.FileSet, e ast.Expr) string {
	return strings.ReplaceAll(string(src[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset]), " ", "")
}

func pbSel(e ast.Expr) *ast.Ident {
	if s, ok := e.(*ast.StarExpr); ok {
		e = s.X
	}
	if s, ok := e.(*ast.SelectorExpr); ok {
		return s.Sel
	}
	return nil
}

const (
	plain = iota
	wild  // odd white space between declarations
	tight // no empty lines between them
	crlf  // lines end as on Windows
)

func join(items []item, how int) []byte {
	var b strings.Builder
	for i, it := range items {
		if i > 0 {
			b.WriteString("\n")
			// a comment would be the declaration's that follows
			if how != tight || items[i-1].d.K == "cmt" || it.d.K == "cmt" {
				b.WriteString("\n")
			}
			if how == wild && i%2 == 0 {
				b.WriteString("\n   \n\n")
			}
			if how == wild && i%3 == 0 && it.d.K != "cmt" {
				b.WriteString("\t ")
			}
		}
		b.WriteString(it.text)
	}
	b.WriteString("\n")
	if how == crlf {
		return []byte(strings.ReplaceAll(b.String(), "\n", "\r\n"))
	}
	return []byte(b.String())
}

// ---- developer texts

func fill(t string, p *Profile, n, q, r string, idn int) string {
	return strings.NewReplacer(
		"%N%", p.GoRpc[n], "%Q%", p.GoType[q], "%R%", p.GoType[r],
		"%S%", p.lower()+"Service", "%LONG%", long, "%SVC%", p.GoSvc, "%ID%", fmt.Sprint(idn), "%PB%", p.PBPath, "%n%", lowerFirst(p.GoRpc[n]), "%l%", strings.TrimSuffix(lowerFirst(p.GoRpc[n]), "_"),
	).Replace(t)
}

// more than the buffers of readers hold in one line
var long = strings.Repeat("long ", 14000)

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	r := []rune(s)
	r[0] = unicode.ToLower(r[0])
	return string(r) + "_"
}

var methTexts = []string{
	"// %N% doc %ID%.\n//\n// Second paragraph, see func %N%.\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\t// inner %ID%\n\treturn nil, nil // trailing %ID%\n}",
	"func (*%S%) %N%(_ context.Context, req *pb.%Q%) (out *pb.%R%, err error) {\n\tdefer func() {\n\t\tif x := recover(); x != nil {\n\t\t\terr = fmt.Errorf(\"%ID%: %v\", x)\n\t\t}\n\t}()\n\treturn\n}",
	"// %N% has odd text.\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\tx := `\nfunc (s *%S%) Ghost(ctx context.Context, in *pb.Ghost) {\n\t}} /* not a comment %ID% */ // neither\n`\n\t_ = x + \"}{\\\"//\" + string('}')\n\t/* block %ID% */\n\treturn nil, nil\n}",
	"/*\n%N% block doc %ID%\n*/\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) { return nil, nil /* %ID% */ }",
	"func (svc *%S%) %N%(\n\tctx context.Context, // the context %ID%\n\tin *pb.%Q%, // the request\n) (*pb.%R%, error) {\n\tpanic(\"not yet %ID%\")\n}",
	"//nolint:all\n//go:noinline\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\nouter:\n\tfor i := 0; ; i++ {\n\t\tswitch {\n\t\tcase i > %ID%:\n\t\t\tbreak outer\n\t\t// between cases\n\t\tdefault:\n\t\t}\n\t}\n\ttype Local struct {\n\t\tA int `json:\"%ID%\"` // tag\n\t}\n\treturn &pb.%R%{}, nil\n}",
	"func (s *%S%) %N%(ctx context.Context, in pb.%Q%) (pb.%R%, error) {\n\tvar zero struct{ X int }\n\t_ = zero\n\t// 服务 %ID% ünïcode\n\tgo func() {}()\n\treturn s.%n%(ctx, %ID%)\n}",
	"// %N% refers to messages in its body.\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\tvar resp pb.Unrelated%ID%\n\tf := func(ctx context.Context, in *pb.Inner) (*pb.Inner, error) { return nil, nil }\n\t_, _ = f, resp\n\n\treturn nil, nil\n}",
	"func (s *%S%) %N%(ctx context.Context, in *proto%ID%.%Q%) (*proto%ID%.%R%, error) {\n\treturn nil, nil // another name of the package\n}",
	"func (*%S%) %N%(context.Context, *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, fmt.Errorf(\"no %ID%\")\n}",
	"func (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\n\t// only comments %ID%\n\n\t// and more\n}",
	"func (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, fmt.Errorf(\"%LONG%\") // %ID%\n}",
	"// %N% 说明 %ID%\n//\n//\tcode\n//  - list\n//\n// # Heading\n//go:norace\nfunc (s *%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\t//line other.go:%ID%\n\tvar x any = 0b1_0 + 0x1p-2 + 'é'\n\tif y, ok := x.(interface{ Get() *pb.%R% }); ok && y != nil {\n\t\treturn y.Get(), nil\n\t} else if !ok {\n\t}\n\tselect {}\n}",
}

var ufnTexts = []string{
	"// helper%ID% doc\nfunc helper%ID%(a, b int) int {\n\treturn a + b // sum\n}",
	"func (s *%S%) inner%ID%(ctx context.Context) error {\n\t// nothing %ID%\n\treturn nil\n}",
	"func init() { println(%ID%) }",
	"// mapAll%ID% is generic\nfunc mapAll%ID%[T any, U comparable](xs []T, f func(T) U) (out []U) {\n\tfor _, x := range xs {\n\t\tout = append(out, f(x))\n\t}\n\treturn out\n}",
	"func _() { _ = %ID% }",
	"func newService() *%S% { return &%S%{} } // other constructor %ID%",
	"func (h *holder) get%ID%() *%S% {\n\treturn nil\n}",
	"func %n%(x int) int { return x * %ID% }",
	"func (s %S%) value%ID%() {}",
	"// as in %N%, but not exported %ID%\nfunc (s *%S%) %l%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, nil\n}",
	"func (h holder) %l%() int { return %ID% }",
	"func %l%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, nil // %ID%\n}",
	"func (s *%S%) new%SVC%() {} // %ID%",
}

var expTexts = []string{
	"// Exported%ID% doc\nfunc Exported%ID%() {\n\t// gone %ID%\n}",
	"func (s *%S%) NotAnRpc%ID%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, nil\n}",
	"func %N%(ctx context.Context) error {\n\treturn nil // %ID%\n}",
	"func (o *other) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) { return nil, nil }",
	"func (e errType%ID%) Error() string { return \"%ID%\" }",
	"// NewServices%ID% is not the constructor\nfunc NewServices%ID%() *%S% { return nil }",
	"func (s *%S%Impl) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) { return nil, nil }",
	"func Gen%ID%[T any](x T) T { return x }",
	"func (s *%S%) Close%ID%() {}",
	"func Short%ID%() {} // trailing %ID%",
	"func (s *%S%) Gone%ID%() { /* gone %ID% */ }",
	"func Lint%ID%() {\n\tprintln(%ID%)\n} //nolint:all",
	"func (s *my%S%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) { return nil, nil }",
	"// %N% of a value\nfunc (s Other%ID%) %N%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) {\n\treturn nil, nil\n}",
	"func (s *%S%) %N%%ID%(ctx context.Context, in *pb.%Q%) (*pb.%R%, error) { return nil, nil }",
}

var genTexts = []string{
	"// Store%ID% is exported\ntype Store%ID% struct {\n\tA int    `json:\"a\"` // tag\n\tB string // plain\n}",
	"type iface%ID% interface {\n\t// Status does\n\tStatus(ctx context.Context) error\n\tNewService()\n}",
	"const (\n\tc%ID%a = iota // first\n\n\t// second\n\tc%ID%b\n)",
	"var fn%ID% = func(ctx context.Context, in *pb.Fn) (*pb.Fn, error) {\n\t// literal %ID%\n\treturn nil, nil\n}",
	"var _ pb.%SVC%Server = (*%S%)(nil) // assertion %ID%",
	"var (\n\tA%ID%, B%ID% = 1, 2\n\ttext%ID%     = `raw\n func (s *%S%) Status() {}\n`\n)",
	"type %S%%ID% = %S%",
	"// Func%ID% is a type, not a function\ntype Func%ID% func(ctx context.Context, in *pb.Fn) error",
	"type gen%ID%[T any] struct{ v T }",
}

var impTexts = []string{
	"import (\n\t\"context\"\n\t\"fmt\"\n\n\tpb \"%PB%\"\n)",
	"// Package service header %ID%.\npackage service\n\nimport (\n\t\"context\" // ctx\n\n\t_ \"embed\"\n\tstr \"strings\"\n\n\tpb \"%PB%\"\n)",
	"package service // end %ID%\n\nimport (\n\t. \"fmt\"\n\tpb \"%PB%\" // the code\n\t\"context\"\n)",
	"/*\n#include <x.h>\n%ID%\n*/\n\n// Package service has parts.\npackage service\n\nimport \"context\"",
	"// Copyright %ID%\n\n//go:build linux || !linux\n\npackage service\n\nimport pb \"%PB%\"",
}

var ctorTexts = []string{
	"// NewService doc %ID%\nfunc NewService() *%S% {\n\treturn &%S%{} // made %ID%\n}",
	"func NewService() pb.%SVC%Server {\n\ts := new(%S%)\n\t// configure %ID%\n\treturn s\n}",
	"func NewService(opts ...func(*%S%)) *%S% { panic(%ID%) }",
}

var cmtTexts = []string{
	"// ---- section %ID% ----",
	"/*\n   block %ID%\n   func (s *%S%) Status() {}\n*/",
	"// several\n//\n// lines %ID%\n//\n//\tcode",
}

// text renders developer text b for the place described by d.
func (p *Profile) text(d Decl, b, salt int, first bool) string {
	pick := func(ts []string) string { return ts[(b*7+salt*3+len(d.N))%len(ts)] }
	n, q, r := d.N, d.Q, d.R
	switch {
	case first:
		t := pick(impTexts)
		if !strings.Contains(t, "package service") {
			t = "package service\n\n" + t
		}
		return fill(t, p, "A", "T1", "T1", b)
	case d.K == "gen":
		return fill(pick(genTexts), p, "A", "T1", "T1", b)
	case d.K == "ufn":
		return fill(pick(ufnTexts), p, "ABCDE"[b%5:b%5+1], "T1", "T1", b)
	case d.K == "exp":
		// C is called NewService in one profile, and such a function is the constructor
		return fill(pick(expTexts), p, "ABADE"[b%5:b%5+1], "T1", "T2", b)
	case d.K == "ctor":
		return fill(pick(ctorTexts), p, "A", "T1", "T1", b)
	case d.K == "cmt":
		return fill(pick(cmtTexts), p, "A", "T1", "T1", b)
	case d.K == "meth":
		return fill(pick(methTexts), p, n, q, r, b)
	}
	panic(d.K)
}

// canonical returns the item text splits to.
func canonical(p *Profile, text string, first bool) (item, error) {
	src := text
	if !first {
		src = "package service\n\nimport \"x\"\n\n" + text + "\n\nvar zzz int\n"
	} else {
		src = text + "\n\nvar zzz int\n"
	}
	its, err := split(p, []byte(src))
	if err != nil {
		return item{}, fmt.Errorf("%v in\n%s", err, src)
	}
	if first {
		if len(its) != 2 {
			return item{}, fmt.Errorf("import text splits into %d\n%s", len(its), src)
		}
		return its[0], nil
	}
	if len(its) != 3 {
		return item{}, fmt.Errorf("text splits into %d items\n%s", len(its), src)
	}
	return its[1], nil
}
