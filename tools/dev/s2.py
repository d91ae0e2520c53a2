from mk import mk
exec(open('/tmp/w/seeds/s1.py').read().split("mk('C01b'")[0].split('\n',1)[1])
OV='''
# DEMO: runs demo.go as a program of the repository
prog() {
  echo "{\\"Replace\\":{\\"$REPO/cmd/xdemo/main.go\\":\\"$HERE/demo.go\\"}}" > $S/ov.json
  (cd $REPO && timeout 100 go run -overlay $S/ov.json ./cmd/xdemo) > $S/out 2>&1
}
'''
PARSE='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/teamlint/baron/svcdef/svcparse"
)

func main() {
	svc, err := svcparse.ParseService(svcparse.NewSvcLexer(strings.NewReader(text)))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	%s
}

const text = `%s`
'''
mk('C07a','C07',[(PA,'''		fields, custom, err := ParseBindingFields(lex)
		if err != nil {
			return nil, err
		}
		new_opt.Fields = fields
		new_opt.CustomHTTPPattern = custom
		err = fastForwardTill(lex, "}")''','''		fields, _, err := ParseBindingFields(lex)
		if err != nil {
			return nil, err
		}
		new_opt.Fields = fields
		err = fastForwardTill(lex, "}")''')],"a custom verb in an additional binding","the verb and path of the binding are lost",
OV+'prog || fail "$(cat $S/out)"',{'demo.go':PARSE%('''if b := svc.Methods[0].HTTPBindings; len(b) != 2 || len(b[0].CustomHTTPPattern)+len(b[1].CustomHTTPPattern) != 2 {
		fmt.Printf("%+v\\n", b)
		os.Exit(1)
	}''','''service S {
  rpc A(Q) returns (Q) {
    option (google.api.http) = {
      get: "/b"
      additional_bindings {
        custom { kind: "HUP" path: "/a" }
      }
    };
  }
}''')})
mk('C07b','C07',[(PA,'''	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
	if tk != IDENT || val != "returns" {''','''	tk, val = lex.GetTokenIgnoreWhitespace()
	if tk != IDENT || val != "returns" {''')],"a comment between the argument of an RPC and returns","the definition is refused",
OV+'prog || fail "$(cat $S/out)"',{'demo.go':PARSE%('''if len(svc.Methods) != 1 {
		os.Exit(1)
	}''','''service S {
  rpc A(Q) // the request
    returns (Q) {
    option (google.api.http) = { get: "/a" };
  }
}''')})
mk('C08a','C08',[(PA,'''		if tk == EOF || tk == ILLEGAL {
			return fmt.Errorf("in fastForwardTill''','''		if tk == ILLEGAL {
			return fmt.Errorf("in fastForwardTill''')],"a definition that ends within an annotation, before its opening brace","reading it never ends",
OV+'prog; grep -q ended $S/out || fail "reading does not end"',{'demo.go':PARSE.replace('fmt.Println(err)','fmt.Println("ended", err)')%('fmt.Println("ended", svc)','''service S {
  rpc A(Q) returns (Q) {
    option (google.api.http) = ''')})
mk('C08b','C08',[(SC,'''		if rr.withinBody == true && rr.braceLev == 0 {
			rr.withinBody = false
		}
''','''		if rr.withinBody == true && rr.braceLev == 0 {
			rr.withinBody = false
			services++
		}
'''),(SC,'''// startsDefinition reports''','''// services counts the services seen, for the debug output
var services int

// startsDefinition reports'''),(SC,'''			return true
		}
		isComment''','''			return services < 64
		}
		isComment''')],"a process that reads many definitions","after 64 services nothing is taken for a service any more",
OV+'prog || fail "$(cat $S/out)"',{'demo.go':PARSE.replace('svc, err := ','var svc *svcparse.Service\n\tvar err error\n\tfor i := 0; i < 100 && err == nil; i++ {\n\tsvc, err = ').replace('(text)))','(text)))\n\t}')%('_ = svc','service S { rpc A(Q) returns (Q) { option (google.api.http) = { get: "/a" }; } }')})
SCAN='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/teamlint/baron/svcdef/svcparse"
)

func check(ok bool, what ...interface{}) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func main() {
	scn := svcparse.NewSvcScanner(strings.NewReader(text))
	%s
}

const text = %s
'''
mk('C09a','C09',[(SC,'''		if toret == '\\n' {
			self.LineNo += 1
		}''','''		// a file may have the lines of an old Mac
		mac := toret == '\\r' && self.RunePos+1 < self.ContentLen && self.Contents[self.RunePos+1] != '\\n'
		if toret == '\\n' || mac {
			self.LineNo += 1
		}''')],"a carriage return that is not before a newline","line numbers are too high from there on",
OV+'prog || fail "$(cat $S/out)"',{'demo.go':SCAN%('''for {
		u, err := scn.ReadUnit()
		if err != nil {
			break
		}
		if string(u) == "last" {
			check(scn.GetLineNumber() == 3, "line", scn.GetLineNumber())
		}
	}''','"a \\rb\\n\\nlast"')})
mk('C09b','C09',[(SC,'''	unit := self.Buf[self.UnitPos-1]
	self.InBody = unit.InRpcBody
	self.InDefinition = unit.InRpcDefinition
	self.BraceLevel = unit.BraceLevel
	self.lineNo = unit.LineNo

	return nil''','''	unit := self.Buf[self.UnitPos-1]
	self.InBody = unit.InRpcBody
	self.InDefinition = self.InDefinition && unit.InRpcDefinition
	self.BraceLevel = unit.BraceLevel
	self.lineNo = unit.LineNo

	return nil''')],"a unit pushed back over the opening brace of a service","the scanner no longer knows it is within a definition",
OV+'prog || fail "$(cat $S/out)"',{'demo.go':SCAN%('''for {
		u, err := scn.ReadUnit()
		check(err == nil, err)
		if string(u) == "{" {
			break
		}
	}
	scn.UnreadUnit()
	check(scn.InDefinition, "not within the definition")''','"service S {}"')})
mk('C10a','C10',[(SD,'''				if strings.HasPrefix(t.Name.Name, "Unsafe") {
					if _, ok := ifaces[strings.TrimPrefix(t.Name.Name, "Unsafe")]; ok {
						break
					}
				}''','''				if strings.HasPrefix(t.Name.Name, "Unsafe") && strings.HasSuffix(t.Name.Name, "Server") {
					break
				}''')],"a service whose name starts with Unsafe","the service is not found",
p(rpc('A','get: "/a"'))+'''
sed -i 's/service Foo/service UnsafeStore/' api/foo.proto
baron api/foo.proto || fail "run"
[ -f unsafestore-service/service/service.go ] || fail "no service generated: $(tail -2 $S/log)"
''')
RT='svcdef/resolvetypes.go'
mk('C10b','C10',[(RT,'''		rv[e.Name] = typeBox{Enum: e}''','''		if _, ok := rv[strings.TrimSuffix(e.Name, "_Enum")]; !ok {
			rv[e.Name] = typeBox{Enum: e}
		}'''),(RT,'''package svcdef
''','''package svcdef

import "strings"
''')],"an enum named Enum nested in a message","a field of that enum is not known to be one; its list in the query is not read",
p(rpc('A','get: "/a"'),'message Q { enum Enum { ZERO = 0; ONE = 1; } Enum e = 1; }')+'''
baron --svcdef api/foo.proto || fail "run: $(tail -2 $S/log)"
grep -q 'ParseInt(EA' api/foo.pb.baron.go || fail "the enum is read as something else"
''')
mk('C11a','C11',[(CH,'''			if m.Name == pkg.GoCamelCase(name) {''','''			if strings.EqualFold(m.Name, pkg.GoCamelCase(name)) {''')],"two RPCs whose names differ in case only","the bindings of the second are given to the first",
p(rpc('GetId','get: "/a/{x}"')+rpc('Getid','get: "/b"'),'message Q { string x = 1; string y = 2; }')+'''
baron --svcdef api/foo.proto || fail "run"
sed -n '/"Getid"/,$p' $S/log | grep -q '"/b"' || fail "Getid has no binding"
''')
mk('C11b','C11',[(CH,'''	findParams := regexp.MustCompile("{(.*?)}")''','''	findParams := regexp.MustCompile("{([a-zA-Z_.]*)}")''')],"a path variable with a digit in its name","the field travels in the query, the path is sent without it",
p(rpc('A','get: "/v/{x1}"'),'message Q { string x1 = 1; string y = 2; }')+'''
baron --svcdef api/foo.proto || fail "run"
[ $(grep -c 'Location: *"path"' $S/log) = 1 ] || fail "the field is not in the path"
''')
