from mk import mk
HT='gengokit/httptransport/httptransport.go'; MAIN='cmd/baron/main.go'; GEN='gengokit/generator/gen.go'; SV='gengokit/service/services.go'; SD='svcdef/svcdef.go'; CH='svcdef/consolidate_http.go'; PA='svcdef/svcparse/parser.go'; SC='svcdef/svcparse/scanner.go'; LX='svcdef/svcparse/lexer.go'
PROTO='''cat > api/foo.proto <<'P'
syntax = "proto3";
package foo;
import "google/api/annotations.proto";
service Foo {
%s}
%s
P
'''
def p(rpcs,msgs='message Q { string x = 1; }'): return PROTO%(rpcs,msgs)
def rpc(n,opt): return '  rpc %s(Q) returns (Q) { option (google.api.http) = { %s }; }\n'%(n,opt)

mk('C01b','C01',[(SV,'''		default:
			newDecls = append(newDecls, d)
		}
''','''		case *ast.GenDecl:
			// assertions about the handler may no longer hold
			if v, ok := x.Specs[0].(*ast.ValueSpec); ok && len(x.Specs) == 1 && v.Names[0].Name == "_" && v.Type != nil {
				continue
			}
			newDecls = append(newDecls, d)
		default:
			newDecls = append(newDecls, d)
		}
''')],"a package level variable named _ with a type, on its own, in the handler file","the developer's declaration is gone after a regeneration",
p(rpc('A','get: "/a"'))+'''
baron api/foo.proto || fail "first run"
H=foo-service/service/service.go
cat >> $H <<'G'

type limits struct{}

func (limits) String() string { return "" }

var _ interface{ String() string } = limits{}
G
baron api/foo.proto || fail "second run"
grep -q 'String() string } = limits' $H || fail "the assertion of the developer is gone"
''')

mk('C02b','C02',[(SV,'''	if sel, _ := t.(*ast.SelectorExpr); sel != nil {
		//pb.SOMETYPE -> pb.newType
		sel.Sel.Name = newType
	}''','''	if sel, _ := t.(*ast.SelectorExpr); sel != nil {
		//pb.SOMETYPE -> pb.newType
		if x, _ := sel.X.(*ast.Ident); x != nil && x.Name == "pb" {
			sel.Sel.Name = newType
		}
	}''')],"a handler file that imports the protocol package under another name, and an RPC whose message changes","the handler keeps the old message type",
p(rpc('A','get: "/a"'),'message Q { string x = 1; }\nmessage R { string x = 1; }')+'''
baron api/foo.proto || fail "first run"
H=foo-service/service/service.go
sed -i 's/pb "/foopb "/; s/pb\\./foopb./g' $H
sed -i 's/A(Q)/A(R)/' api/foo.proto
baron api/foo.proto || fail "second run"
grep -q 'foopb.R)' $H || fail "the handler takes the old message"
''')

mk('C03b','C03',[(MAIN,'''		file, ioErr := os.Open(path)''','''		// nothing to keep
		if info.Size() == 0 {
			return nil
		}
		file, ioErr := os.Open(path)''')],"a developer-owned file the developer has emptied","the file is filled again by the next run",
p(rpc('A','get: "/a"'))+'''
baron -c api/foo.proto || fail "first run"
: > foo-service/cmd/foo-client/main.go
baron -c api/foo.proto || fail "second run"
[ -s foo-service/cmd/foo-client/main.go ] && fail "the emptied file is filled again"
''')

mk('C04b','C04',[(GEN,'''	err = WriteGenFile(file, baronPath)
	if err != nil {
		log.Fatal''','''	// leave the file alone, and its time, if it is up to date
	code, err := ioutil.ReadAll(file)
	if err != nil {
		return err
	}
	if info, statErr := os.Stat(baronPath); statErr == nil && info.Size() == int64(len(code)) {
		return nil
	}
	err = WriteGenFile(bytes.NewReader(code), baronPath)
	if err != nil {
		log.Fatal''')],"a definition changed so that the generated file keeps its size","generated transport code of the old definition stays",
p(rpc('A','get: "/a/one"'))+'''
baron api/foo.proto || fail "first run"
sed -i 's,/a/one,/a/two,' api/foo.proto
baron api/foo.proto || fail "second run"
cp api/foo.pb.baron.go $S/was
rm api/foo.pb.baron.go
baron api/foo.proto || fail "third run"
cmp -s $S/was api/foo.pb.baron.go || fail "the generated file is that of the old definition"
''')

mk('C05a','C05',[(HT,'''	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			nMeth := NewMethod(meth)
			rv.Methods = append(rv.Methods, nMeth)
		}
	}
	return &rv''','''	bound := map[string]*svcdef.ServiceMethod{}
	for _, meth := range svc.Methods {
		if len(meth.Bindings) > 0 {
			bound[meth.Name] = meth
		}
	}
	for _, meth := range bound {
		rv.Methods = append(rv.Methods, NewMethod(meth))
	}
	return &rv''')],"two RPCs with bindings, and luck","routes and functions are generated in another order from run to run",
p(rpc('A','get: "/a"')+rpc('B','get: "/b"')+rpc('C','get: "/c"'))+'''
for i in 1 2 3 4 5 6 7 8; do
  baron api/foo.proto || fail "run $i"
  cp api/foo.pb.baron.go $S/now
  [ $i = 1 ] || cmp -s $S/now $S/was || fail "run $i differs from the one before"
  mv $S/now $S/was
done
''')

mk('C06a','C06',[(MAIN,'''	sd, err := parseServiceDefinition(cfg)
	if err != nil {''','''	cleanupOldFiles(cfg.ServicePath, strings.TrimSuffix(filepath.Base(cfg.ServicePath), "-service"))

	sd, err := parseServiceDefinition(cfg)
	if err != nil {'''),(MAIN,'''
	cleanupOldFiles(cfg.ServicePath, strings.ToLower(sd.Service.Name))
}
''','''}
''')],"a project with files of an older version of baron, and a run that fails","a failed run has removed the old files",
p(rpc('A','get: "/a"'))+'''
baron api/foo.proto || fail "first run"
mkdir -p foo-service/cmd/foo-server
echo 'package main' > foo-service/cmd/foo-server/main.go
echo 'func (' >> foo-service/service/service.go
baron api/foo.proto && fail "a handler that does not parse is accepted"
[ -f foo-service/cmd/foo-server/main.go ] || fail "the failed run has removed a file"
''')

mk('C06b','C06',[(GEN,'''		h, err := service.NewService(data.Service, prevFile)
		if err != nil {''','''		h, err := service.NewService(data.Service, prevFile)
		if err != nil && !pkg.FileExists(filepath.Join(data.Config.ServicePath, "server", "server.go")) {
			// the first run was not completed
			log.WithError(err).Warn("cannot parse previous handler")
			h, err = service.NewService(data.Service, nil)
		}
		if err != nil {''')],"a handler file that does not parse, in a service without its server.go","the handler is generated anew over the developer's code",
p(rpc('A','get: "/a"'))+'''
baron api/foo.proto || fail "first run"
rm foo-service/server/server.go
H=foo-service/service/service.go
echo 'func precious( {' >> $H
baron api/foo.proto
grep -q precious $H || fail "the code of the developer is gone"
''')
