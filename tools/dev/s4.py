from mk import mk
exec(open('/tmp/w/seeds/s3.py').read().split("mk('C12a'")[0].split('\n',1)[1])
WRAP='''package main

import (
	"context"
	"fmt"
	"os"

	pb "example.com/p/api"
	"github.com/go-kit/kit/endpoint"
)

type svc struct{ pb.UnimplementedFooServer }

func (svc) A(ctx context.Context, q *pb.Q) (*pb.Q, error) { return q, nil }
func (svc) B(ctx context.Context, q *pb.Q) (*pb.Q, error) { return q, nil }

func main() {
	e := pb.Endpoints{AEndpoint: pb.MakeAEndpoint(svc{}), BEndpoint: pb.MakeBEndpoint(svc{})}
	var calls []string
	mw := func(n string) endpoint.Middleware {
		return func(next endpoint.Endpoint) endpoint.Endpoint {
			return func(ctx context.Context, r interface{}) (interface{}, error) {
				calls = append(calls, n)
				return next(ctx, r)
			}
		}
	}
	lmw := func(n string, next endpoint.Endpoint) endpoint.Endpoint { return mw("L" + n)(next) }
	_, _ = mw, lmw
	%s
}
'''
def wrap(i,edits,main,needs,breaks,opts=None):
    mk(i,'C19',edits,needs,breaks,p(opts or (rpc('A','get: "/a"')+rpc('B','get: "/b"')))+'''
baron -t grpc api/foo.proto || fail "run: $(tail -3 $S/log)"
run "$HERE/main.txt" || fail "$(tail -5 $S/out)"
''',{'main.txt':WRAP%main},lab=True,tmpl=True)
wrap('C19a',[(PB,'''func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoint) endpoint.Endpoint, excluded ...string) {
''','''func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoint) endpoint.Endpoint, excluded ...string) {
	if len(excluded) == {{len .Service.Methods}} {
		// nothing left to wrap
		return
	}
''')],'''e.WrapAllLabeledExcept(lmw, "A", "A")
	e.B(context.Background(), &pb.Q{})
	if fmt.Sprint(calls) != "[LB]" {
		fmt.Println(calls)
		os.Exit(1)
	}''',"as many excluded names as there are RPCs, one of them twice","no endpoint is wrapped")
wrap('C19b',[(PB,'''		case "{{$i.Name}}":
			e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
''','''		case "{{$i.Name}}":
			if e.{{$i.Name}}Endpoint != nil {
				wrapped := e.{{$i.Name}}Endpoint
				e.{{$i.Name}}Endpoint = func(ctx context.Context, request interface{}) (interface{}, error) {
					return middleware(wrapped)(ctx, request)
				}
			}
''')],'''made := 0
	e.WrapAllExcept(func(next endpoint.Endpoint) endpoint.Endpoint {
		made++
		return next
	})
	for i := 0; i < 3; i++ {
		e.B(context.Background(), &pb.Q{})
	}
	if made != 2 {
		fmt.Println("made", made, "times")
		os.Exit(1)
	}''',"a middleware with state of its own for each endpoint it wraps","the middleware is made anew for every request and forgets")
SRV=p(rpc('A','get: "/a"'))+'''
baron -t %s api/foo.proto || fail "run: $(tail -3 $S/log)"
go build -o $S/srv ./foo-service/cmd/foo > $S/out 2>&1 || fail "$(tail -5 $S/out)"
port() { python3 -c 'import socket; s=socket.socket(); s.bind(("127.0.0.1",0)); print(s.getsockname()[1])'; }
up() { for i in $(seq 50); do (exec 3<>/dev/tcp/127.0.0.1/$1) 2>/dev/null && return 0; sleep 0.1; done; return 1; }
P=$(port); Q=$(port)
'''
mk('C20a','C20',[(T+'server/interrupt.go.tmpl','''	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
	terminateError := fmt.Errorf("%s", <-c)
''','''	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGINT, syscall.SIGTERM)
	terminateError := fmt.Errorf("%s", <-c)
	signal.Stop(c)
	if terminateError.Error() == syscall.SIGINT.String() {
		// asked for twice on a terminal
		signal.Notify(c, syscall.SIGINT)
		<-c
	}
''')],"SIGINT sent once","the server goes on serving",
SRV%'grpc'+'''
$S/srv -http.addr 127.0.0.1:$P > $S/log 2>&1 & PID=$!
up $P || fail "not serving"
kill -INT $PID
for i in $(seq 40); do kill -0 $PID 2>/dev/null || break; sleep 0.1; done
if kill -9 $PID 2>/dev/null; then fail "still running"; fi
''',lab=True,tmpl=True)
mk('C20b','C20',[(T+'cmd/NAME/main.go.tmpl','''	if addr := os.Getenv("HTTP_ADDR"); addr != "" {
		config.HTTPAddr = addr
	}
''','''	if addr := os.Getenv("HTTP_ADDR"); addr != "" && config.HTTPAddr == "" {
		config.HTTPAddr = addr
	}
''')],"PORT and HTTP_ADDR both set","the address is not the one of HTTP_ADDR",
SRV%'grpc'+'''
PORT=$Q HTTP_ADDR=127.0.0.1:$P $S/srv > $S/log 2>&1 & PID=$!
up $P; R=$?
kill -9 $PID
[ $R = 0 ] || fail "not serving on HTTP_ADDR"
''',lab=True,tmpl=True)
ST='internal/start/start.go'
mk('C21a','C21',[(ST,'''	if outDir != "" {
		err := os.MkdirAll(filepath.Dir(pinfo.FileName()), 0777)''','''	if outDir != "" {
		err := os.Mkdir(filepath.Dir(pinfo.FileName()), 0777)
		if os.IsExist(err) {
			err = nil
		}''')],"a directory to start in whose parent does not exist","no definition is created",
'''baron --start foo deep/er/dir || fail "status"
[ -s deep/er/dir/foo.proto ] || fail "no definition"
''')
mk('C21b','C21',[(ST,'''	a = strings.Replace(a, "-", "_", -1)
	a = strings.Replace(a, " ", "_", -1)
	return pkg.GoCamelCase(a)''','''	a = strings.Replace(a, "-", "_", -1)
	a = strings.Replace(a, " ", "_", -1)
	return strings.TrimSuffix(pkg.GoCamelCase(a), "Service")''')],"the name service","the definition started has a service without a name",
'''baron --start service || fail "status"
protoc --descriptor_set_out=/dev/null -I. -I$REPO/third_party/googleapis service.proto > $S/out 2>&1 || fail "$(cat $S/out)"
''')
mk('C22a','C22',[(MAIN,'''		svcPath, err = parseSVCOut(svcOut, cfg.GoPath[0])''','''		svcPath, err = parseSVCOut(svcOut, cfg.GoPath[len(cfg.GoPath)-1])''')],"a GOPATH of two directories and an output given as import path","the service is generated in the other directory",
'''mkdir -p $S/gopath/src/ex.com $S/other/src
mv $S/p $S/gopath/src/ex.com/m; cd $S/gopath/src/ex.com/m
sed -i 's,example.com/p,ex.com/m,' go.mod
mkdir -p $S/other/src/ex.com; cp -a $S/gopath/src/ex.com/m $S/other/src/ex.com/m
'''+p(rpc('A','get: "/a"'))+'''
GOPATH=$S/gopath:$S/other baron -o ex.com/m/svc api/foo.proto
[ -f $S/gopath/src/ex.com/m/svc/service/service.go ] || fail "not where it was asked to go: $(tail -2 $S/log)"
[ -e $S/other/src/ex.com/m/svc ] && fail "somewhere else"
''')
mk('C22b','C22',[(MAIN,'''	barename := strings.TrimSuffix(base, filepath.Ext(p))''','''	barename := strings.TrimSuffix(base, ".proto")
	if v := strings.LastIndex(barename, ".v"); v > 0 {
		// the version of a definition is no part of its name
		barename = barename[:v]
	}''')],"a definition in a file named foo.v1.proto","the generated file has another name",
p(rpc('A','get: "/a"'))+'''
mv api/foo.proto api/foo.v1.proto
baron api/foo.v1.proto || fail "run"
[ -f api/foo.v1.pb.baron.go ] || fail "$(ls api)"
''')
