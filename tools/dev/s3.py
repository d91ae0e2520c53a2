from mk import mk
exec(open('/tmp/w/seeds/s1.py').read().split("mk('C01b'")[0].split('\n',1)[1])
T='gengokit/template/NAME-service/'
PB=T+'baron/NAME.pb.baron.go.tmpl'
MAINGO='''package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	pb "example.com/p/api"
	httptransport "github.com/go-kit/kit/transport/http"
)

type svc struct {
	pb.UnimplementedFooServer
	got *pb.Q
	err error
	ctx context.Context
}

var seen svc

func (svc) A(ctx context.Context, q *pb.Q) (*pb.Q, error) {
	seen.got, seen.ctx = q, ctx
	return q, seen.err
}

func check(ok bool, what ...interface{}) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func get(url string) (int, string) {
	r, err := http.Get(url)
	check(err == nil, err)
	b, _ := ioutil.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

var _ = strings.Contains
var _ httptransport.StatusCoder

func main() {
	h := pb.MakeHTTPHandler(pb.Endpoints{AEndpoint: pb.MakeAEndpoint(svc{})})
	s := httptest.NewServer(h)
	c, err := pb.NewHTTPClient(s.URL)
	check(err == nil, err)
	_ = c
	%s
}
%s
'''
def http(i,prop,edits,opt,msgs,main,needs,breaks,extra='',**kw):
    mk(i,prop,edits,needs,breaks,p(rpc('A',opt),msgs)+'''
baron -t grpc api/foo.proto || fail "run: $(tail -3 $S/log)"
run "$HERE/main.txt" || fail "$(tail -5 $S/out)"
''',{'main.txt':MAINGO%(main,extra)},lab=True,**kw)

mk('C12a','C12',[(HT,'''				LocalName:      fmt.Sprintf("%s%s", oneofType.Name, pkg.GoCamelCase(meth.Name)),
			}
			if oneof''','''				LocalName:      LowCamelName(oneofType.Name),
			}
			if oneof''')],"a oneof in the query with a member named by a Go keyword","the generated code does not compile",
p(rpc('A','get: "/a"'),'message Q { oneof o { string x = 1; int32 type = 2; } }')+'''
baron api/foo.proto || fail "run"
(go build ./api > $S/out 2>&1) || fail "$(tail -3 $S/out)"
''',lab=True)
mk('C12b','C12',[(HT,'''		if field.Type.Message == nil && field.Type.Enum == nil && field.Type.Map == nil && pkg.IsGoBaseType(newField.GoType) {''','''		if field.Type.Message == nil && field.Type.Map == nil && (pkg.IsGoBaseType(newField.GoType) || field.Type.Enum != nil && !newField.Repeated) {'''),
 (HT,'''	conversion := fmt.Sprintf(fType, f.LocalName)
	if !f.StarExpr {''','''	conversion := fmt.Sprintf(fType, f.LocalName)
	if !f.StarExpr || f.IsBaseType && f.IsEnum {''')],"an optional enum field in the query","the generated code does not compile",
p(rpc('A','get: "/a"'),'enum E { Z = 0; }\nmessage Q { string x = 1; optional E e = 2; }')+'''
baron api/foo.proto || fail "run"
(go build ./api > $S/out 2>&1) || fail "$(tail -3 $S/out)"
''',lab=True)
http('C13a','C13',[(HT,'''		fType = "%s, err := strconv.ParseUint(%s, 10, 64)"''','''		fType = "%s, err := strconv.ParseInt(%s, 10, 64)"'''),(HT,'''	case "uint32", "int32", "float32":
		fType''','''	case "uint32", "int32", "float32", "uint64":
		fType''')],'get: "/a"','message Q { uint64 x = 1; }',
'''r, err := c.A(context.Background(), &pb.Q{X: 1<<64 - 1})
	check(err == nil && r.X == 1<<64-1, r, err)''',"an unsigned 64 bit value of 2^63 or more in path or query","the server refuses what the client sends")
http('C13c','C13',[(PB,'''		if r.StatusCode != http.StatusOK {
			return nil, errors.Wrapf(''','''		if len(buf) == 0 || r.StatusCode != http.StatusOK && !bytes.HasPrefix(buf, []byte("{\\"")) {
			return nil, errors.Errorf("status code: '%d', body '%s'", r.StatusCode, buf)
		}
		var failure errorWrapper
		if json.Unmarshal(buf, &failure); r.StatusCode != http.StatusOK || failure.Error != "" {
			return nil, errors.Wrapf(''')],'get: "/a"','message Q { string error = 1; }',
'''r, err := c.A(context.Background(), &pb.Q{Error: "no error"})
	check(err == nil && r.Error == "no error", r, err)''',"a response message with a field named error that is not empty","the client takes the response for a failure",tmpl=True)
http('C14a','C14',[(HT,'''	case "int32":
		fType = "%s, err := strconv.ParseInt(%s, 10, 32)"''','''	case "int32":
		fType = "%s, err := strconv.ParseInt(%s, 10, 64)"''')],'get: "/a"','message Q { int32 x = 1; }',
'''code, _ := get(s.URL + "/a?x=4294967297")
	check(seen.got == nil, code, seen.got)''',"a number out of range for a 32 bit field","the handler is invoked with another number")
http('C14b','C14',[(HT,'''			{{$option.LocalName}}Str = {{$option.LocalName}}StrArr[0]
			{{$oneof.Name}}CountSet++''','''			{{$option.LocalName}}Str = {{$option.LocalName}}StrArr[0]
			if {{$option.LocalName}}Str != "" {
				{{$oneof.Name}}CountSet++
			}''')],'get: "/a"','message Q { oneof o { string x = 1; string y = 2; } }',
'''code, _ := get(s.URL + "/a?x=&y=b")
	check(seen.got == nil, code, seen.got)
	code, _ = get(s.URL + "/a?x=&y=")
	check(seen.got == nil, code, seen.got)''',"two members of a oneof in the query, one of them empty","the handler is invoked with one of them")
http('C15a','C15',[(SD,'''					rv.PBFieldName = subFields[4][idx+1:]
''','''					rv.PBFieldName = subFields[4][idx+1:]
					if len(subFields) > 5 && strings.HasPrefix(subFields[5], "json=") {
						rv.PBFieldName = subFields[5][5:]
					}
''')],'get: "/a"','message Q { repeated int32 some_ids = 1; }',
'''get(s.URL + "/a?some_ids=1&some_ids=2")
	check(seen.got != nil && len(seen.got.SomeIds) == 2, seen.got)''',"a repeated number whose name has an underscore","the server does not know the parameter")
http('C15b','C15',[(PB,'''	if err := json.Unmarshal([]byte(values[0]), &elements); err == nil && elements != nil {
		list''','''	if err := json.Unmarshal([]byte(values[0]), &elements); err == nil && len(elements) > 0 {
		list''')],'get: "/a"','message Q { repeated string xs = 1; }',
'''get(s.URL + "/a?xs=%%5B%%5D")
	check(seen.got != nil && len(seen.got.Xs) == 0, seen.got)'''.replace('%%','%'),"a list given as an empty JSON array","the list has one element",tmpl=True)
http('C16a','C16',[(PB,'''		code = sc.StatusCode()
''','''		if code = sc.StatusCode(); http.StatusText(code) == "" {
			code = http.StatusInternalServerError
		}
''')],'get: "/a"','message Q { string x = 1; }',
'''seen.err = failure{}
	code, _ := get(s.URL + "/a")
	check(code == 499, code)''',"an error with a status code that has no standard text","the status arrives as 500",'''
type failure struct{}

func (failure) Error() string   { return "no" }
func (failure) StatusCode() int { return 499 }
''',tmpl=True)
http('C16b','C16',[(PB,'''			if v, ok := ctx.Value(k).(string); ok {
				r.Header.Set(k, v)
			}
		}
		return ctx
	})''','''			if v, ok := ctx.Value(k).(string); ok && r.Header.Get(k) == "" {
				r.Header.Add(k, v)
			} else if !ok {
				// not for this call
				break
			}
		}
		return ctx
	})''')],'get: "/a"','message Q { string x = 1; }',
'''c, err = pb.NewHTTPClient(s.URL, pb.CtxValuesToSend("One", "Two"))
	check(err == nil, err)
	c.A(context.WithValue(context.Background(), "Two", "2"), &pb.Q{})
	check(seen.ctx.Value("Two") == "2", seen.ctx)''',"a context without the first of the values to send","the values after it are not sent",tmpl=True)
GRPC='''package main

import (
	"context"
	"fmt"
	"net"
	"os"

	pb "example.com/p/api"
	"google.golang.org/grpc"
)

type svc struct{ pb.UnimplementedFooServer }

func (svc) Put(ctx context.Context, q *pb.Q) (*pb.Q, error) { return &pb.Q{X: "put " + q.X}, nil }
func (svc) Get(ctx context.Context, q *pb.Q) (*pb.Q, error) { return &pb.Q{X: "get " + q.X}, nil }

func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	pb.RegisterFooServer(s, pb.MakeGRPCServer(pb.Endpoints{PutEndpoint: pb.MakePutEndpoint(svc{}), GetEndpoint: pb.MakeGetEndpoint(svc{})}))
	go s.Serve(ln)
	conn, err := grpc.Dial(ln.Addr().String(), grpc.WithInsecure())
	if err != nil {
		panic(err)
	}
	c, err := pb.NewGRPCClient(conn)
	if err != nil {
		panic(err)
	}
	r, err := c.Put(context.Background(), &pb.Q{X: "1"})
	if err != nil || r.X != "put 1" {
		fmt.Println(r, err)
		os.Exit(1)
	}
}
'''
mk('C17a','C17',[(SD,'''		rv.Methods = append(rv.Methods, nmeth)
	}
	return rv, nil''','''		rv.Methods = append(rv.Methods, nmeth)
	}
	sort.Slice(rv.Methods, func(i, j int) bool { return rv.Methods[i].Name < rv.Methods[j].Name })
	return rv, nil''')],"RPCs not declared in the order of their names","the gRPC client calls another RPC",
p(rpc('Put','get: "/put"')+rpc('Get','get: "/get"'))+'''
baron -t grpc api/foo.proto || fail "run: $(tail -3 $S/log)"
run "$HERE/main.txt" || fail "$(tail -5 $S/out)"
''',{'main.txt':GRPC},lab=True)
mk('C17b','C17',[(PB,'''			if v, ok := ctx.Value(k).(string); ok {
				pairs = append(pairs, k, v)
			}
		}

		if pairs != nil {
			*md = metadata.Join(*md, metadata.Pairs(pairs...))
		}
''','''			if v, ok := ctx.Value(k).(string); ok {
				pairs = append(pairs, k, v)
			}
		}

		if pairs != nil {
			*md = metadata.Pairs(pairs...)
		}
''')],"two options which send context values","only the values of the last one are sent",
p(rpc('Put','get: "/put"')+rpc('Get','get: "/get"'))+'''
baron -t grpc api/foo.proto || fail "run: $(tail -3 $S/log)"
run "$HERE/main.txt" || fail "$(tail -5 $S/out)"
''',{'main.txt':GRPC.replace('pb.NewGRPCClient(conn)','pb.NewGRPCClient(conn, grpctransport.ClientBefore(pb.ContextValuesToGRPCMetadata([]string{"one"}), pb.ContextValuesToGRPCMetadata([]string{"two"})))').replace('func (svc) Put(ctx context.Context, q *pb.Q) (*pb.Q, error) { return','func (svc) Put(ctx context.Context, q *pb.Q) (*pb.Q, error) {\n\tif ctx.Value("one") != "1" || ctx.Value("two") != "2" {\n\t\treturn nil, fmt.Errorf("%v", ctx)\n\t}\n\treturn').replace('c.Put(context.Background()','c.Put(context.WithValue(context.WithValue(context.Background(), "one", "1"), "two", "2")').replace('	"google.golang.org/grpc"\n','	grpctransport "github.com/go-kit/kit/transport/grpc"\n	"google.golang.org/grpc"\n')},lab=True,tmpl=True)
BROKER=''.join(open('/tmp/w/v/drivers/lab/run/broker.go').readlines()[:174]).replace('	"github.com/nats-io/nats.go"\n','').replace('\t"fmt"\n','\t"fmt"\n')
NATS='''package main

import (
	"context"
	"github.com/pkg/errors"
	"fmt"
	"os"

	pb "example.com/p/api"
	"github.com/nats-io/nats.go"
)

type svc struct{ pb.UnimplementedFooServer }

func (svc) %(a)s(ctx context.Context, q *pb.Q) (*pb.Q, error) {
	if q.X == "fail" {
		return nil, errors.Wrap(errors.New("asked"), "failed as")
	}
	return &pb.Q{X: "one " + q.X}, nil
}
func (svc) %(b)s(ctx context.Context, q *pb.Q) (*pb.Q, error) { return &pb.Q{X: "two " + q.X}, nil }

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func main() {
	b, err := newBroker("127.0.0.1:0")
	check(err)
	addr := "nats://" + b.ln.Addr().String()
	sc, err := nats.Connect(addr)
	check(err)
	check(pb.ServeNATS(sc, pb.MakeNATSServer(pb.Endpoints{%(a)sEndpoint: pb.Make%(a)sEndpoint(svc{}), %(b)sEndpoint: pb.Make%(b)sEndpoint(svc{})})))
	check(sc.Flush())
	cc, err := nats.Connect(addr)
	check(err)
	c, err := pb.NewNATSClient(cc)
	check(err)
	for i := 0; i < 8; i++ {
		r, err := c.%(a)s(context.Background(), &pb.Q{X: "1"})
		check(err)
		if r.X != "one 1" {
			check(errors.New(r.X))
		}
	}
	_, err = c.%(a)s(context.Background(), &pb.Q{X: "fail"})
	if err == nil || err.Error() != "failed as: asked" {
		check(fmt.Errorf("error is %%v", err))
	}
}
'''
def nats(i,edits,a,b,needs,breaks):
    mk(i,'C18',edits,needs,breaks,p(rpc(a,'get: "/a"')+rpc(b,'get: "/b"'))+'''
baron -t nats api/foo.proto || fail "run: $(tail -3 $S/log)"
mkdir -p x; cp "$HERE/broker.txt" x/broker.go
run "$HERE/main.txt" || fail "$(tail -5 $S/out)"
''',{'main.txt':NATS%{'a':a,'b':b},'broker.txt':BROKER},lab=True,tmpl=True)
nats('C18a',[(PB,'''conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}"''','''conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name | ToLower}}"'''),(PB,'''					"{{$te.Service.Name}}.{{$i.Name}}",
					EncodeNATS''','''					"{{$te.Service.Name}}.{{$i.Name | ToLower}}",
					EncodeNATS''')],'GetIt','GETIt',"two RPCs whose names differ in case only","calls reach either handler")
nats('C18b',[(PB,'''	data, marshalErr := json.Marshal(natsError{Error: err.Error(), Marker: true})''','''	data, marshalErr := json.Marshal(natsError{Error: errors.Cause(err).Error(), Marker: true})''')],'A','B',"a handler error that wraps another","only the innermost text arrives")
