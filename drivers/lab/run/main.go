// The runner of calls on generated code; the lab driver adds one file per
// generated package.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

type Def struct {
	Req, Resp    map[string]func() proto.Message
	Endpoints    func(*Recorder) interface{}
	NoEndpoints  func() interface{}
	EndpointsPtr func(*Recorder) interface{}
	GRPCServer   func(interface{}) interface{}
	HTTPHandler  func(interface{}, ...httptransport.ServerOption) http.Handler
	HTTPClient   func(string, ...httptransport.ClientOption) (interface{}, error)
	HTTPValues   func(...string) httptransport.ClientOption
	RegisterGRPC func(*grpc.Server, interface{}, ...grpctransport.ServerOption)
	GRPCClient   func(*grpc.ClientConn, ...grpctransport.ClientOption) (interface{}, error)
	GRPCValues   func([]string) grpctransport.ClientRequestFunc
	ServeNATS    func(*nats.Conn, interface{}) error
	NATSClient   func(*nats.Conn) (interface{}, error)
}

var defs = map[string]*Def{}

func register(n string, d *Def) { defs[n] = d }

// Err is an error a handler returns.
type Err struct {
	Msg     string `json:"msg"`
	Grpc    int    `json:"grpc"` // a gRPC status, 0: none
	Code    int    `json:"code"` // 0: no StatusCoder
	Headers heads  `json:"headers"`
	JSON    string `json:"json"` // own JSON form, "!": it fails
	Wrap    bool   `json:"wrap"` // another error is its cause
}

// cause of an error that has one; the error itself says what it says.
type cause struct{ of *Err }

func (c cause) Cause() error  { return errors.New("the cause of " + fmt.Sprint(len(c.of.Msg))) }
func (c cause) Unwrap() error { return c.Cause() }

type errWrap struct {
	cause
	e *Err
}

func (e errWrap) Error() string { return e.e.Msg }

type heads map[string][]string

// an empty function of the specification is []
func (h *heads) UnmarshalJSON(b []byte) error {
	var m map[string][]string
	if string(b) == "[]" {
		return nil
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*h = m
	return nil
}

type vals map[string]string

func (h *vals) UnmarshalJSON(b []byte) error {
	var m map[string]string
	if string(b) == "[]" {
		return nil
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*h = vals{}
	for k, v := range m {
		(*h)[k] = unq(v)
	}
	return nil
}

type errCode struct {
	cause
	e *Err
}
type errHead struct{ errCode }
type errJSON struct {
	cause
	e *Err
}
type errAll struct{ errHead }

func (e errCode) Error() string                { return e.e.Msg }
func (e errCode) StatusCode() int              { return e.e.Code }
func (e errHead) Headers() http.Header         { return http.Header(e.e.Headers) }
func (e errJSON) Error() string                { return e.e.Msg }
func (e errJSON) MarshalJSON() ([]byte, error) { return e.e.own() }
func (e errAll) MarshalJSON() ([]byte, error)  { return e.e.own() }

type errHeadOnly struct {
	cause
	e *Err
}

func (e errHeadOnly) Error() string        { return e.e.Msg }
func (e errHeadOnly) Headers() http.Header { return http.Header(e.e.Headers) }

type errHeadJSON struct{ errHeadOnly }

func (e errHeadJSON) MarshalJSON() ([]byte, error) { return e.e.own() }

type errCodeJSON struct{ errCode }

func (e errCodeJSON) MarshalJSON() ([]byte, error) { return e.e.own() }

func (e *Err) own() ([]byte, error) {
	if e.JSON == "!" {
		return nil, errors.New("no JSON")
	}
	return []byte(e.JSON), nil
}

func (e *Err) make() error {
	if e.Grpc != 0 {
		return status.Error(codes.Code(e.Grpc), e.Msg)
	}
	w := cause{e}
	c, h, j := e.Code != 0, len(e.Headers) > 0, e.JSON != ""
	switch {
	case c && h && j:
		return errAll{errHead{errCode{w, e}}}
	case c && h:
		return errHead{errCode{w, e}}
	case c && j:
		return errCodeJSON{errCode{w, e}}
	case h && j:
		return errHeadJSON{errHeadOnly{w, e}}
	case c:
		return errCode{w, e}
	case h:
		return errHeadOnly{w, e}
	case j:
		return errJSON{w, e}
	}
	if e.Wrap {
		return errWrap{w, e}
	}
	return errors.New(e.Msg)
}

type Call struct {
	Fl, Env vals // serve: flags and environment
	Ends    bool
	Reach   []struct{ T, A string }
	Rpcs    rpcsOf
	Stop    string

	T      string          `json:"t"`
	Rpc    string          `json:"rpc"`
	Msg    json.RawMessage `json:"msg"`
	Resp   json.RawMessage `json:"resp"`
	Err    *Err            `json:"err"`
	Method string          `json:"method"`
	Path   string          `json:"path"`
	Query  string          `json:"query"`
	Body   string          `json:"body"`
	Hdr    vals            `json:"hdr"`
	Twice  []string        `json:"twice"` // headers sent with their value twice
	Ctx    vals            `json:"ctx"`   // context values the client is given
	Send   []string        `json:"send"`  // those it is configured to send
	See    []string        `json:"see"`   // context keys the handler looks at
	Want   *struct {
		Rpc string          `json:"rpc"`
		Msg json.RawMessage `json:"msg"`
	} `json:"want"`
	Ops     []Op   `json:"ops"`     // wrapping
	Inst    string `json:"inst"`    // the instance an HTTP client is given, whatever it is called it is this server
	Servers int    `json:"servers"` // NATS: how many servers of the service
}

type Seen struct {
	Rpc string            `json:"rpc"`
	Req string            `json:"req"`
	Srv int               `json:"srv"`
	Ctx map[string]string `json:"ctx,omitempty"`
	msg proto.Message
}

type Wire struct {
	Method string      `json:"method"`
	Path   string      `json:"path"`
	Query  string      `json:"query"`
	Body   string      `json:"body"`
	Header http.Header `json:"header"`
	Host   string      `json:"host"`
}

type Res struct {
	Ran *Ran `json:"ran,omitempty"`

	Seen    []Seen                `json:"seen"`
	ReqEq   bool                  `json:"req_eq"`  // what the handler got is what was sent (or wanted)
	RespEq  bool                  `json:"resp_eq"` // what the caller got is what the handler returned
	Kept    bool                  `json:"kept"`    // the caller's own request is untouched
	Got     string                `json:"got"`     // what the caller got
	Failed  bool                  `json:"failed"`  // it got an error
	Err     string                `json:"err"`
	Code    int                   `json:"code"`   // gRPC: of the error
	Status  int                   `json:"status"` // raw: of the answer
	RBody   string                `json:"rbody"`
	RHdr    map[string]string     `json:"rhdr,omitempty"`
	Wire    []Wire                `json:"wire,omitempty"`
	Refused []bool                `json:"refused,omitempty"`
	Runs    []map[string][]string `json:"runs,omitempty"` // of wrapped endpoints, called directly and as a gRPC server
	Bad     string                `json:"bad"`            // the call could not be made as asked
}

type entry struct {
	c    *Call
	resp proto.Message
	see  []string
	seen []Seen
	wire []Wire
	log  []string
}

// Recorder is what the handlers of one server tell what they get.
type Recorder struct {
	srv int
	box *box
}

type box struct {
	mu  sync.Mutex
	cur map[string]*entry
	tr  *traffic
}

func (b *box) get(id string) *entry { b.mu.Lock(); defer b.mu.Unlock(); return b.cur[id] }
func (b *box) put(id string, e *entry) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.cur[id] = e
}

type idKey struct{}

func (r *Recorder) call(ctx context.Context, rpc string, in, out proto.Message) (proto.Message, error) {
	if r.box.tr != nil {
		return r.box.tr.handle(r, rpc, in, out)
	}
	id, _ := ctx.Value(idKey{}).(string)
	e := r.box.get(id)
	if e == nil {
		return out, nil
	}
	s := Seen{Rpc: rpc, Srv: r.srv, msg: dup(in), Req: text(in)}
	for _, k := range e.see {
		if v := ctx.Value(k); v != nil {
			if s.Ctx == nil {
				s.Ctx = map[string]string{}
			}
			s.Ctx[k] = fmt.Sprint(v)
		}
	}
	r.box.mu.Lock()
	e.seen = append(e.seen, s)
	e.log = append(e.log, "handler "+rpc)
	r.box.mu.Unlock()
	if e.c.Err != nil {
		return nil, e.c.Err.make()
	}
	if e.resp != nil && e.resp.ProtoReflect().Descriptor() == out.ProtoReflect().Descriptor() {
		return dup(e.resp), nil
	}
	return out, nil
}

func text(m proto.Message) string {
	t := prototext.MarshalOptions{AllowPartial: true}.Format(m)
	if len(t) > 1500 {
		t = t[:1500] + "..."
	}
	return t
}

// dup is proto.Clone, which does not forget -0.
func dup(m proto.Message) proto.Message {
	b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(m)
	if err != nil {
		return proto.Clone(m) // text which is not UTF-8
	}
	c := m.ProtoReflect().New().Interface()
	die(proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(b, c))
	return c
}

// equal: -0 and 0 are different values; NaN equals NaN.
func equal(a, b proto.Message) bool {
	if proto.Equal(a, b) {
		return true
	}
	o := proto.MarshalOptions{Deterministic: true, AllowPartial: true}
	x, e1 := o.Marshal(a)
	y, e2 := o.Marshal(b)
	return e1 == nil && e2 == nil && string(x) == string(y)
}

// lab is one definition being served on every transport.
type lab struct {
	d    *Def
	base int
	bin  string // of the generated server
	box  *box
	http *httptest.Server
	mu   sync.Mutex
	grpc *grpc.ClientConn
	gs   *grpc.Server
	nb   map[int]*broker
	ncon []*nats.Conn
}

const callHeader = "X-Verif-Call"

func newLab(d *Def) *lab {
	l := &lab{d: d, box: &box{cur: map[string]*entry{}}, nb: map[int]*broker{}}
	h := d.HTTPHandler(d.Endpoints(&Recorder{0, l.box}))
	l.http = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		id := r.Header.Get(callHeader)
		if e := l.box.get(id); e != nil {
			b, _ := ioutil.ReadAll(r.Body)
			r.Body = ioutil.NopCloser(strings.NewReader(string(b)))
			hd := r.Header.Clone()
			l.box.mu.Lock()
			e.wire = append(e.wire, Wire{r.Method, r.URL.EscapedPath(), r.URL.RawQuery, string(b), hd, r.Host})
			l.box.mu.Unlock()
		}
		h.ServeHTTP(w, r.WithContext(context.WithValue(r.Context(), idKey{}, id)))
	}))
	l.http.Config.ErrorLog = nil
	l.http.Start()
	return l
}

func (l *lab) grpcConn() *grpc.ClientConn {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.grpc == nil {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		die(err)
		l.gs = grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (resp interface{}, err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			if md, ok := metadata.FromIncomingContext(ctx); ok && len(md[strings.ToLower(callHeader)]) > 0 {
				ctx = context.WithValue(ctx, idKey{}, md[strings.ToLower(callHeader)][0])
			}
			return h(ctx, req)
		}))
		l.d.RegisterGRPC(l.gs, l.d.Endpoints(&Recorder{0, l.box}))
		go l.gs.Serve(ln)
		l.grpc, err = grpc.Dial(ln.Addr().String(), grpc.WithInsecure(), grpc.WithBlock())
		die(err)
	}
	return l.grpc
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "runner:", err)
		os.Exit(3)
	}
}

func (l *lab) close() {
	l.http.CloseClientConnections()
	l.http.Close()
	if l.grpc != nil {
		l.grpc.Close()
		l.gs.Stop()
	}
	for _, c := range l.ncon {
		c.Close()
	}
	for _, b := range l.nb {
		b.close()
	}
}

func invoke(client interface{}, rpc string, ctx context.Context, in proto.Message) (out proto.Message, err error, bad string) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	m := reflect.ValueOf(client).MethodByName(rpc)
	if !m.IsValid() {
		return nil, nil, "the client has no method " + rpc
	}
	r := m.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(in)})
	if e := r[1].Interface(); e != nil {
		err = e.(error)
	}
	if !r[0].IsNil() {
		out = r[0].Interface().(proto.Message)
	}
	return out, err, ""
}

// stuck counts the waits that ran out, each of which is a violation: after a
// few of them the other calls are left out.
var stuck int32

const enough = 2

func tooMany() bool { return atomic.LoadInt32(&stuck) >= enough }

func (l *lab) run(c *Call, id string) (res Res) {
	e := &entry{c: c, see: c.See}
	res.Seen = []Seen{}
	defer func() {
		l.box.mu.Lock()
		res.Seen = append(res.Seen, e.seen...)
		res.Wire = e.wire
		l.box.mu.Unlock()
		l.box.put(id, nil)
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	defer func() {
		if c.T != "serve" && ctx.Err() != nil {
			atomic.AddInt32(&stuck, 1)
		}
	}()
	for k, v := range c.Ctx {
		ctx = context.WithValue(ctx, k, v)
	}
	if c.Err != nil {
		c.Err.Msg = unq(c.Err.Msg)
	}
	if c.T == "serve" {
		l.serve(c, id, l.base, l.bin, &res)
		return
	}
	if c.T == "wrap" {
		l.wrap(ctx, c, id, e, &res)
		return
	}
	if c.T == "raw" {
		l.box.put(id, e)
		l.raw(ctx, c, id, &res)
		l.box.mu.Lock()
		seen := e.seen
		l.box.mu.Unlock()
		if c.Want != nil && c.Want.Rpc != "" && len(seen) == 1 {
			mk := l.d.Req[c.Want.Rpc]
			if mk == nil {
				res.Bad = "no RPC " + c.Want.Rpc
				return
			}
			w, err := build(mk(), c.Want.Msg)
			if err != nil {
				res.Bad = err.Error()
				return
			}
			res.ReqEq = equal(w, seen[0].msg)
			res.Got = text(w)
		}
		return
	}
	mk := l.d.Req[c.Rpc]
	if mk == nil {
		res.Bad = "no RPC " + c.Rpc
		return
	}
	in, err := build(mk(), c.Msg)
	if err == nil {
		e.resp, err = build(l.d.Resp[c.Rpc](), c.Resp)
	}
	if err != nil {
		res.Bad = err.Error()
		return
	}
	sent := dup(in)
	l.box.put(id, e)
	var client interface{}
	switch c.T {
	case "http":
		opts := []httptransport.ClientOption{httptransport.ClientBefore(httptransport.SetRequestHeader(callHeader, id))}
		if c.Send != nil {
			opts = append(opts, l.d.HTTPValues(c.Send...))
		}
		inst := l.http.URL
		if c.Inst != "" {
			inst = c.Inst
			dial := func(ctx context.Context, network, _ string) (net.Conn, error) {
				return (&net.Dialer{}).DialContext(ctx, network, l.http.Listener.Addr().String())
			}
			opts = append(opts, httptransport.SetClient(&http.Client{Transport: &http.Transport{DialContext: dial, DisableKeepAlives: true}}))
		}
		client, err = l.d.HTTPClient(inst, opts...)
	case "grpc":
		opts := []grpctransport.ClientOption{grpctransport.ClientBefore(grpctransport.SetRequestHeader(strings.ToLower(callHeader), id))}
		if c.Send != nil {
			opts = append(opts, grpctransport.ClientBefore(l.d.GRPCValues(c.Send)))
		}
		for k, v := range c.Hdr {
			opts = append(opts, grpctransport.ClientBefore(grpctransport.SetRequestHeader(k, v)))
		}
		for _, k := range c.Twice {
			opts = append(opts, grpctransport.ClientBefore(grpctransport.SetRequestHeader(k, c.Hdr[k])))
		}
		client, err = l.d.GRPCClient(l.grpcConn(), opts...)
	case "nats":
		client, err = l.natsClient(c.Servers)
	default:
		res.Bad = "no such call: " + c.T
		return
	}
	if err != nil {
		res.Err = "client: " + err.Error()
		return
	}
	got, err, bad := invoke(client, c.Rpc, ctx, in)
	if bad != "" {
		res.Bad = bad
		return
	}
	if err != nil {
		res.Failed, res.Err = true, err.Error()
		if c.T == "grpc" {
			res.Code = int(status.Code(err))
		}
	}
	if got != nil && !reflect.ValueOf(got).IsNil() {
		res.Got = text(got)
		res.RespEq = equal(got, e.resp)
	}
	if c.T == "nats" {
		// a second server answering as well would be late
		time.Sleep(2 * time.Millisecond)
	}
	res.Kept = equal(sent, in)
	l.box.mu.Lock()
	if len(e.seen) > 0 {
		res.ReqEq = equal(sent, e.seen[0].msg)
	}
	l.box.mu.Unlock()
	return
}

func (l *lab) raw(ctx context.Context, c *Call, id string, res *Res) {
	u := l.http.URL
	r, err := http.NewRequest(c.Method, u, strings.NewReader(c.Body))
	if err != nil {
		res.Bad = err.Error()
		return
	}
	if c.Body == "" {
		r.Body, r.ContentLength = nil, 0
	}
	p, err := url.PathUnescape(c.Path)
	if err != nil {
		res.Bad = err.Error()
		return
	}
	r.URL.Path, r.URL.RawPath, r.URL.RawQuery = p, c.Path, c.Query
	for k, v := range c.Hdr {
		r.Header.Set(k, v)
	}
	for _, k := range c.Twice {
		r.Header.Add(k, c.Hdr[k])
	}
	r.Header.Set(callHeader, id)
	hc := &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }, Timeout: 20 * time.Second}
	resp, err := hc.Do(r)
	if err != nil {
		res.Err = err.Error()
		return
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		res.Err = err.Error()
	}
	res.Status = resp.StatusCode
	res.RBody = string(b)
	res.RHdr = map[string]string{}
	for k, v := range resp.Header {
		res.RHdr[k] = strings.Join(v, "|")
	}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 64<<20)
	o := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var in struct {
			I       int
			Pkg     string
			Calls   []json.RawMessage
			Skip    []int
			Par     int
			Traffic *Traffic
			Beside  string
			Server  string
		}
		die(json.Unmarshal(sc.Bytes(), &in))
		d := defs[in.Pkg]
		if d == nil {
			die(fmt.Errorf("no package %s", in.Pkg))
		}
		l := newLab(d)
		l.base, l.bin = in.I%10, in.Server
		skip := map[int]bool{}
		for _, k := range in.Skip {
			skip[k] = true
		}
		say := func(k int, r Res) {
			sort.Slice(r.Seen, func(a, b int) bool { return r.Seen[a].Srv < r.Seen[b].Srv })
			b, err := json.Marshal(map[string]interface{}{"i": in.I, "k": k, "res": r})
			die(err)
			o.Write(b)
			o.WriteByte('\n')
			o.Flush()
		}
		if in.Traffic != nil {
			b, err := json.Marshal(map[string]interface{}{"i": in.I, "events": l.traffic(in.Traffic, defs[in.Beside])})
			die(err)
			o.Write(b)
			o.WriteByte('\n')
			o.Flush()
		}
		var par []int
		for k, raw := range in.Calls {
			if skip[k] || tooMany() {
				continue
			}
			var c Call
			die(json.Unmarshal(raw, &c))
			if in.Par > 1 && c.T != "nats" {
				par = append(par, k)
				continue
			}
			fmt.Fprintf(o, `{"i":%d,"k":%d,"start":true}`+"\n", in.I, k)
			o.Flush()
			id := ""
			if c.T != "nats" {
				id = fmt.Sprintf("c%d", k)
			}
			say(k, l.run(&c, id))
		}
		if len(par) > 0 {
			var mu sync.Mutex
			var wg sync.WaitGroup
			ch := make(chan int)
			for w := 0; w < in.Par; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := range ch {
						if tooMany() {
							continue
						}
						var c Call
						die(json.Unmarshal(in.Calls[k], &c))
						r := l.run(&c, fmt.Sprintf("c%d", k))
						mu.Lock()
						say(k, r)
						mu.Unlock()
					}
				}()
			}
			for _, k := range par {
				ch <- k
			}
			close(ch)
			wg.Wait()
		}
		l.close()
		if tooMany() {
			os.Exit(4)
		}
	}
}
