package main

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// Traffic is many callers calling at once; what happens is recorded.
type Traffic struct {
	T       string
	Servers int
	Clients int
	Par     int
	Calls   []struct {
		Rpc string
		Msg json.RawMessage
	}
	Answers map[string][]struct {
		Msg json.RawMessage
		Err string
	}
	Delays []int // milliseconds handlers take, one after another
}

type Event struct {
	E    string `json:"e"`
	Call int    `json:"call"`
	Srv  string `json:"srv"`
	Rpc  string `json:"rpc"`
	Req  string `json:"req"`
	K    string `json:"k"`
	Val  string `json:"val"`
	Show string `json:"show,omitempty"`
}

type traffic struct {
	t      *Traffic
	d      *Def
	mu     sync.Mutex
	n      map[string]int
	all    int
	events []Event
}

func (t *traffic) say(e Event) { t.events = append(t.events, e) }

// token stands for a message.
func token(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	die(err)
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func (t *traffic) handle(r *Recorder, rpc string, in, out proto.Message) (proto.Message, error) {
	e := Event{E: "handle", Srv: "s", Rpc: rpc, Req: token(in), K: "ok"}
	if r.srv < 0 {
		e.Srv = "x"
	}
	if t.t.T == "http" || t.t.T == "grpc" {
		e.Show = text(in)
	}
	var err error
	t.mu.Lock()
	d := 0
	if len(t.t.Delays) > 0 {
		d = t.t.Delays[t.all%len(t.t.Delays)]
	}
	t.all++
	if as := t.t.Answers[rpc]; len(as) > 0 && r.srv >= 0 {
		a := as[t.n[rpc]%len(as)]
		t.n[rpc]++
		if a.Err != "" {
			e.K, e.Val = "err", unq(a.Err)
			err = errors.New(e.Val)
		} else {
			m, berr := build(t.d.Resp[rpc](), a.Msg)
			die(berr)
			if m.ProtoReflect().Descriptor() == out.ProtoReflect().Descriptor() {
				out = m
			}
		}
	}
	if err == nil {
		e.Val = token(out)
	}
	t.say(e)
	t.mu.Unlock()
	time.Sleep(time.Duration(d) * time.Millisecond)
	return out, err
}

func (l *lab) traffic(t *Traffic, beside *Def) []Event {
	tr := &traffic{t: t, d: l.d, n: map[string]int{}}
	box := &box{cur: map[string]*entry{}, tr: tr}
	var clients []interface{}
	add := func(c interface{}, err error) {
		die(err)
		clients = append(clients, c)
	}
	if t.Clients < 1 {
		t.Clients = 1
	}
	switch t.T {
	case "http":
		s := httptest.NewServer(l.d.HTTPHandler(l.d.Endpoints(&Recorder{0, box})))
		defer s.Close()
		for i := 0; i < t.Clients; i++ {
			add(l.d.HTTPClient(s.URL))
		}
		defer http.DefaultClient.CloseIdleConnections()
	case "grpc":
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		die(err)
		s := grpc.NewServer()
		if beside != nil {
			beside.RegisterGRPC(s, beside.Endpoints(&Recorder{-1, box}))
		}
		l.d.RegisterGRPC(s, l.d.Endpoints(&Recorder{0, box}))
		go s.Serve(ln)
		defer s.Stop()
		for i := 0; i < t.Clients; i++ {
			c, err := grpc.Dial(ln.Addr().String(), grpc.WithInsecure(), grpc.WithBlock())
			die(err)
			defer c.Close()
			add(l.d.GRPCClient(c))
		}
	case "nats":
		b, err := newBroker("127.0.0.1:0")
		die(err)
		defer b.close()
		serve := func(d *Def, n int) {
			c, err := nats.Connect(b.ln.Addr().String())
			die(err)
			die(d.ServeNATS(c, d.Endpoints(&Recorder{n, box})))
			die(c.Flush())
		}
		if beside != nil {
			serve(beside, -1)
		}
		for i := 0; i < t.Servers || i == 0; i++ {
			serve(l.d, i)
		}
		for i := 0; i < t.Clients; i++ {
			c, err := nats.Connect(b.ln.Addr().String())
			die(err)
			add(l.d.NATSClient(c))
		}
	default:
		die(fmt.Errorf("no such traffic: %s", t.T))
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < t.Par || w == 0; w++ {
		wg.Add(1)
		go func(client interface{}) {
			defer wg.Done()
			for k := range ch {
				if tooMany() {
					continue
				}
				c := t.Calls[k]
				mk := l.d.Req[c.Rpc]
				if mk == nil {
					die(fmt.Errorf("no RPC %s", c.Rpc))
				}
				in, err := build(mk(), c.Msg)
				die(err)
				tr.mu.Lock()
				tr.say(Event{E: "send", Call: k, Rpc: c.Rpc, Req: token(in), Show: text(in)})
				tr.mu.Unlock()
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
				out, err, bad := invoke(client, c.Rpc, ctx, in)
				if ctx.Err() != nil {
					atomic.AddInt32(&stuck, 1)
				}
				cancel()
				e := Event{E: "return", Call: k, K: "ok"}
				switch {
				case bad != "":
					e.K, e.Val = "bad", bad
				case err != nil:
					e.K, e.Val = "err", err.Error()
				default:
					e.Val = token(out)
					e.Show = text(out)
				}
				tr.mu.Lock()
				tr.say(e)
				tr.mu.Unlock()
			}
		}(clients[w%len(clients)])
	}
	for k := range t.Calls {
		ch <- k
	}
	close(ch)
	wg.Wait()
	// a second server which answers as well would be late
	time.Sleep(5 * time.Millisecond)
	tr.mu.Lock()
	defer tr.mu.Unlock()
	return tr.events
}
