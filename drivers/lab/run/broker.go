package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/nats-io/nats.go"
)

// broker is a NATS server as far as the clients here need one.
type broker struct {
	ln net.Listener
	mu sync.Mutex
	cs map[*bconn]bool
	rr map[string]int
}

type bconn struct {
	c    net.Conn
	mu   sync.Mutex
	subs map[string][2]string // sid -> subject, queue
}

func newBroker(addr string) (*broker, error) {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	b := &broker{ln: ln, cs: map[*bconn]bool{}, rr: map[string]int{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			bc := &bconn{c: c, subs: map[string][2]string{}}
			b.mu.Lock()
			b.cs[bc] = true
			b.mu.Unlock()
			go b.serve(bc)
		}
	}()
	return b, nil
}

func (b *broker) close() {
	b.ln.Close()
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.cs {
		c.c.Close()
	}
}

func (c *bconn) send(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	io.WriteString(c.c, s)
}

func match(pat, subj string) bool {
	p, s := strings.Split(pat, "."), strings.Split(subj, ".")
	for i := range p {
		if p[i] == ">" {
			return i < len(s)
		}
		if i >= len(s) || p[i] != "*" && p[i] != s[i] {
			return false
		}
	}
	return len(p) == len(s)
}

func (b *broker) serve(c *bconn) {
	defer func() {
		c.c.Close()
		b.mu.Lock()
		delete(b.cs, c)
		b.mu.Unlock()
	}()
	c.send(`INFO {"server_id":"v","version":"2.2.0","headers":true,"max_payload":1048576}` + "\r\n")
	r := bufio.NewReader(c.c)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "PING":
			c.send("PONG\r\n")
		case "SUB":
			q := ""
			if len(f) == 4 {
				q = f[2]
			}
			b.mu.Lock()
			c.subs[f[len(f)-1]] = [2]string{f[1], q}
			b.mu.Unlock()
		case "UNSUB":
			b.mu.Lock()
			delete(c.subs, f[1])
			b.mu.Unlock()
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			buf := make([]byte, n+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			reply := ""
			if len(f) == 4 {
				reply = f[2]
			}
			b.publish(c, f[1], reply, buf)
		}
	}
}

func (b *broker) publish(from *bconn, subj, reply string, data []byte) {
	type target struct {
		c   *bconn
		sid string
	}
	var all []target
	queues := map[string][]target{}
	b.mu.Lock()
	for c := range b.cs {
		for sid, s := range c.subs {
			if match(s[0], subj) {
				if s[1] == "" {
					all = append(all, target{c, sid})
				} else {
					queues[s[1]] = append(queues[s[1]], target{c, sid})
				}
			}
		}
	}
	for q, ts := range queues {
		b.rr[q]++
		all = append(all, ts[b.rr[q]%len(ts)])
	}
	b.mu.Unlock()
	rp := ""
	if reply != "" {
		rp = reply + " "
	}
	for _, t := range all {
		t.c.send(fmt.Sprintf("MSG %s %s %s%d\r\n", subj, t.sid, rp, len(data)-2) + string(data))
	}
	if len(all) == 0 && reply != "" {
		b.mu.Lock()
		var sid string
		for s, x := range from.subs {
			if x[0] == reply {
				sid = s
			}
		}
		b.mu.Unlock()
		if sid != "" {
			h := "NATS/1.0 503\r\n\r\n"
			from.send(fmt.Sprintf("HMSG %s %s %d %d\r\n%s\r\n", reply, sid, len(h), len(h), h))
		}
	}
}

// natsClient is a client of as many servers; those of another number have a
// broker of their own.
func (l *lab) natsClient(servers int) (interface{}, error) {
	if servers < 1 {
		servers = 1
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	b := l.nb[servers]
	if b == nil {
		var err error
		b, err = newBroker("127.0.0.1:0")
		die(err)
		l.nb[servers] = b
		for i := 0; i < servers; i++ {
			c, err := nats.Connect(b.ln.Addr().String())
			if err != nil {
				return nil, err
			}
			if err := l.d.ServeNATS(c, l.d.Endpoints(&Recorder{i, l.box})); err != nil {
				return nil, err
			}
			if err := c.Flush(); err != nil {
				return nil, err
			}
			l.ncon = append(l.ncon, c)
		}
	}
	c, err := nats.Connect(b.ln.Addr().String())
	if err != nil {
		return nil, err
	}
	l.ncon = append(l.ncon, c)
	return l.d.NATSClient(c)
}
