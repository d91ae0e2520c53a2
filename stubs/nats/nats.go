// Package nats stands in for github.com/nats-io/nats.go: a client of the NATS
// text protocol.
package nats

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	DefaultURL  = "nats://127.0.0.1:4222"
	DefaultPort = 4222
)

var (
	ErrTimeout          = errors.New("nats: timeout")
	ErrConnectionClosed = errors.New("nats: connection closed")
	ErrNoResponders     = errors.New("nats: no responders available for request")
	ErrNoServers        = errors.New("nats: no servers available for connection")
	ErrBadSubject       = errors.New("nats: invalid subject")
)

type Header map[string][]string

type Msg struct {
	Subject string
	Reply   string
	Header  Header
	Data    []byte
	Sub     *Subscription
}

type MsgHandler func(msg *Msg)
type Option func(*Options) error
type Options struct{}

func option(*Options) error { return nil }

func Name(string) Option                    { return option }
func Timeout(time.Duration) Option          { return option }
func MaxReconnects(int) Option              { return option }
func ReconnectWait(time.Duration) Option    { return option }
func UserInfo(user, password string) Option { return option }
func Token(string) Option                   { return option }

type Subscription struct {
	Subject string
	Queue   string
	sid     int
	conn    *Conn
	ch      chan *Msg
	cb      MsgHandler
}

func (s *Subscription) Unsubscribe() error {
	s.conn.mu.Lock()
	delete(s.conn.subs, s.sid)
	s.conn.mu.Unlock()
	return s.conn.send(fmt.Sprintf("UNSUB %d\r\n", s.sid))
}

type Conn struct {
	mu     sync.Mutex
	c      net.Conn
	w      *bufio.Writer
	subs   map[int]*Subscription
	next   int
	pongs  []chan struct{}
	closed bool
}

func Connect(url string, options ...Option) (*Conn, error) {
	a := strings.TrimPrefix(url, "nats://")
	if i := strings.LastIndex(a, "@"); i >= 0 {
		a = a[i+1:]
	}
	if !strings.Contains(a, ":") {
		a += ":4222"
	}
	c, err := net.DialTimeout("tcp", a, 2*time.Second)
	if err != nil {
		return nil, ErrNoServers
	}
	nc := &Conn{c: c, w: bufio.NewWriter(c), subs: map[int]*Subscription{}}
	r := bufio.NewReader(c)
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	l, err := r.ReadString('\n')
	if err != nil || !strings.HasPrefix(l, "INFO ") {
		c.Close()
		return nil, errors.New("nats: expected INFO protocol")
	}
	c.SetReadDeadline(time.Time{})
	nc.send(`CONNECT {"verbose":false,"pedantic":false,"headers":true,"no_responders":true}` + "\r\n")
	go nc.read(r)
	if err := nc.Flush(); err != nil {
		return nil, err
	}
	return nc, nil
}

func (nc *Conn) send(s string, data ...byte) error {
	nc.mu.Lock()
	defer nc.mu.Unlock()
	return nc.sendLocked(s, data)
}

func (nc *Conn) sendLocked(s string, data []byte) error {
	if nc.closed {
		return ErrConnectionClosed
	}
	nc.w.WriteString(s)
	nc.w.Write(data)
	return nc.w.Flush()
}

func (nc *Conn) read(r *bufio.Reader) {
	defer nc.Close()
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "PING":
			nc.send("PONG\r\n")
		case "PONG":
			nc.mu.Lock()
			if len(nc.pongs) > 0 {
				close(nc.pongs[0])
				nc.pongs = nc.pongs[1:]
			}
			nc.mu.Unlock()
		case "MSG", "HMSG":
			hdr := 0
			if f[0] == "HMSG" {
				hdr, _ = strconv.Atoi(f[len(f)-2])
				f = append(f[:len(f)-2], f[len(f)-1])
			}
			n, _ := strconv.Atoi(f[len(f)-1])
			buf := make([]byte, n+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			m := &Msg{Subject: f[1], Data: buf[hdr:n]}
			if hdr > 0 && strings.HasPrefix(string(buf), "NATS/1.0 503") {
				m.Header = Header{"Status": {"503"}}
			}
			if len(f) == 5 {
				m.Reply = f[3]
			}
			sid, _ := strconv.Atoi(f[2])
			nc.mu.Lock()
			s := nc.subs[sid]
			nc.mu.Unlock()
			if s != nil {
				m.Sub = s
				s.ch <- m
			}
		}
	}
}

func (nc *Conn) Publish(subj string, data []byte) error { return nc.publish(subj, "", data) }
func (nc *Conn) PublishRequest(subj, reply string, data []byte) error {
	return nc.publish(subj, reply, data)
}
func (nc *Conn) PublishMsg(m *Msg) error { return nc.publish(m.Subject, m.Reply, m.Data) }

func (nc *Conn) publish(subj, reply string, data []byte) error {
	if subj == "" || strings.ContainsAny(subj, " \t\r\n") {
		return ErrBadSubject
	}
	if reply != "" {
		reply += " "
	}
	b := append(append([]byte{}, data...), '\r', '\n')
	return nc.send(fmt.Sprintf("PUB %s %s%d\r\n", subj, reply, len(data)), b...)
}

func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.QueueSubscribe(subj, "", cb)
}

func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if subj == "" || strings.ContainsAny(subj, " \t\r\n") {
		return nil, ErrBadSubject
	}
	s := &Subscription{Subject: subj, Queue: queue, conn: nc, cb: cb, ch: make(chan *Msg, 65536)}
	nc.mu.Lock()
	nc.next++
	s.sid = nc.next
	nc.subs[s.sid] = s
	q := queue
	if q != "" {
		q += " "
	}
	err := nc.sendLocked(fmt.Sprintf("SUB %s %s%d\r\n", subj, q, s.sid), nil)
	nc.mu.Unlock()
	if err != nil {
		return nil, err
	}
	if cb != nil {
		go func() {
			for m := range s.ch {
				cb(m)
			}
		}()
	}
	return s, nil
}

func (nc *Conn) RequestWithContext(ctx context.Context, subj string, data []byte) (*Msg, error) {
	inbox := fmt.Sprintf("_INBOX.%x.%x", rand.Int63(), rand.Int63())
	s, err := nc.QueueSubscribe(inbox, "", nil)
	if err != nil {
		return nil, err
	}
	defer s.Unsubscribe()
	if err := nc.publish(subj, inbox, data); err != nil {
		return nil, err
	}
	select {
	case m := <-s.ch:
		if m.Header["Status"] != nil {
			return nil, ErrNoResponders
		}
		return m, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (nc *Conn) RequestMsgWithContext(ctx context.Context, m *Msg) (*Msg, error) {
	return nc.RequestWithContext(ctx, m.Subject, m.Data)
}

func (nc *Conn) Request(subj string, data []byte, timeout time.Duration) (*Msg, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	m, err := nc.RequestWithContext(ctx, subj, data)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return m, err
}

func (nc *Conn) Flush() error {
	ch := make(chan struct{})
	nc.mu.Lock()
	nc.pongs = append(nc.pongs, ch)
	err := nc.sendLocked("PING\r\n", nil)
	nc.mu.Unlock()
	if err != nil {
		return err
	}
	select {
	case <-ch:
		return nil
	case <-time.After(5 * time.Second):
		return ErrTimeout
	}
}

func (nc *Conn) IsClosed() bool { nc.mu.Lock(); defer nc.mu.Unlock(); return nc.closed }

func (nc *Conn) Close() {
	nc.mu.Lock()
	defer nc.mu.Unlock()
	if !nc.closed {
		nc.closed = true
		nc.c.Close()
	}
}

// Drain unsubscribes and closes.
func (nc *Conn) Drain() error {
	nc.mu.Lock()
	var subs []*Subscription
	for _, s := range nc.subs {
		subs = append(subs, s)
	}
	nc.mu.Unlock()
	for _, s := range subs {
		if err := s.Unsubscribe(); err != nil {
			return err
		}
	}
	err := nc.Flush()
	nc.Close()
	return err
}

// Respond publishes to the reply subject of the message.
func (m *Msg) Respond(data []byte) error {
	if m.Sub == nil {
		return errors.New("nats: message is not bound to subscription/connection")
	}
	if m.Reply == "" {
		return errors.New("nats: message does not have a reply")
	}
	return m.Sub.conn.Publish(m.Reply, data)
}
