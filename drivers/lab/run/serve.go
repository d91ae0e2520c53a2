package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
)

// Ran is what a server process did.
type Ran struct {
	Early   bool                `json:"early"`   // it ended before it was told to
	Listens []string            `json:"listens"` // the addresses it listens on
	Brokers []string            `json:"brokers"` // the brokers it serves
	Probes  map[string][]string `json:"probes"`  // what a call runs into
	Stopped bool                `json:"stopped"` // it ended when told to
	Out     string              `json:"out"`
}

var (
	portMu   sync.Mutex
	portNext int
)

// freePort: below the ports given to clients, so that none of those takes it.
func freePort(base int) int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		portNext++
		p := 11000 + base*2000 + portNext%2000
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
}

// listening lists the ports a process listens on.
func listening(pid int) map[int]bool {
	inodes := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	ps := map[int]bool{}
	for _, n := range []string{"tcp", "tcp6"} {
		b, _ := ioutil.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, n))
		sc := bufio.NewScanner(bytes.NewReader(b))
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			if len(f) < 10 || f[3] != "0A" || !inodes[f[9]] {
				continue
			}
			p, err := strconv.ParseInt(f[1][strings.LastIndex(f[1], ":")+1:], 16, 32)
			if err == nil {
				ps[int(p)] = true
			}
		}
	}
	return ps
}

func (b *broker) served() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.cs {
		if len(c.subs) > 0 {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (l *lab) serve(c *Call, id string, base int, bin string, res *Res) {
	ran := &Ran{Listens: []string{}, Brokers: []string{}, Probes: map[string][]string{}}
	res.Ran = ran
	// addresses
	port := map[string]int{}
	name := map[int]string{}
	var busy net.Listener
	brokers := map[string]*broker{}
	defer func() {
		if busy != nil {
			busy.Close()
		}
		for _, b := range brokers {
			b.close()
		}
	}()
	portOf := func(a string) int {
		if p, ok := port[a]; ok {
			return p
		}
		if a == "default" {
			return 5060
		}
		p := freePort(base)
		for busy == nil && a == "busy" {
			ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err != nil {
				p = freePort(base)
				continue
			}
			busy = ln
		}
		for strings.HasPrefix(a, "nat") {
			b, err := newBroker(fmt.Sprintf("127.0.0.1:%d", p))
			if err == nil {
				brokers[a] = b
				break
			}
			p = freePort(base)
		}
		port[a], name[p] = p, a
		return p
	}
	addr := func(a string) string {
		switch a {
		case "":
			return ""
		case "bad":
			return "127.0.0.1:notaport"
		}
		return fmt.Sprintf("127.0.0.1:%d", portOf(a))
	}
	logf := filepath.Join(os.TempDir(), fmt.Sprintf("serve-%d-%s.log", os.Getpid(), id))
	defer os.Remove(logf)
	env := []string{"VERIF_LOG=" + logf, "PATH=" + os.Getenv("PATH")}
	for k, v := range c.Env {
		switch {
		case k == "PORT" && v != "":
			env = append(env, fmt.Sprintf("PORT=%d", portOf(v)))
		case strings.HasSuffix(k, "_ADDR"):
			env = append(env, k+"="+addr(v))
		default:
			env = append(env, k+"="+v)
		}
	}
	var args []string
	for k, v := range c.Fl {
		if k != "debug" {
			v = addr(v)
		}
		args = append(args, "-"+k+"="+v)
	}
	sort.Strings(args)
	for _, r := range c.Reach {
		if r.A == "default" {
			// one server at a time on the default port
			f, err := os.OpenFile(filepath.Join(os.TempDir(), "serve-5060.lock"), os.O_CREATE|os.O_RDWR, 0o644)
			die(err)
			defer f.Close()
			die(syscall.Flock(int(f.Fd()), syscall.LOCK_EX))
			name[5060] = "default"
			port["default"] = 5060
		}
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = env
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	die(cmd.Start())
	gone := make(chan struct{})
	go func() { cmd.Wait(); close(gone) }()
	defer func() {
		cmd.Process.Kill()
		<-gone
		ran.Out = out.String()
		if len(ran.Out) > 800 {
			ran.Out = ran.Out[len(ran.Out)-800:]
		}
	}()
	ended := func(d time.Duration) bool {
		select {
		case <-gone:
			return true
		case <-time.After(d):
			return false
		}
	}
	if c.Ends {
		if ran.Early = ended(15 * time.Second); !ran.Early {
			atomic.AddInt32(&stuck, 1)
		}
		return
	}
	want := map[int]bool{}
	for _, r := range c.Reach {
		if r.T != "nats" {
			want[portOf(r.A)] = true
		}
	}
	up := func() bool {
		got := listening(cmd.Process.Pid)
		for p := range want {
			if !got[p] {
				return false
			}
		}
		for _, r := range c.Reach {
			if r.T == "nats" && !brokers[r.A].served() {
				return false
			}
		}
		return true
	}
	end := time.Now().Add(15 * time.Second)
	for !up() && time.Now().Before(end) {
		if ended(5 * time.Millisecond) {
			ran.Early = true
			return
		}
	}
	if !time.Now().Before(end) {
		atomic.AddInt32(&stuck, 1)
	}
	settle := 60 * time.Millisecond
	if len(c.Reach) == 0 {
		settle = 250 * time.Millisecond
	}
	if ended(settle) {
		ran.Early = true
		return
	}
	ls := map[string]bool{}
	for p := range listening(cmd.Process.Pid) {
		n := name[p]
		if n == "" {
			n = fmt.Sprintf("port %d", p)
		}
		ls[n] = true
	}
	ran.Listens = sortedKeys(ls)
	bs := map[string]bool{}
	for n, b := range brokers {
		if b.served() {
			bs[n] = true
		}
	}
	ran.Brokers = sortedKeys(bs)
	// calls
	read := func() []string {
		b, _ := ioutil.ReadFile(logf)
		os.Remove(logf)
		return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	for _, r := range c.Reach {
		var client interface{}
		var err error
		switch r.T {
		case "debug":
			resp, err := http.Get("http://" + fmt.Sprintf("127.0.0.1:%d", portOf(r.A)) + "/debug/pprof/cmdline")
			if err != nil {
				ran.Probes["debug"] = []string{err.Error()}
				continue
			}
			resp.Body.Close()
			ran.Probes["debug"] = []string{fmt.Sprint(resp.StatusCode)}
			continue
		case "http":
			client, err = l.d.HTTPClient("http://" + fmt.Sprintf("127.0.0.1:%d", portOf(r.A)))
		case "grpc":
			gc, e := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", portOf(r.A)), grpc.WithInsecure())
			die(e)
			defer gc.Close()
			client, err = l.d.GRPCClient(gc)
		case "nats":
			nc, e := nats.Connect(fmt.Sprintf("127.0.0.1:%d", portOf(r.A)))
			die(e)
			defer nc.Close()
			client, err = l.d.NATSClient(nc)
		}
		die(err)
		for _, rpc := range c.Rpcs[r.T] {
			for try := 0; ; try++ {
				read()
				_, err, bad := invoke(client, rpc, ctx, l.d.Req[rpc]())
				if ctx.Err() != nil {
					atomic.AddInt32(&stuck, 1)
				}
				if bad != "" {
					res.Bad = bad
					return
				}
				lines := read()
				if err != nil && try < 20 && len(lines) == 1 {
					time.Sleep(50 * time.Millisecond)
					continue
				}
				if err != nil {
					lines = append(lines, err.Error())
				}
				ran.Probes[r.T+" "+rpc] = lines
				break
			}
		}
	}
	if ended(0) {
		ran.Early = true
		return
	}
	sig := syscall.SIGTERM
	if c.Stop == "INT" {
		sig = syscall.SIGINT
	}
	cmd.Process.Signal(sig)
	if ran.Stopped = ended(10 * time.Second); !ran.Stopped {
		atomic.AddInt32(&stuck, 1)
	}
}

type rpcsOf map[string][]string

func (h *rpcsOf) UnmarshalJSON(b []byte) error {
	if string(b) == "[]" {
		return nil
	}
	var m map[string][]string
	err := json.Unmarshal(b, &m)
	*h = m
	return err
}
