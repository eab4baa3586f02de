// Package hx is the harness of the server's life (C26): how it starts, goes on
// and ends. Signals come from the harness (zz/vsignal).
package hx

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
	vsignal "github.com/iand/starbow/internal/zz/vsignal"
)

const limit = 12 * time.Second // far above what is needed

// Main runs the harness.
func Main(demo func()) {
	switch os.Getenv("VW_DEMO") {
	case "demo":
		demo()
		return
	case "new":
		defaults(server.New())
		return
	case "literal":
		defaults(&server.Server{})
		return
	}
	vlib.Main(func(w *vlib.W) {
		ends(w)
		histories(w)
		refusals(w)
		again(w)
		process(w)
	})
}

// tap is a backend whose calls the harness sees first.
type tap struct {
	*bufmap.Map
	life *life
}

func (t *tap) Update(k uint64, fn func(data []byte, init bool) error) error {
	if f := t.life.take(&t.life.onUpdate); f != nil {
		f()
	}
	return t.Map.Update(k, fn)
}

func (t *tap) Get(k uint64, buf []byte) bool {
	if f := t.life.take(&t.life.onGet); f != nil {
		f()
	}
	return t.Map.Get(k, buf)
}

// config is how a server is set up.
type config struct {
	net    string // as given to the server
	kind   string // unix, tcp, tcp6
	lit    bool   // a literal Server instead of New
	logger bool   // with a logger of the harness
	stores int
}

func (c config) String() string {
	return fmt.Sprintf("net=%q kind=%s literal=%v logger=%v stores=%d", c.net, c.kind, c.lit, c.logger, c.stores)
}

// life is one server from its start to its end.
type life struct {
	w    *vlib.W
	cfg  config
	srv  *server.Server
	addr string
	end  chan error
	cl   *http.Client

	mu              sync.Mutex
	onUpdate, onGet func()
	onLog           func()
	unasked         os.Signal // a signal that nobody asked for although the server had long been answering
	logged          []string
	counts          map[string]int
	conns           []net.Conn
}

func (l *life) take(p *func()) func() {
	l.mu.Lock()
	defer l.mu.Unlock()
	f := *p
	*p = nil
	return f
}

func (l *life) set(p *func(), f func()) {
	l.mu.Lock()
	*p = f
	l.mu.Unlock()
}

func (l *life) Printf(format string, v ...interface{}) {
	l.mu.Lock()
	l.logged = append(l.logged, fmt.Sprintf(format, v...))
	l.mu.Unlock()
	if f := l.take(&l.onLog); f != nil {
		f()
	}
}

var serial int

// address picks an address nobody listens on.
func address(kind string) (string, error) {
	if kind == "unix" {
		serial++
		a := filepath.Join(dir(), fmt.Sprintf("l%d_%d.sock", os.Getpid(), serial))
		os.Remove(a)
		return a, nil
	}
	host := "127.0.0.1:0"
	if kind == "tcp6" {
		host = "[::1]:0"
	}
	ln, err := net.Listen(kind, host)
	if err != nil {
		return "", err
	}
	defer ln.Close()
	return ln.Addr().String(), nil
}

func dir() string {
	if d := os.Getenv("VW_DIR"); d != "" {
		return d
	}
	return os.TempDir()
}

func (c config) network() string {
	if c.net == "" {
		return "tcp"
	}
	return c.net
}

// begin sets a server up without starting it.
func begin(w *vlib.W, c config) (*life, error) {
	vsignal.Reset()
	vsignal.OnNotify = nil
	a, err := address(c.kind)
	if err != nil {
		return nil, err
	}
	l := &life{w: w, cfg: c, addr: a, counts: map[string]int{}}
	if c.lit {
		l.srv = &server.Server{}
	} else {
		l.srv = server.New()
	}
	l.srv.Net, l.srv.Addr = c.net, a
	if c.logger {
		l.srv.Logger = l
	} else if c.lit {
		l.srv.Logger = nil
	}
	for i := 0; i < c.stores; i++ {
		sch := collation.Schema{Name: fmt.Sprintf("c%d", i), Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		coll, err := sch.Compile()
		if err != nil {
			return nil, err
		}
		l.srv.Stores = append(l.srv.Stores, storage.Store{Backend: &tap{bufmap.New(50, coll.Size()), l}, Collator: coll})
	}
	l.cl = &http.Client{Timeout: limit, Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, c.network(), l.addr)
	}}}
	return l, nil
}

// start runs Serve.
func (l *life) start() {
	l.end = make(chan error, 1)
	go func(end chan error) { end <- l.srv.Serve() }(l.end)
}

// running reports an error when Serve has returned.
func (l *life) running() error {
	select {
	case err := <-l.end:
		l.end <- err
		return fmt.Errorf("Serve has returned (%v) although no terminating signal came", err)
	default:
		return nil
	}
}

// up waits until the server answers.
func (l *life) up() error {
	t := time.Now()
	for d := 100 * time.Microsecond; ; d = d * 3 / 2 {
		if err := l.running(); err != nil {
			return err
		}
		c, err := l.dial()
		if err == nil {
			c.Close()
			return nil
		}
		if time.Since(t) > limit {
			return fmt.Errorf("the server does not listen on %s %s: %v", l.cfg.network(), l.addr, err)
		}
		if d > 20*time.Millisecond {
			d = 20 * time.Millisecond
		}
		time.Sleep(d)
	}
}

func (l *life) dial() (net.Conn, error) { return net.DialTimeout(l.cfg.network(), l.addr, limit) }

func (l *life) do(method, path, body string) (int, string, error) {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req, err := http.NewRequest(method, "http://x"+path, rd)
	if err != nil {
		return 0, "", err
	}
	res, err := l.cl.Do(req)
	if err != nil {
		return 0, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, string(b), err
}

func (l *life) post(k string) error {
	code, body, err := l.do("POST", "/obs", "1\tk="+k)
	if err != nil || code != 200 {
		return fmt.Errorf("a post is answered with status %d %q, error %v", code, body, err)
	}
	l.counts[k]++
	return nil
}

// health posts and queries everything.
func (l *life) health() error {
	if err := l.running(); err != nil {
		return err
	}
	if err := l.post("a"); err != nil {
		return err
	}
	for i := 0; i <= l.cfg.stores; i++ {
		for _, k := range []string{"a", "b", "z"} {
			code, body, err := l.do("GET", fmt.Sprintf("/collation/c%d?q=%s", i, url.QueryEscape("select count(*) where k='"+k+"'")), "")
			if err != nil {
				return fmt.Errorf("query: %v", err)
			}
			l.w.Eval(1)
			if i == l.cfg.stores {
				if code != 404 {
					return fmt.Errorf("a query of a collation that is not there is answered with status %d %q", code, body)
				}
				continue
			}
			want := "k=" + k + "\n"
			if n := l.counts[k]; n > 0 {
				want += fmt.Sprintf("count(*)=%d\n", n)
			}
			if code != 200 || body != want {
				return fmt.Errorf("the query of c%d for %s is answered with status %d %q, not %q", i, k, code, body, want)
			}
		}
	}
	return l.running()
}

// ended waits for Serve to return.
func (l *life) ended() error {
	defer func() {
		for _, c := range l.conns {
			c.Close()
		}
	}()
	t := time.Now()
	for time.Since(t) < limit {
		select {
		case err := <-l.end:
			if err != nil {
				return fmt.Errorf("Serve returned an error after a terminating signal: %v", err)
			}
			return nil
		case <-time.After(time.Second):
			l.w.Tick()
		}
	}
	return vlib.Failf("signal lost", "Serve did not return within %v of a terminating signal", limit)
}

var terminating = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}

// signals that do not end a process by default
var harmless = []os.Signal{syscall.SIGCHLD, syscall.SIGCONT, syscall.SIGURG, syscall.SIGWINCH}

// moments at which the terminating signal is delivered. Each returns whether
// the signal was handled (otherwise the process has ended by it).
var moments = []struct {
	name string
	run  func(l *life, sig os.Signal) (bool, error)
}{
	{"notify", func(l *life, sig os.Signal) (bool, error) {
		done := make(chan bool, 1)
		var once sync.Once
		vsignal.OnNotify = func() { once.Do(func() { done <- vsignal.Deliver(sig) }) }
		l.start()
		select {
		case h := <-done:
			vsignal.OnNotify = nil
			return h, nil
		case <-time.After(limit):
			vsignal.OnNotify = nil
			return vsignal.Deliver(sig), l.running()
		}
	}},
	{"log", func(l *life, sig os.Signal) (bool, error) {
		if !l.cfg.logger {
			return false, nil
		}
		handled := make(chan bool, 1)
		l.set(&l.onLog, func() { handled <- vsignal.Deliver(sig) })
		l.start()
		if err := l.up(); err != nil {
			select {
			case h := <-handled:
				return h, nil
			default:
				return false, err
			}
		}
		select {
		case h := <-handled:
			return h, nil
		case <-time.After(100 * time.Millisecond): // nothing is logged
			return deliver(l, sig), nil
		}
	}},
	{"listening", func(l *life, sig os.Signal) (bool, error) {
		l.start()
		if err := l.up(); err != nil {
			return false, err
		}
		return vsignal.Deliver(sig), nil // may come before anybody is registered
	}},
	{"idle", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil {
			return false, err
		}
		return deliver(l, sig), nil
	}},
	{"in a post", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil || l.cfg.stores == 0 {
			return false, err
		}
		handled := make(chan bool, 1)
		l.set(&l.onUpdate, func() { handled <- deliver(l, sig) })
		go l.do("POST", "/obs", "1\tk=a")
		return <-handled, nil
	}},
	{"in a query", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil || l.cfg.stores == 0 {
			return false, err
		}
		handled := make(chan bool, 1)
		l.set(&l.onGet, func() { handled <- deliver(l, sig) })
		go l.do("GET", "/collation/c0?q="+url.QueryEscape("select count(*) where k='a'"), "")
		return <-handled, nil
	}},
	{"half a request", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil {
			return false, err
		}
		c, err := l.dial()
		if err != nil {
			return false, err
		}
		l.conns = append(l.conns, c)
		io.WriteString(c, "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n1\tk=")
		return deliver(l, sig), nil
	}},
	{"idle connection", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil {
			return false, err
		}
		c, err := l.dial()
		if err != nil {
			return false, err
		}
		l.conns = append(l.conns, c)
		return deliver(l, sig), nil
	}},
	{"twice", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil {
			return false, err
		}
		return deliver(l, sig) && deliver(l, sig), nil
	}},
	{"after others", func(l *life, sig os.Signal) (bool, error) {
		if err := l.healthy(); err != nil {
			return false, err
		}
		for _, s := range harmless {
			vsignal.Deliver(s)
		}
		return deliver(l, sig), nil
	}},
}

// deliver delivers a signal.
// deliver delivers the signal once somebody has asked for it, which a server
// that answers requests does sooner or later.
func deliver(l *life, sig os.Signal) bool {
	for t := time.Now(); !vsignal.Asked(sig) && time.Since(t) < limit; time.Sleep(2 * time.Millisecond) {
		l.w.Tick()
	}
	if !vsignal.Deliver(sig) {
		l.mu.Lock()
		l.unasked = sig
		l.mu.Unlock()
		return false
	}
	return true
}

func (l *life) healthy() error {
	l.start()
	if err := l.up(); err != nil {
		return err
	}
	return l.health()
}

func configs() (cs []config) {
	for _, k := range []struct{ net, kind string }{{"unix", "unix"}, {"tcp", "tcp"}, {"", "tcp"}, {"tcp4", "tcp4"}, {"tcp6", "tcp6"}, {"tcp", "tcp6"}} {
		if k.kind == "tcp6" {
			if _, err := address("tcp6"); err != nil {
				continue
			}
		}
		for _, lit := range []bool{false, true} {
			for _, lg := range []bool{true, false} {
				for _, n := range []int{0, 1, 3} {
					cs = append(cs, config{k.net, k.kind, lit, lg, n})
				}
			}
		}
	}
	return
}

// ends: every configuration, every moment, both signals.
func ends(w *vlib.W) {
	for _, c := range configs() {
		for _, m := range moments {
			for _, sig := range terminating {
				c, m, sig := c, m, sig
				w.Case(fmt.Sprintf("end: %v moment=%s signal=%d", c, m.name, int(sig)), func() error {
					l, err := begin(w, c)
					if err != nil {
						return err
					}
					w.Eval(1)
					w.NT(1)
					handled, err := m.run(l, sig)
					if err != nil {
						return err
					}
					if !handled {
						// the process has ended, or there is nothing to do at this moment
						if l.end != nil {
							l.stop()
						}
						if l.unasked != nil {
							return vlib.Failf("signal unasked", "the server answers requests but never asks for the signal %v, so that Serve cannot return at it", l.unasked)
						}
						return nil
					}
					return l.ended()
				})
			}
		}
	}
}

// stop ends a server whose process would have ended by the default action.
func (l *life) stop() {
	for i := 0; i < 2000; i++ {
		vsignal.Deliver(syscall.SIGTERM)
		select {
		case <-l.end:
			return
		case <-time.After(time.Duration(i) * time.Millisecond / 10):
		}
		if i > 100 {
			return
		}
	}
}

// events that the server outlives.
var events = []struct {
	name string
	run  func(l *life) error
}{
	{"post", func(l *life) error { return l.post("b") }},
	{"bad post", func(l *life) error {
		code, _, err := l.do("POST", "/obs", "x")
		if err == nil && code == 200 {
			return fmt.Errorf("a malformed line is accepted")
		}
		return err
	}},
	{"bad query", func(l *life) error {
		code, _, err := l.do("GET", "/collation/c0?q=x", "")
		if err == nil && code == 200 {
			return fmt.Errorf("a malformed query is accepted")
		}
		return err
	}},
	{"connect and close", func(l *life) error {
		c, err := l.dial()
		if err == nil {
			c.Close()
		}
		return err
	}},
	{"garbage", func(l *life) error {
		c, err := l.dial()
		if err != nil {
			return err
		}
		io.WriteString(c, "\x00\x01garbage\r\n\r\n")
		c.SetReadDeadline(time.Now().Add(limit))
		io.Copy(io.Discard, c)
		return c.Close()
	}},
	{"half a post and close", func(l *life) error {
		c, err := l.dial()
		if err != nil {
			return err
		}
		io.WriteString(c, "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n1\tq=")
		return c.Close()
	}},
	{"no answer wanted", func(l *life) error {
		c, err := l.dial()
		if err != nil {
			return err
		}
		io.WriteString(c, "GET /none HTTP/1.1\r\nHost: x\r\n\r\n")
		return c.Close()
	}},
	{"panic in a store", func(l *life) error {
		if l.cfg.stores == 0 {
			return nil
		}
		l.set(&l.onUpdate, func() { panic("the harness panics in a store") })
		code, _, err := l.do("POST", "/obs", "1\tk=b")
		if err == nil && code == 200 {
			return fmt.Errorf("a post that ended in a panic is reported as a success")
		}
		return nil
	}},
	{"other signals", func(l *life) error {
		for _, s := range harmless {
			vsignal.Deliver(s)
		}
		return nil
	}},
	{"second server", func(l *life) error {
		s := server.New()
		s.Net, s.Addr, s.Logger = l.srv.Net, l.addr, nil
		return refused(l.w, s)
	}},
	{"kept connection", func(l *life) error {
		c, err := l.dial()
		if err != nil {
			return err
		}
		l.conns = append(l.conns, c)
		r := bufio.NewReader(c)
		for i := 0; i < 2; i++ {
			io.WriteString(c, "GET /none HTTP/1.1\r\nHost: x\r\n\r\n")
			c.SetReadDeadline(time.Now().Add(limit))
			res, err := http.ReadResponse(r, nil)
			if err != nil {
				return err
			}
			io.Copy(io.Discard, res.Body)
			if res.StatusCode != 404 {
				return fmt.Errorf("a path that is not there is answered with status %d", res.StatusCode)
			}
		}
		return nil
	}},
	{"request in a request", func(l *life) error {
		if l.cfg.stores == 0 {
			return nil
		}
		inside, leave, out := make(chan bool), make(chan bool), make(chan error, 1)
		l.set(&l.onUpdate, func() { inside <- true; <-leave })
		go func() {
			code, body, err := l.do("POST", "/obs", "1\tk=b")
			if err == nil && code != 200 {
				err = fmt.Errorf("a post is answered with status %d %q", code, body)
			}
			out <- err
		}()
		select {
		case <-inside:
		case err := <-out:
			return fmt.Errorf("a post did not reach its store: %v", err)
		}
		err := l.health()
		leave <- true
		if e := <-out; err == nil {
			err = e
		}
		l.counts["b"]++
		return err
	}},
}

// histories: sequences of events, with a health check after each, then the end.
func histories(w *vlib.W) {
	depth := 3
	if w.Thorough {
		depth = 4
	}
	c := config{"unix", "unix", false, true, 2}
	vlib.SeqsUpTo(len(events), depth, func(s []int) {
		s = append([]int(nil), s...)
		var names []string
		for _, e := range s {
			names = append(names, events[e].name)
		}
		sig := terminating[len(names)%2]
		w.Case("history: "+strings.Join(names, ", "), func() error {
			l, err := begin(w, c)
			if err != nil {
				return err
			}
			if err := l.healthy(); err != nil {
				return err
			}
			for _, e := range s {
				if err := events[e].run(l); err != nil {
					return fmt.Errorf("%s: %v", events[e].name, err)
				}
				if err := l.health(); err != nil {
					return fmt.Errorf("after %s: %v", events[e].name, err)
				}
				w.NT(1)
			}
			if !vsignal.Deliver(sig) {
				l.stop()
				return nil
			}
			return l.ended()
		})
	})
	// the first clients of a server that is just starting: they come while it logs
	// or registers for signals, which takes a while
	for _, c := range configs() {
		for _, moment := range []string{"log", "notify"} {
			c, moment := c, moment
			if moment == "log" && !c.logger {
				continue
			}
			w.Case(fmt.Sprintf("first: %v moment=%s", c, moment), func() error {
				l, err := begin(w, c)
				if err != nil {
					return err
				}
				var early net.Conn
				dialled := make(chan bool, 1)
				var once sync.Once
				visit := func() {
					once.Do(func() {
						if c, err := l.dial(); err == nil {
							io.WriteString(c, "POST /obs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 5\r\n\r\n1\tk=b")
							early = c
							time.Sleep(30 * time.Millisecond)
						}
						dialled <- true
					})
				}
				if moment == "log" {
					l.set(&l.onLog, visit)
				} else {
					vsignal.OnNotify = visit
				}
				l.start()
				if err := l.up(); err != nil {
					return err
				}
				select {
				case <-dialled:
				case <-time.After(100 * time.Millisecond):
				}
				vsignal.OnNotify = nil
				once.Do(func() {})
				if early != nil {
					defer early.Close()
					early.SetReadDeadline(time.Now().Add(limit))
					res, err := http.ReadResponse(bufio.NewReader(early), nil)
					if err != nil {
						return fmt.Errorf("the first request is not answered: %v", err)
					}
					if res.StatusCode != 200 {
						return fmt.Errorf("the first request is answered with status %d", res.StatusCode)
					}
					l.counts["b"]++
					w.NT(1)
				}
				if err := l.health(); err != nil {
					return err
				}
				if !vsignal.Deliver(syscall.SIGTERM) {
					l.stop()
					return nil
				}
				return l.ended()
			})
		}
	}
}

// refused runs a server that cannot listen.
func refused(w *vlib.W, s *server.Server) error {
	end := make(chan error, 1)
	go func() { end <- s.Serve() }()
	t := time.Now()
	for time.Since(t) < limit {
		select {
		case err := <-end:
			if err == nil {
				return fmt.Errorf("Serve returned no error although it could not listen on %s %q", s.Net, s.Addr)
			}
			if strings.TrimSpace(err.Error()) == "" {
				return fmt.Errorf("Serve returned an error without a text")
			}
			return nil
		case <-time.After(time.Second):
			w.Tick()
		}
	}
	return fmt.Errorf("Serve does not report that it cannot listen on %s %q", s.Net, s.Addr)
}

// bad lists addresses that cannot be listened on.
func bad() (list [][2]string) {
	return [][2]string{
		{"tcp", "127.0.0.1"}, {"tcp", "127.0.0.1:65536"}, {"tcp", "127.0.0.1:-1"}, {"tcp", "127.0.0.1:no-such-port"},
		{"tcp", "[::1"}, {"tcp", "198.51.100.7:1234"}, {"tcp4", "[::1]:0"}, {"tcp6", "127.0.0.1:0"}, {"", "127.0.0.1:99999"},
		{"udp", "127.0.0.1:0"}, {"nosuch", "127.0.0.1:0"}, {"TCP", "127.0.0.1:0"}, {"unix", filepath.Join(dir(), "none", "x.sock")},
		{"unix", filepath.Join(dir(), strings.Repeat("x", 200))}, {"unixgram", filepath.Join(dir(), "g.sock")},
	}
}

// refusals: servers that cannot listen say so, and can be started elsewhere afterwards.
func refusals(w *vlib.W) {
	for _, b := range bad() {
		for _, lit := range []bool{false, true} {
			b, lit := b, lit
			w.Case(fmt.Sprintf("refused: %s %q literal=%v", b[0], strings.TrimPrefix(b[1], dir()), lit), func() error {
				l, err := begin(w, config{"unix", "unix", lit, true, 1})
				if err != nil {
					return err
				}
				l.srv.Net, l.srv.Addr = b[0], b[1]
				if err := refused(w, l.srv); err != nil {
					return err
				}
				w.Eval(1)
				w.NT(1)
				l.srv.Net, l.srv.Addr = "unix", l.addr
				if err := l.healthy(); err != nil {
					return fmt.Errorf("after a start that failed: %v", err)
				}
				if !vsignal.Deliver(syscall.SIGINT) {
					l.stop()
					return nil
				}
				return l.ended()
			})
		}
	}
}

// again: a server is started again elsewhere after its end, with what it holds.
func again(w *vlib.W) {
	for _, n := range []int{1, 3} {
		for _, sig := range terminating {
			n, sig := n, sig
			w.Case(fmt.Sprintf("again: stores=%d signal=%d", n, int(sig)), func() error {
				l, err := begin(w, config{"unix", "unix", false, true, n})
				if err != nil {
					return err
				}
				for round := 0; round < 3; round++ {
					if l.addr, err = address("unix"); err != nil {
						return err
					}
					l.srv.Addr = l.addr
					if err := l.healthy(); err != nil {
						return fmt.Errorf("start %d: %v", round+1, err)
					}
					w.NT(1)
					if !vsignal.Deliver(sig) {
						l.stop()
						return nil
					}
					if err := l.ended(); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// defaults runs s as it is.
func defaults(s *server.Server) {
	if err := s.Serve(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// process runs the demo, and servers with the defaults, as processes of their own.
func process(w *vlib.W) {
	run := func(what string) (*exec.Cmd, *bytes.Buffer, chan error, error) {
		exe, err := os.Executable()
		if err != nil {
			return nil, nil, nil, err
		}
		var out bytes.Buffer
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), "VW_DEMO="+what)
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return nil, nil, nil, err
		}
		end := make(chan error, 1)
		go func() { end <- cmd.Wait() }()
		return cmd, &out, end, nil
	}
	await := func(end chan error) (error, bool) {
		t := time.Now()
		for time.Since(t) < limit {
			select {
			case err := <-end:
				return err, true
			case <-time.After(time.Second):
				w.Tick()
			}
		}
		return nil, false
	}
	w.Case("process", func() error {
		ln, err := net.Listen("tcp", ":2525")
		if err != nil {
			w.Note("process", "port 2525 is in use: not run")
			return nil
		}
		for _, what := range []string{"demo", "new", "literal"} {
			_, out, end, err := run(what)
			if err != nil {
				ln.Close()
				return err
			}
			e, ok := await(end)
			if !ok {
				ln.Close()
				return fmt.Errorf("%s: goes on although its port is taken", what)
			}
			if e == nil || out.Len() == 0 {
				ln.Close()
				return vlib.Failf("silent "+what, "%s: ends with %v and the words %q when its port is taken", what, e, out.String())
			}
			w.Eval(1)
			w.NT(1)
		}
		ln.Close()
		reach := reachable()
		w.Max("addresses_of_this_machine", len(reach))
		for i, what := range []string{"demo", "demo", "new", "new", "literal", "literal"} {
			sig := terminating[i%2]
			cmd, out, end, err := run(what)
			if err != nil {
				return err
			}
			defer cmd.Process.Kill()
			up := false
			for i := 0; i < 4000 && !up; i++ {
				select {
				case e := <-end:
					if ln, err := net.Listen("tcp", ":2525"); err != nil {
						return nil // somebody else has taken the port
					} else {
						ln.Close()
					}
					return fmt.Errorf(what+" ended: %v, %q", e, out.String())
				default:
				}
				if c, err := net.Dial("tcp", "127.0.0.1:2525"); err == nil {
					c.Close()
					up = true
				}
				time.Sleep(10 * time.Millisecond)
				w.Tick()
			}
			if !up {
				return fmt.Errorf(what + " does not listen on port 2525")
			}
			for _, host := range reach {
				c, err := net.DialTimeout("tcp", net.JoinHostPort(host, "2525"), 10*time.Second)
				if err != nil {
					cmd.Process.Kill()
					await(end) // it must not be in the way of a second look
					return fmt.Errorf(what+" does not listen on port 2525 of %s: %v", host, err)
				}
				c.Close()
				w.Eval(1)
			}
			time.Sleep(50 * time.Millisecond)
			cmd.Process.Signal(sig)
			e, ok := await(end)
			if !ok {
				return fmt.Errorf(what+" goes on after signal %v", sig)
			}
			if ee, is := e.(*exec.ExitError); e != nil && (!is || !ee.Sys().(syscall.WaitStatus).Signaled()) {
				return fmt.Errorf(what+" ends with %v after signal %v: %s", e, sig, out.String())
			}
			w.Eval(1)
		}
		return nil
	})
}

// reachable lists the addresses of this machine at which a listener on a port
// of all addresses is reached.
func reachable() (out []string) {
	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		return nil
	}
	defer ln.Close()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			c.Close()
		}
	}()
	_, port, _ := net.SplitHostPort(ln.Addr().String())
	hosts := []string{"127.0.0.1", "127.0.0.2", "::1", "localhost"}
	if as, err := net.InterfaceAddrs(); err == nil {
		for _, a := range as {
			if n, ok := a.(*net.IPNet); ok && !n.IP.IsLinkLocalUnicast() {
				hosts = append(hosts, n.IP.String())
			}
		}
	}
	for _, h := range hosts {
		if c, err := net.DialTimeout("tcp", net.JoinHostPort(h, port), 2*time.Second); err == nil {
			c.Close()
			out = append(out, h)
		}
	}
	return out
}
