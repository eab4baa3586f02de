package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// slowBody is a request body that arrives in pieces; the client may stop
// before each.
type slowBody struct {
	data string
	n    int // bytes per piece
	err  error
}

func (b *slowBody) Close() error { return nil }

func (b *slowBody) Read(p []byte) (int, error) {
	vsched.Client()
	if b.data == "" {
		return 0, b.err
	}
	n := b.n
	if n > len(b.data) {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

// slowWriter is a client that may stop reading the answer.
type slowWriter struct {
	h    http.Header
	code int
	body strings.Builder
}

func (w *slowWriter) Header() http.Header { return w.h }

func (w *slowWriter) WriteHeader(code int) {
	vsched.Client()
	if w.code == 0 {
		w.code = code
	}
}

func (w *slowWriter) Write(p []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	vsched.Client()
	w.body.Write(p)
	vsched.Client()
	return len(p), nil
}

// stall is a request of a client that may stop anywhere.
type stall struct {
	name          string
	method, path  string
	ctype, body   string
	piece         int
	err           error
	obs           []cobs // what it counts when it is served whole
	mayCountFirst int    // how many of obs count even though the request fails
	code          int
}

func obsLine(o cobs) string {
	x := uint64(1) << o.bit
	return fmt.Sprintf("%d|k=%s|j=%s|x=%d|y=%d", 100+o.bit, o.k, o.j, x, 3*x)
}

// stalls are the requests; their observations are of groups whose names start
// with z.
func stalls(z string) (out []stall) {
	a, b := cobs{bit: 0, k: z + "a", j: z + "p"}, cobs{bit: 1, k: z + "b", j: z + "p"}
	n := cobs{bit: 2, k: z + "new", j: z + "q"}
	post := func(name string, ct string, piece int, obs ...cobs) {
		var ls []string
		for _, o := range obs {
			ls = append(ls, obsLine(o))
		}
		body := strings.Join(ls, "\n") + "\n"
		if ct == form {
			body = "data=" + url.QueryEscape(body)
		}
		out = append(out, stall{name: "post " + name, method: "POST", path: "/obs", ctype: ct, body: body, piece: piece, err: io.EOF, obs: obs, code: 200})
	}
	for _, piece := range []int{1, 7, 64, 4096} {
		post(fmt.Sprintf("raw by %d", piece), "", piece, a, b, n)
		post(fmt.Sprintf("form by %d", piece), form, piece, a, b, n)
	}
	post("plain", "text/plain", 5, n)
	out = append(out,
		stall{name: "post failing", method: "POST", path: "/obs", body: obsLine(a) + "\n" + obsLine(b) + "\n" + obsLine(n), piece: 3, err: io.ErrUnexpectedEOF, obs: []cobs{a, b, n}, mayCountFirst: 2, code: 500},
		stall{name: "post malformed", method: "POST", path: "/obs", body: obsLine(a) + "\nnonsense\n" + obsLine(b), piece: 4, err: io.EOF, obs: []cobs{a}, mayCountFirst: 1, code: 500},
		stall{name: "post of another type", method: "POST", path: "/obs", ctype: "application/json", body: "{}", piece: 1, err: io.EOF, code: 415},
		stall{name: "put", method: "PUT", path: "/obs", body: "x", piece: 1, err: io.EOF, code: 405},
		stall{name: "empty form", method: "POST", path: "/obs", ctype: form, body: "data=", piece: 1, err: io.EOF, code: 400},
		stall{name: "nowhere", method: "GET", path: "/nowhere", piece: 1, err: io.EOF, code: 404},
	)
	for c, k := range []string{"a", "p"} {
		q := url.QueryEscape(fmt.Sprintf("select count(*), sum(x), max(x), sum(y), min(y) where %s='%s'", []string{"k", "j"}[c], k))
		out = append(out,
			stall{name: "query " + cnames[c], method: "GET", path: "/collation/" + cnames[c] + "?q=" + q, piece: 1, err: io.EOF, code: 200},
			stall{name: "posted query " + cnames[c], method: "POST", path: "/collation/" + cnames[c], ctype: form, body: "q=" + q, piece: 9, err: io.EOF, code: 200})
	}
	out = append(out,
		stall{name: "bad query", method: "GET", path: "/collation/one?q=x", piece: 1, err: io.EOF, code: 400},
		stall{name: "unknown collation", method: "GET", path: "/collation/none?q=" + url.QueryEscape("select count(*) where k='a'"), piece: 1, err: io.EOF, code: 404})
	return
}

func (s stall) send() *slowWriter {
	w := &slowWriter{h: http.Header{}}
	req := vhttp.Request(ctxBg, s.method, s.path, s.ctype, &slowBody{s.body, s.piece, s.err})
	srv.ServeHTTP(w, req)
	if w.code == 0 {
		w.code = 200
	}
	return w
}

// counted is the set of observations a collation holds for a key.
func counted(c int, k string) (uint64, error) {
	q := creq{coll: c, key: k}
	return q.answer(q.send())
}

// stalledClients: one client stops at every point at which the server depends on
// it; the others must be served, whatever they ask for.
func stalledClients(w *vlib.W) {
	pre := []cobs{{bit: 40, k: "a", j: "p"}, {bit: 41, k: "b", j: "q"}}
	var sc []*vsched.Scenario
	// others are requests served whole while the first has stopped
	var others []func() error
	addOther := func(f func() error) { others = append(others, f) }
	for i, o := range []cobs{{bit: 10, k: "a", j: "p"}, {bit: 11, k: "new", j: "q"}, {bit: 12, k: "c", j: "r"}} {
		o, fm := o, i == 1
		addOther(func() error {
			ct, body := "", obsLine(o)+"\n"
			if fm {
				ct, body = form, "data="+url.QueryEscape(body)
			}
			if r := vhttp.Do(srv, "POST", "/obs", ct, strings.NewReader(body)); r.Code != 200 {
				return fmt.Errorf("a post is answered with status %d %s", r.Code, r.Body)
			}
			for c, k := range []string{o.k, o.j} {
				got, err := counted(c, k)
				if err != nil {
					return err
				}
				if got>>o.bit&1 == 0 {
					return fmt.Errorf("a query does not answer with the observation just posted: %b", got)
				}
			}
			return nil
		})
	}
	addOther(func() error {
		if r := vhttp.Do(srv, "GET", "/collation/one?q=bad", "", nil); r.Code != 400 {
			return fmt.Errorf("bad query: status %d", r.Code)
		}
		if r := vhttp.Do(srv, "POST", "/obs", "image/png", strings.NewReader("x")); r.Code != 415 {
			return fmt.Errorf("bad type: status %d", r.Code)
		}
		if r := vhttp.Post(srv, "nonsense"); r.Code < 400 {
			return fmt.Errorf("nonsense: status %d", r.Code)
		}
		_, err := counted(0, "a")
		return err
	})
	mk := func(s stall, second *stall) *vsched.Scenario {
		name := s.name
		if second != nil {
			name += " and " + second.name
		}
		return &vsched.Scenario{Name: name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			cfresh()
			if r := (creq{post: pre}).send(); r.Code != 200 {
				panic(r.Body)
			}
			var problem error
			var got *slowWriter
			ended := -1
			bodies := []func(){func() {
				vsched.OpStart()
				got = s.send()
				ended = vsched.Stamp()
			}}
			if second != nil {
				s2 := *second
				bodies = append(bodies, func() {
					vsched.OpStart()
					s2.send()
				})
			}
			bodies = append(bodies, func() {
				for _, o := range others {
					vsched.OpStart()
					if err := o(); err != nil && problem == nil {
						problem = err
					}
				}
			})
			return bodies, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s\n%s", r.Panics[0], r.Stacks[0])
				}
				if problem != nil {
					return "", problem
				}
				if ended < 0 || got.code != s.code {
					return "", fmt.Errorf("the request that had stopped ends with status %d, want %d: %s", got.code, s.code, got.body.String())
				}
				// everything it sent is counted once it went on
				n := len(s.obs)
				if s.code != 200 {
					n = s.mayCountFirst
				}
				for i, o := range s.obs {
					for c, k := range []string{o.k, o.j} {
						set, err := counted(c, k)
						if err != nil {
							return "", err
						}
						if set>>o.bit&1 == 1 != (i < n) {
							return "", fmt.Errorf("line %d of the request that had stopped: counted %b for %s", i, set, k)
						}
					}
				}
				return "", nil
			}
		}}
	}
	all, seconds := stalls(""), stalls("z")
	for i := range all {
		sc = append(sc, mk(all[i], nil))
	}
	for i := range all {
		for j := range all {
			if w.Thorough || i%3 == 0 && j%4 == 1 {
				sc = append(sc, mk(all[i], &seconds[j]))
			}
		}
	}
	(&vlib.Freeze{Scenarios: sc, Client: true}).Run(w)
	// the second client is somewhere in its request as well
	(&vlib.Freeze{Scenarios: sc[:len(all)], Client: true, Pre: pickN(w, 60, 400)}).Run(w)
}

func pickN(w *vlib.W, q, t int) int {
	if w.Thorough {
		return t
	}
	return q
}

// stalledStores: operations on the stores that stop.
func stalledStores(w *vlib.W) {
	type sop struct {
		kind byte // g u e
		key  uint64
	}
	val := func(d []byte) uint64 { return binary.LittleEndian.Uint64(d) }
	bm := func(l int, pre []uint64, first sop, others ...sop) *vsched.Scenario {
		return &vsched.Scenario{Name: fmt.Sprintf("bufmap/%d %v %c%d %v", l, pre, first.kind, first.key, others), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			m := bufmap.New(l, 24)
			var problem error
			counts := map[uint64]uint64{}
			set := func(err error) {
				if problem == nil {
					problem = err
				}
			}
			do := func(o sop) {
				vsched.OpStart()
				switch o.kind {
				case 'g':
					d := make([]byte, 24)
					lo := counts[o.key]
					ok := m.Get(o.key, d)
					if ok != (lo > 0) && o != first || ok && (val(d) < lo || val(d) != val(d[16:])) {
						set(fmt.Errorf("a read of key %d after %d updates: found=%v %v", o.key, lo, ok, d))
					}
				case 'u', 'e':
					err := m.Update(o.key, func(d []byte, init bool) error {
						v := val(d) + 1
						vsched.Client()
						binary.LittleEndian.PutUint64(d, v)
						vsched.Client()
						binary.LittleEndian.PutUint64(d[16:], v)
						vsched.Client()
						if o.kind == 'e' {
							return errRead
						}
						return nil
					})
					if o.kind == 'u' && err == nil {
						counts[o.key]++
					} else if o.kind == 'u' || err != errRead {
						set(fmt.Errorf("%c%d: %v", o.kind, o.key, err))
					}
				}
			}
			for _, k := range pre {
				k := k
				vsched.Run([]func(){func() { do(sop{'u', k}) }}, nil, 10000)
			}
			return []func(){func() { do(first) }, func() {
				for _, o := range others {
					do(o)
				}
			}}, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				if problem != nil {
					return "", problem
				}
				for k, n := range counts {
					d := make([]byte, 24)
					if !m.Get(k, d) || val(d) != n || val(d[16:]) != n {
						return "", fmt.Errorf("key %d holds %v after %d updates", k, d, n)
					}
				}
				return "", nil
			}
		}}
	}
	u := func(k uint64) sop { return sop{'u', k} }
	g := func(k uint64) sop { return sop{'g', k} }
	e := func(k uint64) sop { return sop{'e', k} }
	// readers that stop hold up nobody
	(&vlib.Freeze{Pre: pickN(w, 40, 100), Scenarios: []*vsched.Scenario{
		bm(2, []uint64{3}, g(3), u(3), g(3), u(5), g(5), e(3), u(3)),
		bm(2, nil, g(3), u(3), g(3), u(3)),
		bm(1, []uint64{1}, g(1), u(1), g(1)),
		bm(12, []uint64{5, 17}, g(17), u(17), u(5), g(17), u(29)),
	}}).Run(w)
	// updates that stop hold up no reads of other keys
	(&vlib.Freeze{Scenarios: []*vsched.Scenario{
		bm(2, []uint64{3, 5}, u(3), g(5), g(5)),
		bm(2, []uint64{3, 5}, u(5), g(3), g(3)),
		bm(12, []uint64{5, 17, 29}, u(17), g(5), g(29)),
		bm(12, []uint64{5}, u(17), g(5), g(29)),
		bm(3, []uint64{1, 2}, e(1), g(2), g(3)),
	}}).Run(w)
	// nor, while their functions run, updates of other keys
	(&vlib.Freeze{Client: true, Pre: pickN(w, 40, 100), Scenarios: []*vsched.Scenario{
		bm(2, []uint64{3, 5}, u(3), u(5), g(5), e(5), u(5)),
		bm(2, []uint64{3}, u(3), u(5), g(5), u(5)),
		bm(3, nil, u(3), u(5), g(5), u(6)),
		bm(12, []uint64{5, 17, 29}, u(17), u(5), u(29), u(41), g(41)),
		bm(12, nil, u(17), u(5), u(29), u(41), g(5)),
		bm(3, []uint64{1, 2}, e(1), u(2), u(3), g(2)),
		bm(64, nil, u(70), u(6), u(7), u(8), u(1000), g(6)),
	}}).Run(w)
	// counters: nothing that stops holds up anything
	im := func(l int, pre []uint64, first sop, others ...sop) *vsched.Scenario {
		return &vsched.Scenario{Name: fmt.Sprintf("incmap/%d %v %c%d %v", l, pre, first.kind, first.key, others), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			m := incmap.New(l)
			var problem error
			counts := map[uint64]uint64{}
			do := func(o sop) {
				vsched.OpStart()
				if o.kind == 'u' {
					if !m.Inc(o.key, 1) {
						problem = fmt.Errorf("increment of key %d refused", o.key)
					}
					counts[o.key]++
					return
				}
				lo := counts[o.key]
				if v, ok := m.Get(o.key); v < lo || !ok && lo > 0 {
					problem = fmt.Errorf("key %d: %d %v after %d increments", o.key, v, ok, lo)
				}
			}
			for _, k := range pre {
				do(u(k))
			}
			return []func(){func() { do(first) }, func() {
				for _, o := range others {
					do(o)
				}
			}}, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				for k, n := range counts {
					if v, _ := m.Get(k); v != n && problem == nil {
						problem = fmt.Errorf("key %d holds %d after %d increments", k, v, n)
					}
				}
				return "", problem
			}
		}}
	}
	(&vlib.Freeze{Pre: 40, Scenarios: []*vsched.Scenario{
		im(2, nil, u(3), u(3), g(3), u(5), g(5), u(3)),
		im(2, []uint64{3}, u(3), u(3), g(3), u(5), g(5), u(3)),
		im(2, []uint64{3}, g(3), u(3), g(3), u(5)),
		im(12, []uint64{5, 17}, u(29), u(29), u(17), g(29), u(41)),
		im(1, nil, u(1), u(1), g(1)),
		im(3, nil, u(1), u(2), u(4), g(4)),
	}}).Run(w)
	// the cell: readers that stop hold up nobody
	sl := func(name string, first func(c *seqlock.Seqlock)) *vsched.Scenario {
		return &vsched.Scenario{Name: "seqlock " + name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			c := seqlock.New()
			var problem error
			return []func(){func() { vsched.OpStart(); first(c) }, func() {
				var v [1024]byte
				for i := byte(1); i < 4; i++ {
					vsched.OpStart()
					for j := range v {
						v[j] = i
					}
					c.Put(v)
					vsched.OpStart()
					if err := c.Update(func(d []byte) error {
						if d[0] != i || d[1023] != i {
							return errRead
						}
						d[5] = 9
						return nil
					}); err != nil {
						problem = err
					}
					vsched.OpStart()
					if g := c.Get(); g[0] != i || g[5] != 9 || g[1023] != i {
						problem = fmt.Errorf("the cell holds something else")
					}
				}
			}}, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				return "", problem
			}
		}}
	}
	(&vlib.Freeze{Pre: 80, Scenarios: []*vsched.Scenario{sl("reader", func(c *seqlock.Seqlock) { c.Get() })}}).Run(w)
}

// stalledConnections: over real connections, clients that stop after each byte
// of their request while others are served.
func stalledConnections(w *vlib.W) {
	for _, s := range stalls("z") {
		if s.err != io.EOF || s.piece > 7 {
			continue
		}
		s := s
		w.Case("connections "+s.name, func() error {
			cfresh()
			body := s.body
			head := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n", s.method, s.path)
			if s.ctype != "" {
				head += "Content-Type: " + s.ctype + "\r\n"
			}
			head += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))
			text := head + body
			var open []net.Conn
			defer func() {
				for _, c := range open {
					c.Close()
				}
			}()
			for p := 0; p < len(text); p += 1 + len(text)/100 {
				c, err := net.Dial("unix", vhttp.Addr)
				if err != nil {
					return err
				}
				open = append(open, c)
				if _, err := io.WriteString(c, text[:p]); err != nil {
					return err
				}
			}
			time.Sleep(20 * time.Millisecond) // not needed, lets the server take them up
			cl := vhttp.Client()
			cl.Timeout = 30 * time.Second
			for i := 0; i < 3; i++ {
				o := cobs{bit: uint(20 + i), k: "a", j: []string{"p", "q"}[i%2]}
				r, err := cl.Post("http://x/obs", "text/plain", strings.NewReader(obsLine(o)))
				if err != nil {
					return fmt.Errorf("while %d clients had stopped in the middle of a request (%s): %v", len(open), s.name, err)
				}
				io.Copy(io.Discard, r.Body)
				r.Body.Close()
				if r.StatusCode != 200 {
					return fmt.Errorf("while others had stopped: status %d", r.StatusCode)
				}
				r, err = cl.Get("http://x/collation/one?q=" + url.QueryEscape("select count(*), sum(x), max(x), sum(y), min(y) where k='a'"))
				if err != nil {
					return fmt.Errorf("while %d clients had stopped in the middle of a request (%s): %v", len(open), s.name, err)
				}
				b, err := io.ReadAll(r.Body)
				r.Body.Close()
				if err != nil {
					return err
				}
				set, err := creq{coll: 0, key: "a"}.answer(vhttp.Resp{Code: r.StatusCode, Body: string(b)})
				if err != nil || set>>o.bit&1 == 0 {
					return fmt.Errorf("while others had stopped: %b %v", set, err)
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			return nil
		})
	}
}

func c24(w *vlib.W) {
	vsched.CopyChunks = 2
	stalledStores(w)
	stalledClients(w)
	stalledConnections(w)
	longStops(w)
	crowds(w)
}
