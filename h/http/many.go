package main

import (
	"fmt"
	"io"
	"math/bits"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// Servers with many collations, lines of many fields, and many clients.

var manySizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025}

// manyServer gives the server n collations; collation i is named name(i) and keyed on k or j.
func manyServer(n int, name func(i int) string) error {
	srv.Stores = srv.Stores[:0]
	for i := 0; i < n; i++ {
		sch := collation.Schema{Name: name(i), Keys: keys([]string{"k", "j"}[i%2]), RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{field("x", collation.Sum{})}}
		c, err := sch.Compile()
		if err != nil {
			return err
		}
		srv.Stores = append(srv.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
	}
	return nil
}

// collidingTexts: bodies, queries and names of collations that common hashes
// take for the same.
func collidingTexts(w *vlib.W) {
	num := vlib.Num36
	w.Case("colliding posts", func() error {
		for part, gen := range []func(i int) string{num, func(i int) string { return "1|k=a|x=" + num(i) }, func(i int) string { return "1|k=a|x=" + num(i) + "\n" }, func(i int) string { return "data=1%7Ck%3Da%7Cx%3D" + num(i) }} {
			cut := strings.Index(gen(0), num(0))
			for _, p := range vlib.Colliding(4, gen) {
				hstart()
				a, b := p.A[cut:cut+vlib.NumLen], p.B[cut:cut+vlib.NumLen]
				sum := 0.0
				for _, v := range []string{a, b, a, b, b} {
					body, ct := "1|k=a|x="+v, ""
					if part == 2 {
						body += "\n"
					} else if part == 3 {
						body, ct = "data=1%7Ck%3Da%7Cx%3D"+v, form
					}
					if r := vhttp.Do(srv, "POST", "/obs", ct, strings.NewReader(body)); r.Code != 200 {
						return fmt.Errorf("%q: status %d", body, r.Code)
					}
					f, _ := strconv.ParseFloat(v, 64)
					sum += f
					r := vhttp.Query(srv, "one", "select sum(x) where k='a'")
					if err := hasNumber(r.Body, sum); err != nil {
						return fmt.Errorf("after posting %q and %q, which have the same %s, in turns: %v", a, b, p.Hash, err)
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
		}
		return nil
	})
	w.Case("colliding queries", func() error {
		for _, gen := range []func(i int) string{vlib.Name36,
			func(i int) string { return "select count(*), sum(x) where k='" + vlib.Name36(i) + "'" },
			func(i int) string {
				return "/collation/one?q=" + url.QueryEscape("select count(*), sum(x) where k='"+vlib.Name36(i)+"'")
			},
			func(i int) string {
				return "q=" + url.QueryEscape("select count(*), sum(x) where k='"+vlib.Name36(i)+"'")
			},
		} {
			cut := strings.Index(gen(0), vlib.Name36(0))
			for _, p := range vlib.Colliding(4, gen) {
				hstart()
				for n, v := range []string{p.A[cut : cut+vlib.NameLen], p.B[cut : cut+vlib.NameLen]} {
					if r := vhttp.Post(srv, fmt.Sprintf("1|k=%s|x=%d", v, 100+n)); r.Code != 200 {
						return fmt.Errorf("status %d", r.Code)
					}
				}
				for i := 0; i < 6; i++ {
					v, n := p.A[cut:cut+vlib.NameLen], 100+i%2
					if i%2 == 1 {
						v = p.B[cut : cut+vlib.NameLen]
					}
					r := vhttp.Query(srv, "one", "select count(*), sum(x) where k='"+v+"'")
					if i > 3 {
						r = vhttp.Do(srv, "POST", "/collation/one", form, strings.NewReader("q="+url.QueryEscape("select count(*), sum(x) where k='"+v+"'")))
					}
					if r.Code != 200 || !strings.Contains(r.Body, v) {
						return fmt.Errorf("status %d %q to the query for %q, after one for another with the same %s", r.Code, r.Body, v, p.Hash)
					}
					if err := hasNumber(r.Body, float64(n)); err != nil {
						return fmt.Errorf("queries for %q and %q, which have the same %s, in turns: %v", p.A, p.B, p.Hash, err)
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
		}
		return nil
	})
	w.Case("colliding names of collations", func() error {
		for _, gen := range []func(i int) string{vlib.Name36, func(i int) string { return "/collation/" + vlib.Name36(i) }} {
			for _, p := range vlib.Colliding(4, gen) {
				a, b := p.A[len(p.A)-vlib.NameLen:], p.B[len(p.B)-vlib.NameLen:]
				srv.Stores = srv.Stores[:0]
				for i, n := range []string{a, b} {
					sch := collation.Schema{Name: n, Keys: keys("k"), Measures: []collation.MeasureSpec{field([]string{"x", "y"}[i], collation.Sum{})}}
					c, err := sch.Compile()
					if err != nil {
						return err
					}
					srv.Stores = append(srv.Stores, storage.Store{Backend: bufmap.New(4, c.Size()), Collator: c})
				}
				if r := vhttp.Post(srv, "1|k=a|x=11|y=22"); r.Code != 200 {
					return fmt.Errorf("status %d", r.Code)
				}
				for i := 0; i < 6; i++ {
					n, f, v := a, "x", 11.0
					if i%2 == 1 {
						n, f, v = b, "y", 22
					}
					r := vhttp.Query(srv, n, "select sum("+f+") where k='a'")
					if r.Code != 200 {
						return fmt.Errorf("%q: status %d", n, r.Code)
					}
					if err := hasNumber(r.Body, v); err != nil {
						return fmt.Errorf("collations %q and %q, whose names have the same %s, asked in turns: %v", a, b, p.Hash, err)
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
		}
		return nil
	})
}

// hasNumber reports whether a line of the answer ends in the number.
func hasNumber(body string, want float64) error {
	for _, l := range strings.Split(body, "\n") {
		if f, err := strconv.ParseFloat(l[strings.LastIndexByte(l, '=')+1:], 64); err == nil && f == want {
			return nil
		}
	}
	return fmt.Errorf("the answer is %q, which has no %v", body, want)
}

func manyCollations(w *vlib.W) {
	sizes := manySizes
	if w.Thorough {
		sizes = append(append([]int{}, sizes...), 4095, 4097, 10000)
	}
	for _, n := range sizes {
		n := n
		w.Case(fmt.Sprintf("many collations %d", n), func() error {
			for v, name := range []func(int) string{
				func(i int) string { return fmt.Sprintf("c%d", i) },
				func(i int) string { return strings.Repeat("a", i%61) + fmt.Sprint(i/61) }, // names that begin alike
				func(i int) string { return fmt.Sprintf("%d", n-i) },
			} {
				if v > 0 && n > 1030 {
					continue
				}
				if err := manyServer(n, name); err != nil {
					return err
				}
				kx, jx, kc, jc := 0, 0, 0, 0
				for step, l := range []string{"1|k=a|x=1", "1|j=a|x=2", "1|k=a|j=a|x=4", "1|x=8", "1|j=a"} {
					if r := vhttp.Post(srv, l+"\n"); r.Code != 200 {
						return fmt.Errorf("%d collations: %q is answered with status %d", n, l, r.Code)
					}
					if strings.Contains(l, "k=a") {
						kx, kc = kx|1<<uint(step)&7, kc+1
					}
					if strings.Contains(l, "j=a") {
						jx, jc = jx|1<<uint(step)&7, jc+1
					}
					if step == 0 || step == 3 {
						continue
					}
					for i := 0; i < n; i++ {
						key, x, c := "k", kx, kc
						if i%2 == 1 {
							key, x, c = "j", jx, jc
						}
						r := vhttp.Query(srv, name(i), "select count(*), sum(x) where "+key+"='a'")
						if want := fmt.Sprintf("%s=a\ncount(*)=%d\nsum(x)=%d\n", key, c, x); r.Code != 200 || r.Body != want {
							return fmt.Errorf("%d collations: after %d observations number %d (%s) answers with status %d, %q, want %q", n, step+1, i, name(i), r.Code, r.Body, want)
						}
						w.Eval(1)
						w.NT(1)
					}
					w.Tick()
				}
				for _, no := range []string{"none", fmt.Sprintf("c%d", n), "c-1", "c00", "c", strings.Repeat("a", 62), fmt.Sprint(n + 1)} {
					taken := false
					for i := 0; i < n; i++ {
						taken = taken || name(i) == no
					}
					if taken {
						continue
					}
					if r := vhttp.Query(srv, no, "select count(*) where k='a'"); r.Code != 404 {
						return fmt.Errorf("%d collations: one that is not there (%s) is answered with status %d %q", n, no, r.Code, r.Body)
					}
				}
			}
			return nil
		})
	}
}

// lateBackend waits for a while for the answer to be given before it updates.
type lateBackend struct {
	storage.Backend
	answered chan bool
	late     *bool
	mu       *sync.Mutex
	wait     time.Duration
}

func (l lateBackend) Update(k uint64, fn func([]byte, bool) error) error {
	select {
	case <-l.answered:
		l.mu.Lock()
		*l.late = true
		l.mu.Unlock()
	case <-time.After(l.wait):
	}
	return l.Backend.Update(k, fn)
}

// orderBackend notes the order of the keys.
type orderBackend struct {
	storage.Backend
	mu *sync.Mutex
	ks *[]uint64
}

func (o orderBackend) Update(k uint64, fn func([]byte, bool) error) error {
	o.mu.Lock()
	*o.ks = append(*o.ks, k)
	o.mu.Unlock()
	return o.Backend.Update(k, fn)
}

// manyStores: whatever the number of collations, every one of them has every
// observation of a batch, in order, before the batch is answered.
func manyStores(w *vlib.W) {
	for _, n := range manySizes {
		if n == 0 {
			continue
		}
		n := n
		w.Case(fmt.Sprintf("many stores %d", n), func() error {
			for _, at := range []int{0, n / 2, n - 1} {
				for _, bad := range []int{-1, 3} {
					if err := manyServer(n, func(i int) string { return fmt.Sprintf("c%d", i) }); err != nil {
						return err
					}
					answered, late := make(chan bool), false
					var mu sync.Mutex
					orders := make([][]uint64, n)
					for i := range srv.Stores {
						srv.Stores[i].Backend = orderBackend{srv.Stores[i].Backend, &mu, &orders[i]}
					}
					srv.Stores[at].Backend = lateBackend{srv.Stores[at].Backend, answered, &late, &mu, 40 * time.Millisecond}
					var ls []string
					for l := 0; l < 5; l++ {
						if l == bad {
							ls = append(ls, "nonsense")
							continue
						}
						ls = append(ls, fmt.Sprintf("1|k=%d|j=%d|x=1", l, l+10))
					}
					r := vhttp.Post(srv, strings.Join(ls, "\n"))
					close(answered)
					mu.Lock()
					was := late
					mu.Unlock()
					w.Eval(1)
					w.NT(1)
					w.Tick()
					if (r.Code == 200) != (bad < 0) {
						return fmt.Errorf("%d collations: the batch %q is answered with status %d", n, ls, r.Code)
					}
					lines := 5
					if bad >= 0 {
						lines = bad
					}
					mu.Lock()
					for i := range orders {
						if len(orders[i]) != lines {
							err := fmt.Errorf("%d collations: when the batch %q is answered (%d) number %d has had %d observations, not %d", n, ls, r.Code, i, len(orders[i]), lines)
							mu.Unlock()
							return err
						}
						if fmt.Sprint(orders[i]) != fmt.Sprint(orders[i%2]) {
							err := fmt.Errorf("%d collations: number %d has the observations of the batch %q in another order than number %d", n, i, ls, i%2)
							mu.Unlock()
							return err
						}
					}
					mu.Unlock()
					if was {
						return fmt.Errorf("%d collations: number %d got an observation after the batch was answered", n, at)
					}
					for i := 0; i < n; i += 1 + n/50 {
						for l := 0; l < 5; l++ {
							key, v := "k", l
							if i%2 == 1 {
								key, v = "j", l+10
							}
							r := vhttp.Query(srv, fmt.Sprintf("c%d", i), fmt.Sprintf("select count(*) where %s='%d'", key, v))
							want := fmt.Sprintf("%s=%d\n", key, v)
							if l < lines {
								want += "count(*)=1\n"
							}
							if r.Body != want {
								return fmt.Errorf("%d collations: number %d answers %q, want %q", n, i, r.Body, want)
							}
						}
					}
				}
			}
			return nil
		})
	}
}

// manyFields: lines of many fields, each of which is collated with its value.
func manyFields(w *vlib.W) {
	sizes := append([]int{}, manySizes[1:]...)
	sizes = append(sizes, 2047, 2048, 2049, 4095, 4096, 4097, 6000)
	for _, n := range sizes {
		n := n
		w.Case(fmt.Sprintf("many fields %d", n), func() error {
			var names []string
			for i := 0; i < n; i++ {
				if i < 3 || i > n-4 || bits.OnesCount(uint(i)) <= 1 || bits.OnesCount(uint(i+1)) == 1 || i%100 == 99 {
					names = append(names, fmt.Sprintf("f%d", i))
				}
			}
			names = append(names, fmt.Sprintf("f%d", n), "f", "")
			for _, d := range []string{"\t", "|", " ", ","} {
				for v := 0; v < 3; v++ {
					l := "77"
					for i := 0; i < n; i++ {
						l += d + fmt.Sprintf("f%d", i)
						if v == 0 {
							l += "=" + fmt.Sprint(i)
						}
						if v == 1 && i%3 > 0 {
							l += "=" + strings.Repeat("v", i%3)
						}
						if v == 2 {
							l += "=" + d
						}
					}
					if len(l) >= 65000 {
						continue
					}
					if err := checkLines(w, []string{"1" + d + "f0=x", l, "2" + d + "f1=y"}, names, "", "\n"); err != nil {
						return fmt.Errorf("line of %d fields: %.400s", n, err)
					}
				}
			}
			return nil
		})
	}
}

// crowds: many clients that have stopped at the same time.
func crowds(w *vlib.W) {
	n, conns := 3000, 600
	if w.Thorough {
		n, conns = 40000, 4000
	}
	for _, kind := range []string{"before the body", "in the body", "in a form", "before the answer", "in all ways"} {
		kind := kind
		w.Case("crowd "+kind, func() error {
			cfresh()
			release := make(chan bool)
			var wg, ready sync.WaitGroup
			for i := 0; i < n; i++ {
				k := kind
				if kind == "in all ways" {
					k = []string{"before the body", "in the body", "in a form", "before the answer"}[i%4]
				}
				ready.Add(1)
				wg.Add(1)
				stopped := &crowd{release: release, at: ready.Done}
				i := i
				go func() {
					defer wg.Done()
					switch k {
					case "before the body":
						vhttp.Do(srv, "POST", "/obs", "", stopped)
					case "in the body":
						stopped.data = fmt.Sprintf("1|z%d=a\n2|", i)
						vhttp.Do(srv, "POST", "/obs", "text/plain", stopped)
					case "in a form":
						stopped.data = "data=1|z=a%0a2"
						vhttp.Do(srv, "POST", "/obs", form, stopped)
					default:
						srv.ServeHTTP(&crowdWriter{crowd: stopped, h: http.Header{}}, vhttp.Request(ctxBg, "GET", "/collation/one?q=select+count(*)+where+k='a'", "", nil))
					}
				}()
			}
			in := make(chan bool)
			go func() { ready.Wait(); close(in) }()
			defer func() { close(release); wg.Wait() }()
			for t := time.Now(); ; {
				select {
				case <-in:
				case <-time.After(200 * time.Millisecond):
					w.Tick()
					if time.Since(t) < 20*time.Second {
						continue
					}
					return fmt.Errorf("of %d clients that stop %s, some are held up before they can stop", n, kind)
				}
				break
			}
			return others(w, fmt.Sprintf("while %d clients had stopped %s", n, kind))
		})
	}
	w.Case("crowd of connections", func() error {
		cfresh()
		var open []net.Conn
		defer func() {
			for _, c := range open {
				c.Close()
			}
		}()
		for i := 0; i < conns; i++ {
			c, err := net.Dial("unix", vhttp.Addr)
			if err != nil {
				return fmt.Errorf("after %d connections: %v", i, err)
			}
			open = append(open, c)
			text := "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\n1|k=z\n2|"
			io.WriteString(c, []string{"", text[:1], text[:20], text[:len(text)-8], text}[i%5])
			w.Tick()
		}
		cl := vhttp.Client()
		cl.Timeout = 30 * time.Second
		for i := 0; i < 3; i++ {
			r, err := cl.Get("http://x/collation/one?q=select+count(*)+where+k='a'")
			if err != nil {
				return fmt.Errorf("with %d connections that have stopped: %v", conns, err)
			}
			r.Body.Close()
			w.Eval(1)
			w.NT(1)
		}
		return nil
	})
}

// crowd is a body that stops after data.
type crowd struct {
	data    string
	release chan bool
	at      func()
	once    sync.Once
}

func (c *crowd) Close() error { return nil }
func (c *crowd) stop() {
	c.once.Do(c.at)
	<-c.release
}
func (c *crowd) Read(p []byte) (int, error) {
	if c.data != "" {
		n := copy(p, c.data)
		c.data = c.data[n:]
		return n, nil
	}
	c.stop()
	return 0, io.EOF
}

type crowdWriter struct {
	crowd *crowd
	h     http.Header
}

func (c *crowdWriter) Header() http.Header { return c.h }
func (c *crowdWriter) WriteHeader(int)     { c.crowd.stop() }
func (c *crowdWriter) Write(p []byte) (int, error) {
	c.crowd.stop()
	return len(p), nil
}

// others are served.
func others(w *vlib.W, when string) error {
	for i := 0; i < 6; i++ {
		i := i
		done := make(chan vhttp.Resp, 1)
		want, what := 200, "an observation"
		go func() {
			switch i % 3 {
			case 0:
				done <- vhttp.Post(srv, obsLine(cobs{bit: uint(i), k: "a", j: "p"}))
			case 1:
				done <- vhttp.Query(srv, "one", "select count(*) where k='a'")
			case 2:
				done <- vhttp.Do(srv, "POST", "/obs", form, strings.NewReader("data="+obsLine(cobs{bit: uint(i), k: "b", j: "q"})))
			}
		}()
		if i%3 > 0 {
			what = []string{"", "a query", "a form"}[i%3]
		}
		for t := time.Now(); ; {
			select {
			case r := <-done:
				if r.Code != want {
					return fmt.Errorf("%s: %s is answered with status %d %q", when, what, r.Code, r.Body)
				}
			case <-time.After(200 * time.Millisecond):
				w.Tick()
				if time.Since(t) < 20*time.Second {
					continue
				}
				return fmt.Errorf("%s: %s is not served", when, what)
			}
			break
		}
		w.Eval(1)
		w.NT(1)
	}
	return nil
}
