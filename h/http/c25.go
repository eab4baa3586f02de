package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// use is one kind of use of the server; do is its nth request, each different
// from all others.
type use struct {
	name string
	do   func(n int) error
	slow bool // over a connection
	long bool // long bodies
}

// leftStores are collations with every measure: one that has room and one that is full.
func leftStores() {
	srv.Stores = srv.Stores[:0]
	for i, k := range []string{"k", "j"} {
		sch := collation.Schema{Name: []string{"one", "full"}[i], Keys: keys(k), RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{
			field("x", collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}),
			field("u", collation.Cardinality{Precision: 6}),
		}}
		c, err := sch.Compile()
		if err != nil {
			panic(err)
		}
		srv.Stores = append(srv.Stores, storage.Store{Collator: c, Backend: bufmap.New([]int{64, 1}[i], c.Size())})
	}
	for _, l := range []string{"1|k=a|x=1|u=1", "1|k=b|x=1", "1|j=p|x=2"} {
		if r := vhttp.Post(srv, l); r.Code != 200 {
			panic(r.Body)
		}
	}
}

func uses() (out []use) {
	is := func(r vhttp.Resp, codes ...int) error {
		for _, c := range codes {
			if r.Code == c || c == -4 && r.Code >= 400 {
				return nil
			}
		}
		return fmt.Errorf("status %d %s, want %v", r.Code, r.Body, codes)
	}
	add := func(name string, f func(n int) error) { out = append(out, use{name: name, do: f}) }
	pad := func(n int) string { return fmt.Sprintf("%d-%s", n, strings.Repeat("p", 40)) }
	post := func(name, ct string, line func(n int) string, codes ...int) {
		add(name, func(n int) error {
			body := line(n)
			if ct == form {
				body = "data=" + url.QueryEscape(body)
			}
			return is(vhttp.Do(srv, "POST", "/obs", ct, strings.NewReader(body)), codes...)
		})
	}
	post("values", "", func(n int) string { return fmt.Sprintf("%d|k=a|x=%d.5|u=v%s", n, n, pad(n)) }, 200)
	post("values in a form", form, func(n int) string { return fmt.Sprintf("%d|k=b|x=%d.25|u=w%s", n, n, pad(n)) }, 200)
	post("unknown fields", "text/plain", func(n int) string { return fmt.Sprintf("%d|k=a|f%s=%d", n, pad(n), n) }, 200)
	post("no key", "", func(n int) string { return fmt.Sprintf("%d|x=%d|u=%s", n, n, pad(n)) }, 200)
	post("timestamps", "", func(n int) string { return fmt.Sprintf("%d|k=a", 1478566442000000+n*7) }, 200)
	post("batches", "", func(n int) string {
		return fmt.Sprintf("%d|k=a|x=%d\n%d|k=b|u=%s\n%d;k=a;x=0.%d\n", n, n, n, pad(n), n, n)
	}, 200)
	post("refused values", "", func(n int) string { return fmt.Sprintf("%d|k=a|x=z%s", n, pad(n)) }, -4)
	post("refused groups", "", func(n int) string { return fmt.Sprintf("%d|j=%s|x=1", n, pad(n)) }, -4)
	post("malformed", "", func(n int) string { return "x" + pad(n) }, -4)
	post("malformed in a form", form, func(n int) string { return "x" + pad(n) }, -4)
	post("too long", "", func(n int) string { return fmt.Sprintf("1|k=a|z=%d%s", n, strings.Repeat("x", 70000)) }, -4, 200)
	out[len(out)-1].long = true
	// batches of many lines, of which the one at the given place is refused
	lines := func(n, size, bad int, what string) string {
		var b strings.Builder
		for i := 0; i < size; i++ {
			if i == bad {
				b.WriteString(what + pad(n) + "\n")
				continue
			}
			fmt.Fprintf(&b, "%d|k=%c|x=%d|u=%d.%d\n", n, 'a'+i%2, i, n, i)
		}
		return b.String()
	}
	long := func(name string, f func(n int) error) { out = append(out, use{name: name, do: f, long: true}) }
	longPost := func(name, ct string, body func(n int) string, codes ...int) {
		post(name, ct, body, codes...)
		out[len(out)-1].long = true
	}
	longPost("long batches", "", func(n int) string { return lines(n, 600, -1, "") }, 200)
	longPost("long batches malformed at the start", "", func(n int) string { return lines(n, 600, n%3, "x") }, -4)
	longPost("long batches malformed at the end", "text/plain", func(n int) string { return lines(n, 600, 590+n%10, "x") }, -4)
	longPost("long batches refused early", "", func(n int) string { return lines(n, 600, n%50, "1|k=a|x=z") }, -4)
	longPost("long batches in a form refused early", form, func(n int) string { return lines(n, 600, n%50, "x") }, -4)
	longPost("many fields", "", func(n int) string {
		return fmt.Sprintf("%d|k=a", n) + strings.Repeat(fmt.Sprintf("|u=%d", n), 1000)
	}, 200)
	long("long batches cut off", func(n int) error {
		body := lines(n, 600, -1, "")
		return is(vhttp.Do(srv, "POST", "/obs", "", &chunks{data: body[:len(body)/(1+n%7)], cut: []int{n % 999, 5000 + n%999}, err: errors.New(pad(n))}), -4)
	})
	long("long batches cancelled", func(n int) error {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		c := &chunks{data: lines(n, 600, -1, ""), cut: []int{100, 900, 2000, 5000, 9000}, err: io.EOF}
		c.hook = func(pos int) {
			if pos >= n%9100 {
				cancel()
			}
		}
		return is(vhttp.DoCtx(ctx, srv, "POST", "/obs", "", c), 200, -4)
	})
	long("long queries", func(n int) error {
		q := "select count(*)" + strings.Repeat(fmt.Sprintf(", sum(x), f%d(x)", n), 300) + " where k='a'" + strings.Repeat(fmt.Sprintf(" and z%d='%s'", n, pad(n)), 20)
		return is(vhttp.Query(srv, "one", q), 200)
	})
	add("media types", func(n int) error {
		return is(vhttp.Do(srv, "POST", "/obs", "text/x-"+pad(n), strings.NewReader("1|k=a")), 415)
	})
	add("methods", func(n int) error { return is(vhttp.Do(srv, fmt.Sprintf("M%d", n), "/obs", "", nil), 405) })
	add("paths", func(n int) error { return is(vhttp.Do(srv, "GET", "/p"+pad(n), "", nil), 404) })
	add("forms", func(n int) error {
		return is(vhttp.Do(srv, "POST", "/obs", form, strings.NewReader("f"+pad(n)+"=1")), 400)
	})
	add("cut off", func(n int) error {
		body := fmt.Sprintf("%d|k=a|x=1|u=c%s\n%d|k=b", n, pad(n), n)
		return is(vhttp.Do(srv, "POST", "/obs", "", &chunks{data: body, cut: []int{n%len(body) + 1}, err: errors.New(pad(n))}), -4)
	})
	add("cancelled", func(n int) error {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		body := fmt.Sprintf("%d|k=a|x=1|u=c%s\n%d|k=b\n", n, pad(n), n)
		c := &chunks{data: body, cut: every(len(body)), err: io.EOF}
		c.hook = func(pos int) {
			if pos >= n%len(body) {
				cancel()
			}
		}
		return is(vhttp.DoCtx(ctx, srv, "POST", "/obs", "", c), 200, -4)
	})
	add("never cancelled", func(n int) error {
		// a context that outlives the request
		return is(vhttp.DoCtx(longCtx, srv, "POST", "/obs", "", strings.NewReader(fmt.Sprintf("%d|k=a|x=%d", n, n))), 200)
	})
	query := func(name string, q func(n int) string, codes ...int) {
		add(name, func(n int) error {
			if n%3 == 0 {
				return is(vhttp.Do(srv, "POST", "/collation/one", form, strings.NewReader("q="+url.QueryEscape(q(n)))), codes...)
			}
			return is(vhttp.Query(srv, "one", q(n)), codes...)
		})
	}
	query("queries", func(n int) string { return "select count(*), sum(x), uniquecount(u), max(x) where k='a'" }, 200)
	query("queries of absent groups", func(n int) string { return "select count(*) where k='" + pad(n) + "'" }, 200)
	query("queries of absent fields", func(n int) string { return "select sum(f" + pad(n) + "), max(x) where k='a'" }, 200)
	query("queries of absent measures", func(n int) string { return fmt.Sprintf("select m%d(x), max(x) where k='a'", n) }, 200, 400)
	query("queries with more criteria", func(n int) string { return "select max(x) where k='a' and z='" + pad(n) + "'" }, 200)
	query("queries without the key", func(n int) string { return "select max(x) where z='" + pad(n) + "'" }, 200)
	query("bad queries", func(n int) string { return "pick " + pad(n) }, 400)
	add("unknown collations", func(n int) error { return is(vhttp.Query(srv, "c"+pad(n), "select count(*) where k='a'"), 404) })
	add("nested collations", func(n int) error {
		return is(vhttp.Do(srv, "GET", "/collation/one/"+pad(n)+"?q=x", "", nil), 404)
	})
	add("slow readers", func(n int) error {
		w := &failWriter{h: http.Header{}, after: n % 5}
		srv.ServeHTTP(w, vhttp.Request(context.Background(), "GET", "/collation/one?q="+url.QueryEscape("select count(*), sum(x), max(x) where k='a'"), "", nil))
		return nil
	})
	// clients that differ in all they say of themselves
	who := func(name, method, target string, body func(n int) string, ctype string) {
		add(name, func(n int) error {
			r := vhttp.Request(context.Background(), method, target+"v"+pad(n)+"="+fmt.Sprint(n), ctype+"; v="+fmt.Sprint(n), strings.NewReader(body(n)))
			r.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:%d", n>>16&255, n>>8&255, n&255, 1024+n%60000)
			r.Host = fmt.Sprintf("h%d.example", n)
			for _, h := range []string{"User-Agent", "Cookie", "Referer", "Origin", "X-Forwarded-For", "X-Request-Id", "Authorization", "Accept-Language", "Via", "From", "Etag", "If-None-Match", fmt.Sprintf("X-%d", n)} {
				r.Header.Set(h, pad(n))
			}
			w := httptest.NewRecorder()
			srv.ServeHTTP(w, r)
			return is(vhttp.Resp{Code: w.Code, Body: w.Body.String()}, 200)
		})
	}
	who("clients that post", "POST", "/obs?", func(n int) string { return fmt.Sprintf("%d|k=a|x=%d", n, n) }, "text/plain")
	who("clients that query", "GET", "/collation/one?q="+url.QueryEscape("select sum(x) where k='a'")+"&", func(n int) string { return "" }, "text/plain")
	// over connections
	slow := func(name string, f func(n int) error) { out = append(out, use{name: name, do: f, slow: true}) }
	text := func(n int) string {
		body := fmt.Sprintf("%d|k=a|x=1|u=c%s\n", n, pad(n))
		return fmt.Sprintf("POST /obs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	}
	slow("connections", func(n int) error {
		c, err := net.Dial("unix", vhttp.Addr)
		if err != nil {
			return err
		}
		defer c.Close()
		io.WriteString(c, text(n))
		_, err = io.ReadAll(c)
		return err
	})
	slow("broken connections", func(n int) error {
		c, err := net.Dial("unix", vhttp.Addr)
		if err != nil {
			return err
		}
		t := text(n)
		io.WriteString(c, t[:n%len(t)])
		c.Close()
		if n%8 == 0 {
			settle()
		}
		return nil
	})
	slow("half closed connections", func(n int) error {
		c, err := net.Dial("unix", vhttp.Addr)
		if err != nil {
			return err
		}
		defer c.Close()
		t := text(n)
		io.WriteString(c, t[:1+n%(len(t)-1)])
		c.(*net.UnixConn).CloseWrite()
		io.ReadAll(c)
		return nil
	})
	slow("queries over connections", func(n int) error {
		c, err := net.Dial("unix", vhttp.Addr)
		if err != nil {
			return err
		}
		defer c.Close()
		fmt.Fprintf(c, "GET /collation/one?q=%s HTTP/1.1\r\nHost: x%d\r\nConnection: close\r\n\r\n", url.QueryEscape("select count(*) where k='"+pad(n)+"'"), n)
		_, err = io.ReadAll(c)
		return err
	})
	return
}

var longCtx, longCancel = context.WithCancel(context.Background())

// failWriter is a client that has gone after some writes.
type failWriter struct {
	h     http.Header
	after int
}

func (w *failWriter) Header() http.Header { return w.h }
func (w *failWriter) WriteHeader(int)     {}
func (w *failWriter) Write(p []byte) (int, error) {
	if w.after--; w.after < 0 {
		return 0, errRead
	}
	return len(p), nil
}

// holds is what the process holds on to.
type holds struct {
	heap, goroutines, files int
}

// settle waits until the number of goroutines has not changed for a while.
func settle() {
	last, same := 0, 0
	for i := 0; i < 2000 && same < 8; i++ {
		n := runtime.NumGoroutine()
		if n == last {
			same++
		} else {
			last, same = n, 0
		}
		time.Sleep(time.Millisecond)
	}
}

func measure(base *holds) (h holds) {
	settle()
	for i := 0; i < 300; i++ {
		h.goroutines = runtime.NumGoroutine()
		fs, _ := os.ReadDir("/proc/self/fd")
		h.files = len(fs)
		if base == nil && i >= 5 || base != nil && h.goroutines <= base.goroutines && h.files <= base.files {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	h.heap = int(m.HeapAlloc)
	return
}

func c25(w *vlib.W) {
	us := uses()
	seq := 0
	run := func(kinds []use, size int) error {
		leftStores()
		round := func(n int) error {
			for i := 0; i < n; i++ {
				for _, u := range kinds {
					seq++
					if err := u.do(seq); err != nil {
						return fmt.Errorf("%s: %v", u.name, err)
					}
				}
				if i%64 == 0 {
					w.Tick()
				}
			}
			w.Eval(n * len(kinds))
			return nil
		}
		if err := round(size); err != nil {
			return err
		}
		first := measure(nil)
		limit := 24<<10 + 6*size
		for try := 1; ; try++ {
			for i := 0; i < 3; i++ {
				if err := round(size); err != nil {
					return err
				}
				w.Tick()
			}
			next := measure(&first)
			if next.goroutines > first.goroutines+1 {
				return fmt.Errorf("%d goroutines before, %d after %d requests more", first.goroutines, next.goroutines, 3*size*len(kinds))
			}
			if next.files > first.files+1 {
				return fmt.Errorf("%d open files before, %d after %d requests more", first.files, next.files, 3*size*len(kinds))
			}
			if next.heap-first.heap <= limit {
				w.NT(1)
				w.Max("largest growth in bytes", next.heap-first.heap)
				return nil
			}
			if try == 3 {
				return fmt.Errorf("%d bytes held before, %d after %d requests more, and so three times", first.heap, next.heap, 3*size*len(kinds))
			}
			first = next
			size *= 2
		}
	}
	for i := range us {
		for j := i; j < len(us); j++ {
			size := pickN(w, 500, 2000)
			if i == j {
				size = pickN(w, 3000, 20000)
			}
			ks := []use{us[i], us[j]}
			if us[i].slow || us[j].slow {
				if i != j && !w.Thorough {
					continue
				}
				size = pickN(w, 400, 1000)
			}
			if i == j {
				ks = ks[:1]
			}
			if us[i].long || us[j].long {
				if us[i].slow || us[j].slow || i != j && (i+j)%5 != 0 && !w.Thorough {
					continue
				}
				size = pickN(w, 40, 200)
			}
			w.Case(fmt.Sprintf("%s and %s", us[i].name, us[j].name), func() error { return run(ks, size) })
		}
	}
	w.Case("all", func() error { return run(us, pickN(w, 40, 400)) })
}
