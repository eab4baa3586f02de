package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// sized are requests of n bytes, or a little more.
func sized(n int) (out []hreq) {
	fill := func(unit string) string { return strings.Repeat(unit, n/len(unit)+1)[:n] }
	q := hquery{[][2]string{{"count", "*"}, {"sum", "x"}, {"max", "x"}}, nil}
	ask := func(r hreq, crit ...[2]string) {
		r.q = q
		r.q.crit = crit
		t := url.QueryEscape(r.q.text())
		r.target, r.body = strings.Replace(r.target, "Q", t, 1), strings.Replace(r.body, "Q", t, 1)
		r.codes, r.coll = []int{200}, 0
		out = append(out, r)
	}
	a := [2]string{"k", "a"}
	for _, v := range []string{fill("v"), fill("a b"), "a" + fill(" "), fill("+%&;=")} {
		for _, crit := range [][][2]string{{{"nope", v}, a}, {a, {"nope", v}}, {{"k", v}}} {
			if strings.HasPrefix(v, "a ") && len(crit) == 1 && crit[0][1] != v {
				continue
			}
			if n < 200000 {
				ask(hreq{method: "GET", target: "/collation/one?q=Q"}, crit...)
			}
			ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: "q=Q"}, crit...)
		}
	}
	pad := fill("p")
	for _, body := range []string{"q=Q&z=" + pad, "z=" + pad + "&q=Q", pad + "&q=Q", "q=Q&" + pad + "=", "z=1&q=Q&y=" + pad} {
		if n < 200000 {
			ask(hreq{method: "GET", target: "/collation/one?" + body}, a)
		}
		ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: body}, a)
		ask(hreq{method: "POST", target: "/collation/one?q=Q", ctype: form, body: strings.Replace(body, "q=Q", "r=s", 1)}, a)
	}
	// many parameters
	ps := ""
	for i := 0; i < 4000 && len(ps) < n; i++ {
		ps += fmt.Sprintf("z%d=%d&", i, i)
	}
	ask(hreq{method: "GET", target: "/collation/one?" + ps + "q=Q"}, a)
	ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: ps + "q=Q"}, a)
	// many conditions and selections
	var crit [][2]string
	for i := 0; i < 3000 && i*8 < n; i++ {
		crit = append(crit, [2]string{fmt.Sprintf("c%d", i), fmt.Sprint(i)})
	}
	ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: "q=Q"}, append(crit[:len(crit):len(crit)], a)...)
	ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: "q=Q"}, append([][2]string{a}, crit...)...)
	narrow := q.pairs
	for i := 0; i < 3000 && i*8 < n; i++ {
		q.pairs = append(q.pairs[:len(q.pairs):len(q.pairs)], [2]string{"sum", fmt.Sprintf("f%d", i)})
	}
	q.pairs = append(q.pairs[:len(q.pairs):len(q.pairs)], [2]string{"count", "x"})
	ask(hreq{method: "POST", target: "/collation/one", ctype: form, body: "q=Q"}, a)
	q.pairs = narrow
	// forms in parts
	part := func(name, v string) string {
		return "--x-y\r\nContent-Disposition: form-data; name=\"" + name + "\"\r\n\r\n" + v + "\r\n"
	}
	mq := hquery{narrow, [][2]string{a, {"nope", pad}}}
	for _, body := range []string{part("q", mq.text()), part("z", pad) + part("q", mq.text()), part("q", mq.text()) + part("z", pad)} {
		out = append(out, hreq{method: "POST", target: "/collation/one", ctype: "multipart/form-data; boundary=x-y", body: body + "--x-y--\r\n", codes: []int{200}, coll: 0, q: mq})
	}
	// what is not there, and what is refused
	no := func(method, target, ctype, body string, codes ...int) {
		out = append(out, hreq{method: method, target: target, ctype: ctype, body: body, codes: codes, coll: -1})
	}
	qs := "q=" + url.QueryEscape(hquery{narrow, [][2]string{a}}.text())
	if n < 200000 {
		for _, s := range []string{"", ";", ",", ":", "%20", "%00", ".", "&", "=", "%3F", "%2F", "/", "one", "%2e"} {
			for _, f := range []string{"x", "one", "%20", ";"} {
				f = strings.Repeat(f, n/len(f)+1)
				no("GET", "/collation/one"+s+f+"?"+qs, "", "", 404)
				no("POST", "/collation/one"+s+f, form, qs, 404)
				no("GET", "/collation/"+f+s+"one?"+qs, "", "", 404)
			}
			no("POST", "/obs"+s+pad, "", "1|k=a|x=1", 404, 405)
			no("GET", "/"+pad+s+"collation/one?"+qs, "", "", 404)
		}
		no("GET", "/collation/one?q="+pad, "", "", 400)
		no("GET", "/collation/one?Q="+pad+"&"+pad, "", "", 400)
		no("PUT", "/collation/one?"+qs+"&z="+pad, "", "", 405)
		no("POST", "/obs", "image/"+pad, "1|k=a|x=1", 415)
		no("POST", "/obs", "text/plain"+pad, "1|k=a|x=1", 415)
	}
	no("POST", "/collation/one", form, "q="+pad, 400)
	no("POST", "/collation/one", form, "z="+pad, 400)
	no("POST", "/obs", form, "z="+pad, 400)
	no("POST", "/obs", "image/png", pad, 415)
	no("PUT", "/obs", "", pad, 405)
	// observations
	obs := func(ctype, body string, lines ...string) {
		out = append(out, hreq{method: "POST", target: "/obs", ctype: ctype, body: body, codes: []int{200}, lines: lines, coll: -1})
	}
	obs(form, "z="+pad+"&data=1|k=a|x=1", "1|k=a|x=1")
	obs(form, "data=1|k=a|x=2&"+pad, "1|k=a|x=2")
	if n < 60000 {
		obs("", "1|k=a|x=4|n="+pad+"\n", "1|k=a|x=4")
		obs("", "1|"+pad+"|k=a|x=8\n", "1|k=a|x=8")
		obs(form, "data=1|k="+pad+"|x=16", "1|k="+pad+"|x=16")
		r := hreq{method: "GET", target: "/collation/one?q=Q"}
		ask(r, [2]string{"k", pad})
		ask(r, [2]string{"k", pad[1:]})
		obs("text/plain; charset="+pad, "1|k=b|x=1", "1|k=b|x=1")
	}
	var ls []string
	for i := 0; i < 3000 && i*10 < n; i++ {
		ls = append(ls, fmt.Sprintf("1|k=a|x=%d", i%3))
	}
	obs("", strings.Join(ls, "\n"), ls...)
	obs(form, "data="+url.QueryEscape(strings.Join(ls, "\n")), ls...)
	ask(hreq{method: "GET", target: "/collation/one?q=Q"}, a)
	return out
}

// bigRequests are answered as small ones are.
func bigRequests(w *vlib.W) {
	sizes := []int{50, 99, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 10001, 16384, 16385, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 100000, 131073, 262145, 1 << 20, 1<<20 + 1, 3000001}
	for _, n := range sizes {
		for _, over := range []bool{false, true} {
			n, over := n, over
			w.Case(fmt.Sprintf("big %d %v", n, over), func() error {
				hstart()
				m := make(hmodel, len(hcolls))
				for i := range m {
					m[i] = map[string]*hrec{}
				}
				do, done := direct, func() {}
				if over {
					do, done = connection(plainly)
				}
				defer done()
				for _, r := range append([]hreq{{method: "POST", target: "/obs", body: "1|k=a|j=b|x=3", codes: []int{200}, lines: []string{"1|k=a|j=b|x=3"}, coll: -1}}, sized(n)...) {
					for _, l := range r.lines {
						m.observe(l)
					}
					code, body, err := do(r)
					if err == nil {
						err = r.check(m, code, body)
					}
					if err != nil {
						if s := err.Error(); len(s) > 1500 {
							err = fmt.Errorf("%s...", s[:1500])
						}
						return fmt.Errorf("requests of %d bytes: %.300s: %v", n, r, err)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				return nil
			})
		}
		n := n
		if n > 200000 {
			continue
		}
		// collations of long names
		w.Case(fmt.Sprintf("long collation names %d", n), func() error {
			for _, unit := range []string{"n", ";", " ", "é", "a b", "one"} {
				t := strings.Repeat(unit, n/len(unit)+1)
				names := []string{t, t + "x", "x" + t, t + t, t[:len(t)/2/len(unit)*len(unit)] + "x" + t[len(t)/2/len(unit)*len(unit):]}
				srv.Stores = srv.Stores[:0]
				for _, name := range names {
					sch := collation.Schema{Name: name, Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{field("x", collation.Sum{})}}
					c, err := sch.Compile()
					if err != nil {
						return fmt.Errorf("a name of %d bytes: %v", len(name), err)
					}
					srv.Stores = append(srv.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
				}
				for i := range names {
					// observations for one collation only
					s := srv.Stores
					srv.Stores = s[i : i+1]
					for j := 0; j <= i; j++ {
						if r := vhttp.Post(srv, "1|k=a|x=1"); r.Code != 200 {
							return fmt.Errorf("status %d", r.Code)
						}
					}
					srv.Stores = s
				}
				for i, name := range names {
					r := vhttp.Query(srv, name, "select count(*), sum(x) where k='a'")
					if want := fmt.Sprintf("k=a\ncount(*)=%d\nsum(x)=%d\n", i+1, i+1); r.Code != 200 || r.Body != want {
						return fmt.Errorf("collation %d of names of %d bytes (%q...) answers with status %d %q, want %q", i, len(name), trunc(name), r.Code, r.Body, want)
					}
					for _, other := range []string{name + "y", "y" + name, name + t, name[len(unit):], name + ";", name + " ", name + "/x"} {
						taken := other == ""
						for _, x := range names {
							taken = taken || x == other
						}
						if taken {
							continue
						}
						if r := vhttp.Query(srv, other, "select count(*), sum(x) where k='a'"); r.Code != 404 {
							return fmt.Errorf("a name of %d bytes (%q...) no collation has is answered with status %d %q", len(other), trunc(other), r.Code, trunc(r.Body))
						}
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
			}
			return nil
		})
	}
}
