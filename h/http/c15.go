package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

func newReader(b []byte) *bufio.Reader { return bufio.NewReader(bytes.NewReader(b)) }

type hcoll struct {
	name   string
	keys   []string
	fields []string
}

var hcolls = []hcoll{
	{"one", []string{"k"}, []string{"x"}},
	{"two words", []string{"k", "j"}, []string{"y", "x"}},
	{"One", []string{"k"}, []string{"y"}},
	{"one1", []string{"j"}, nil},
	{"Ωmega.x", []string{"j"}, []string{"x"}},
}

// hmodel is the reference server: per collation, by key values, the values of
// each field.
type hmodel []map[string]*hrec

type hrec struct {
	n    int
	vals map[string][]float64
}

func (m hmodel) clone() hmodel {
	out := make(hmodel, len(m))
	for i := range m {
		out[i] = map[string]*hrec{}
		for k, r := range m[i] {
			c := &hrec{r.n, map[string][]float64{}}
			for f, v := range r.vals {
				c.vals[f] = append([]float64{}, v...)
			}
			out[i][k] = c
		}
	}
	return out
}

func keyOf(c hcoll, get func(string) (string, bool)) (string, bool) {
	k := ""
	for _, n := range c.keys {
		v, ok := get(n)
		if !ok {
			return "", false
		}
		k += fmt.Sprintf("%q,", v)
	}
	return k, true
}

func (m hmodel) observe(line string) {
	f := kind{text: line}.fields()
	for i, c := range hcolls {
		k, ok := keyOf(c, func(n string) (string, bool) { v, ok := f[n]; return v, ok })
		if !ok {
			continue
		}
		r := m[i][k]
		if r == nil {
			r = &hrec{0, map[string][]float64{}}
			m[i][k] = r
		}
		r.n++
		for _, n := range c.fields {
			if t, ok := f[n]; ok {
				v, err := strconv.ParseFloat(t, 64)
				if err != nil {
					panic(err)
				}
				r.vals[n] = append(r.vals[n], v)
			}
		}
	}
}

// hquery is a query: pairs of measure and field, and criteria.
type hquery struct {
	pairs [][2]string
	crit  [][2]string
}

func (q hquery) text() string {
	var a, c []string
	for _, p := range q.pairs {
		a = append(a, p[0]+"("+p[1]+")")
	}
	for _, p := range q.crit {
		c = append(c, p[0]+"='"+p[1]+"'")
	}
	return "select " + strings.Join(a, ", ") + " where " + strings.Join(c, " and ")
}

// check compares a response body with the answer of the model.
func (m hmodel) check(ci int, q hquery, body string) error {
	lines := strings.Split(body, "\n")
	if lines[len(lines)-1] != "" {
		return fmt.Errorf("the answer %q does not end with a line break", body)
	}
	lines = lines[:len(lines)-1]
	for i, c := range q.crit {
		if i >= len(lines) || lines[i] != c[0]+"="+c[1] {
			return fmt.Errorf("the answer %q does not echo the criteria of %q", body, q.text())
		}
	}
	lines = lines[len(q.crit):]
	c := hcolls[ci]
	k, ok := keyOf(c, func(n string) (string, bool) {
		for _, p := range q.crit {
			if p[0] == n {
				return p[1], true
			}
		}
		return "", false
	})
	r := m[ci][k]
	type ans struct {
		name string
		v    float64
	}
	var want []ans
	if ok && r != nil {
		var order []string
		by := map[string][]string{}
		for _, p := range q.pairs {
			if _, seen := by[p[1]]; !seen {
				order = append(order, p[1])
			}
			by[p[1]] = append(by[p[1]], p[0])
		}
		for _, f := range order {
			for _, me := range by[f] {
				if f == "*" && me == "count" {
					want = append(want, ans{"count(*)", float64(r.n)})
				}
				known := false
				for _, n := range c.fields {
					known = known || n == f
				}
				if !known {
					continue
				}
				vs := r.vals[f]
				sum, max := 0.0, math.NaN()
				for _, v := range vs {
					sum += v
					if !(max >= v) {
						max = v
					}
				}
				switch me {
				case "sum":
					want = append(want, ans{"sum(" + f + ")", sum})
				case "count":
					want = append(want, ans{"count(" + f + ")", float64(len(vs))})
				case "max":
					want = append(want, ans{"max(" + f + ")", max})
				}
			}
		}
	}
	if len(lines) != len(want) {
		return fmt.Errorf("%q from %q is answered with %q, want %v", q.text(), c.name, body, want)
	}
	for i, l := range lines {
		p := strings.LastIndexByte(l, '=')
		if p < 0 || l[:p] != want[i].name {
			return fmt.Errorf("%q from %q is answered with %q, want %v", q.text(), c.name, body, want)
		}
		v, err := strconv.ParseFloat(l[p+1:], 64)
		if err != nil || v != want[i].v && !(math.IsNaN(v) && math.IsNaN(want[i].v)) {
			return fmt.Errorf("%q from %q is answered with %q, want %v", q.text(), c.name, body, want)
		}
	}
	return nil
}

// hreq is a request and what must come of it.
type hreq struct {
	method, target, ctype, body string
	codes                       []int    // permitted status codes; 0: any
	lines                       []string // observations it adds
	coll                        int      // collation it queries, or -1
	q                           hquery
}

func (r hreq) String() string {
	return fmt.Sprintf("%s %s %q %q", r.method, trunc(r.target), trunc(r.ctype), trunc(r.body))
}

func trunc(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func (r hreq) check(m hmodel, code int, body string) error {
	ok := false
	for _, c := range r.codes {
		ok = ok || c == code || c == 0 || c == -4 && code >= 400
	}
	if !ok {
		return fmt.Errorf("%v: status %d, want %v", r, code, r.codes)
	}
	if r.coll >= 0 && r.method != "HEAD" {
		if err := m.check(r.coll, r.q, body); err != nil {
			return fmt.Errorf("%v: %v", r, err)
		}
	}
	return nil
}

const form = "application/x-www-form-urlencoded"

func requests() (out []hreq) {
	add := func(r hreq) { out = append(out, r) }
	obs := []string{"1|k=a|j=p|x=1|y=10", "2|k=b|x=0.5|y=4", "3;j=p;x=-7;k=", "4|k=a|j=q q|y=2"}
	no := func(method, target, ctype, body string, codes ...int) {
		add(hreq{method: method, target: target, ctype: ctype, body: body, codes: codes, coll: -1})
	}
	// observations
	for i, ct := range []string{"", "text/plain", form, "application/octet-stream", "text/plain; charset=utf-8", form + "; charset=utf-8", "TEXT/Plain", ""} {
		ls := []string{strings.Replace(obs[i%4], ";", "|", -1)}
		body := obs[i%4]
		if i == 7 {
			ls = []string{obs[0], obs[1]}
			body = obs[0] + "\n" + obs[1] + "\n"
		}
		if strings.HasPrefix(ct, form) {
			body = "data=" + url.QueryEscape(body)
			if i == 5 {
				body = "other=1&" + body + "&more="
			}
		}
		add(hreq{method: "POST", target: "/obs", ctype: ct, body: body, codes: []int{200}, lines: ls, coll: -1})
	}
	// refused observations
	for _, ct := range []string{"application/json", "text/html", "multipart/form-data; boundary=x", "image/png", "text/plainx", "text", "text/x-www-form-urlencoded"} {
		no("POST", "/obs", ct, obs[0], 415)
	}
	no("POST", "/obs", "text/", obs[0], 400, 415)
	no("POST", "/obs", "/;=", obs[0], 400, 415)
	for _, m := range []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"} {
		no(m, "/obs", "text/plain", obs[0], 405)
	}
	no("GET", "/obs?data="+url.QueryEscape(obs[0]), "", "", 405)
	no("PUT", "/obs", form, "data="+url.QueryEscape(obs[0]), 405)
	for _, b := range []string{"", "data=", "x=1", "data", "Data=" + url.QueryEscape(obs[0]), "&"} {
		no("POST", "/obs", form, b, 400)
	}
	no("POST", "/obs", form, "data=no+timestamp", -4)
	no("POST", "/obs", "", "no timestamp", -4)
	no("POST", "/obs", "text/plain", "5|k=a|x=oops|y=1", -4)
	no("POST", "/obs/", "", obs[0], 404, 405)
	no("POST", "/OBS", "", obs[0], 404, 405)
	no("POST", "/obs/one", "", obs[0], 404, 405)
	no("POST", "/", "", obs[0], 404, 405)
	// queries
	for ci, c := range hcolls {
		sel := [][2]string{{"count", "*"}, {"sum", "x"}, {"sum", "nope"}, {"count", "y"}, {"nope", "x"}, {"max", "x"}, {"sum", "y"}}
		var cr [][2]string
		for i, k := range c.keys {
			cr = append(cr, [2]string{k, map[string][]string{"k": {"a", "b"}, "j": {"p", "q q"}}[k][i%2*0]})
		}
		p := "/collation/" + url.PathEscape(c.name)
		q := hquery{sel, cr}
		add(hreq{method: "GET", target: p + "?q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: ci, q: q})
		q = hquery{sel[:ci+1], append([][2]string{{"nope", ""}}, cr...)}
		add(hreq{method: "POST", target: p, ctype: form, body: "q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: ci, q: q})
		q = hquery{sel[1:], [][2]string{{"nope", "none"}}}
		add(hreq{method: "POST", target: p + "?q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: ci, q: q})
		q = hquery{sel[:3], append(cr[:len(cr):len(cr)], [2]string{"extra", "100% + a&b;c=d/é"})}
		add(hreq{method: "POST", target: p, ctype: "multipart/form-data; boundary=x-y", body: "--x-y\r\nContent-Disposition: form-data; name=\"z\"\r\n\r\n1\r\n--x-y\r\nContent-Disposition: form-data; name=\"q\"\r\n\r\n" + q.text() + "\r\n--x-y--\r\n", codes: []int{200}, coll: ci, q: q})
		add(hreq{method: "POST", target: p + "?q=" + strings.Replace(url.QueryEscape(q.text()), "+", "%20", -1), ctype: form, body: "z=1", codes: []int{200}, coll: ci, q: q})
		add(hreq{method: "GET", target: p + "?q=" + url.QueryEscape(q.text()), ctype: []string{"application/json", "text/plain", "nonsense", form, ""}[ci%5], body: "q=nothing", codes: []int{200}, coll: ci, q: q})
		if ci < 2 {
			q = hquery{sel, cr}
			for _, m := range []string{"PUT", "DELETE", "HEAD", "PATCH"} {
				no(m, p+"?q="+url.QueryEscape(q.text()), "", "", 405)
			}
			for _, b := range []string{"", "?q=", "?q=select", "?q=" + url.QueryEscape("select count(*)"), "?q=" + url.QueryEscape("select where k='a'"), "?q=" + url.QueryEscape("count(*) where k='a'"), "?Q=" + url.QueryEscape(q.text())} {
				no("GET", p+b, "", "", 400)
			}
			no("POST", p, form, "q=nonsense", 400)
			no("POST", p, form, "", 400)
			qs := "?q=" + url.QueryEscape(q.text())
			no("GET", p+"/"+qs, "", "", 404)
			no("GET", p+"/x"+qs, "", "", 404)
			no("GET", p+"%2Fx"+qs, "", "", 404)
			no("GET", p+"x"+qs, "", "", 404)
			no("GET", p[:len(p)-1]+qs, "", "", 404)
			no("GET", strings.ToUpper(p)+qs, "", "", 404)
			no("PUT", p+"/x"+qs, "", "", 404, 405)
			no("GET", p+"/x", "", "", 404, 400)
		}
	}
	q := hquery{[][2]string{{"sum", "x"}, {"count", "*"}}, [][2]string{{"k", "a"}}}
	add(hreq{method: "GET", target: "/collation/%6Fn%65?q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: 0, q: q})
	q.crit = [][2]string{{"k", ""}}
	add(hreq{method: "GET", target: "/collation/one?z=1&q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: 0, q: q})
	q = hquery{[][2]string{{"count", "*"}}, [][2]string{{"j", "p"}, {"k", ""}}}
	add(hreq{method: "GET", target: "/collation/two%20words?q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: 1, q: q})
	for _, n := range []string{"nope", "ONE", "two", "two%20words%20", "o", "one%00", "*", "%2A", "%CE%A9mega", "one,One"} {
		no("GET", "/collation/"+n+"?q="+url.QueryEscape(q.text()), "", "", 404)
		no("POST", "/collation/"+n, form, "q="+url.QueryEscape(q.text()), 404)
	}
	no("GET", "/collation/nope", "", "", 404, 400)
	no("PUT", "/collation/nope", "", "", 404, 405)
	no("GET", "/collation/", "", "", 404)
	no("GET", "/collation/?q="+url.QueryEscape(q.text()), "", "", 404)
	no("GET", "/collation", "", "", 0)
	no("GET", "/", "", "", 404)
	no("GET", "/one?q="+url.QueryEscape(q.text()), "", "", 404)
	return
}

// probes are asked after every sequence of requests.
func probes() (out []hreq) {
	ks, js := []string{"a", "b", "", "p"}, []string{"p", "q q", "a"}
	for ci, c := range hcolls {
		var crits [][][2]string
		for _, n := range c.keys {
			vs := ks
			if n == "j" {
				vs = js
			}
			if crits == nil {
				for _, v := range vs {
					crits = append(crits, [][2]string{{n, v}})
				}
				continue
			}
			var next [][][2]string
			for _, cr := range crits {
				for _, v := range vs {
					next = append(next, append(append([][2]string{}, cr...), [2]string{n, v}))
				}
			}
			crits = next
		}
		for _, cr := range crits {
			q := hquery{[][2]string{{"count", "*"}}, cr}
			for _, f := range c.fields {
				for _, m := range []string{"sum", "count", "max"} {
					q.pairs = append(q.pairs, [2]string{m, f})
				}
			}
			out = append(out, hreq{method: "GET", target: "/collation/" + url.PathEscape(c.name) + "?q=" + url.QueryEscape(q.text()), codes: []int{200}, coll: ci, q: q})
		}
	}
	return
}

var hcomp []storage.Store

func hstart() {
	if hcomp == nil {
		for _, m := range hcolls {
			sch := collation.Schema{Name: m.name, Keys: keys(m.keys...), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
			for _, f := range m.fields {
				sch.Measures = append(sch.Measures, field(f, collation.Max{}, collation.Sum{}, collation.Count{}))
			}
			c, err := sch.Compile()
			if err != nil {
				panic(err)
			}
			hcomp = append(hcomp, storage.Store{Collator: c})
		}
	}
	srv.Stores = srv.Stores[:0]
	for _, s := range hcomp {
		s.Backend = bufmap.New(16, s.Collator.Size())
		srv.Stores = append(srv.Stores, s)
	}
}

// direct serves a request without a connection.
func direct(r hreq) (int, string, error) {
	res := vhttp.Do(srv, r.method, r.target, r.ctype, strings.NewReader(r.body))
	return res.Code, res.Body, uncached(res.Header)
}

// uncached: answers are as of now and must not be kept by anybody on the way.
func uncached(h http.Header) error {
	v := strings.ToLower(strings.Join(h.Values("Cache-Control"), ","))
	if !strings.Contains(v, "no-cache") && !strings.Contains(v, "no-store") {
		return fmt.Errorf("the response may be cached: its headers are %v", h)
	}
	return nil
}

// frail sums up numbers; it cannot be read while the sum is 3 or more.
type frail struct{ collation.Sum }

func (frail) Name() string { return "frail" }
func (f frail) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		v, err := f.Sum.ContReader()(buf)
		if err == nil && v >= 3 {
			err = errors.New("frail: broken")
		}
		return v, err
	}
}

// mute keeps a text that cannot be told when it is "no".
type mute struct{}

func (mute) Size() int    { return 3 }
func (mute) Name() string { return "mute" }
func (mute) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		buf[0] = byte(copy(buf[1:], v))
		return nil
	}
}
func (mute) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		if v := buf[1 : 1+buf[0]]; string(v) != "no" {
			return []byte("y"), nil
		}
		return []byte("none"), errors.New("mute: nothing to say")
	}
}

// unreadable: a query that asks for a measure that cannot be read fails as a
// whole, and others do not.
func unreadable(w *vlib.W) {
	items := []struct {
		text  string
		fails func(sum float64, said string) bool
		line  func(n int, sum float64) string
	}{
		{"frail(x)", func(s float64, _ string) bool { return s >= 3 }, func(_ int, s float64) string { return fmt.Sprintf("frail(x)=%v", s) }},
		{"mute(u)", func(_ float64, t string) bool { return t == "no" }, nil},
		{"sum(x)", nil, func(_ int, s float64) string { return fmt.Sprintf("sum(x)=%v", s) }},
		{"count(*)", nil, func(n int, _ float64) string { return fmt.Sprintf("count(*)=%d", n) }},
		{"sum(z)", nil, nil},
	}
	w.Case("measures that cannot be read", func() error {
		sch := collation.Schema{Name: "c", Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures: []collation.MeasureSpec{field("x", collation.Sum{}, frail{}), field("u", mute{}), field("y", collation.Sum{})}}
		c, err := sch.Compile()
		if err != nil {
			return err
		}
		var bad error
		vlib.SeqsUpTo(4, 4, func(sq []int) {
			if bad != nil {
				return
			}
			srv.Stores = append(srv.Stores[:0], storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
			sum, said := 0.0, ""
			for _, s := range sq {
				l := []string{"1|k=a|x=2", "1|k=a|x=-4", "1|k=a|u=no", "1|k=a|u=ok"}[s]
				sum += []float64{2, -4, 0, 0}[s]
				said = []string{said, said, "no", "ok"}[s]
				if r := vhttp.Post(srv, l); r.Code != 200 {
					bad = fmt.Errorf("%q after %v: status %d", l, sq, r.Code)
					return
				}
			}
			if len(sq) == 0 {
				return
			}
			vlib.SeqsUpTo(len(items), 3, func(sel []int) {
				if bad != nil || len(sel) == 0 {
					return
				}
				var ts, lines []string
				fails := false
				for i, x := range sel {
					for _, y := range sel[:i] {
						if x == y {
							return
						}
					}
					it := items[x]
					ts = append(ts, it.text)
					fails = fails || it.fails != nil && it.fails(sum, said)
					if it.line != nil {
						lines = append(lines, it.line(len(sq), sum))
					} else if x == 1 {
						lines = append(lines, "mute(u)=")
					}
				}
				q := "select " + strings.Join(ts, ", ") + " where k='a'"
				for _, m := range []string{"GET", "POST"} {
					target, ct, body := "/collation/c?q="+url.QueryEscape(q), "", ""
					if m == "POST" {
						target, ct, body = "/collation/c", form, "q="+url.QueryEscape(q)
					}
					r := vhttp.Do(srv, m, target, ct, strings.NewReader(body))
					if fails != (r.Code == 500) || !fails && r.Code != 200 {
						bad = fmt.Errorf("observations %v (sum %v, text %q): %s %q answers with status %d %q", sq, sum, said, m, q, r.Code, r.Body)
					}
					if !fails {
						got := strings.Split(strings.TrimSuffix(r.Body, "\n"), "\n")
						ok := len(got) == len(lines)+1 && got[0] == "k=a"
						sort.Strings(got[1:])
						sort.Strings(lines)
						for i := range lines {
							ok = ok && strings.HasPrefix(got[i+1], lines[i])
						}
						if !ok {
							bad = fmt.Errorf("observations %v: %q answers %q, want %q", sq, q, r.Body, lines)
						}
					}
					if e := uncached(r.Header); e != nil {
						bad = e
					}
				}
				w.Eval(1)
				w.NT(1)
			})
			w.Tick()
		})
		return bad
	})
}

func c15(w *vlib.W) {
	reqs := requests()
	prs := probes()
	w.Add("requests", len(reqs))
	manyCollations(w)
	collidingTexts(w)
	nearNames(w)
	unreadable(w)
	var empty hmodel
	for range hcolls {
		empty = append(empty, map[string]*hrec{})
	}
	// play runs a sequence of requests followed by all probes.
	var play func(seq []int, do func(hreq) (int, string, error)) error
	play = func(seq []int, do func(hreq) (int, string, error)) error {
		hstart()
		m := empty.clone()
		one := func(r hreq) error {
			for _, l := range r.lines {
				m.observe(l)
			}
			code, body, err := do(r)
			if err != nil {
				return fmt.Errorf("%v: %v", r, err)
			}
			return r.check(m, code, body)
		}
		tell := func(err error) error {
			if err == nil {
				return nil
			}
			s := ""
			for n := 0; n < len(seq); {
				from := n
				for n++; n < len(seq) && seq[n] == seq[from]; n++ {
				}
				if len(s) < 5000 {
					s += "\n  " + reqs[seq[from]].String()
					if n > from+1 {
						s += fmt.Sprintf(" (%d times)", n-from)
					}
				}
			}
			return fmt.Errorf("%v\nafter:%s", err, s)
		}
		for _, i := range seq {
			if err := one(reqs[i]); err != nil {
				return tell(err)
			}
		}
		for _, p := range prs {
			if err := one(p); err != nil {
				return tell(err)
			}
		}
		w.Eval(1)
		if len(seq) > 1 {
			w.NT(1)
		}
		w.Tick()
		return nil
	}
	w.Case("each", func() error {
		for i := -1; i < len(reqs); i++ {
			var s []int
			if i >= 0 {
				s = []int{i}
			}
			if err := play(s, direct); err != nil {
				return err
			}
		}
		return nil
	})
	bigRequests(w)
	variants(w, reqs, play)
	// representatives for the third place in quick runs
	var rep []int
	for i, r := range reqs {
		if w.Thorough || len(r.lines) > 0 && i < 4 || r.coll >= 0 || i%4 == 0 {
			rep = append(rep, i)
		}
	}
	w.Add("requests_third", len(rep))
	for i := range reqs {
		i := i
		w.Case(fmt.Sprintf("sequence %d", i), func() error {
			for j := range reqs {
				if err := play([]int{i, j}, direct); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for _, i := range rep {
		for _, j := range rep {
			i, j := i, j
			w.Case(fmt.Sprintf("sequence %d %d", i, j), func() error {
				for _, k := range rep {
					if err := play([]int{i, j, k}, direct); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	twoServers(w, reqs, prs, rep)
	// servers that have served many requests
	for i := range reqs {
		i := i
		w.Case(fmt.Sprintf("often %d", i), func() error {
			n, nc := 2100, 600
			if i%16 == 0 || i < 6 {
				n, nc = 70000, 8400
			}
			if w.Thorough {
				n *= 4
				nc *= 8
			}
			many := make([]int, n)
			for j := range many {
				many[j] = i
			}
			if err := play(many, direct); err != nil {
				return err
			}
			do, done := connection(plainly)
			err := play(many[:nc], do)
			done()
			if err != nil {
				return fmt.Errorf("over a connection: %v", err)
			}
			// in turns with others
			many = many[:0]
			for j := 0; j < 300; j++ {
				many = append(many, i, rep[(i*7+j)%len(rep)])
			}
			if err := play(many, direct); err != nil {
				return err
			}
			do, done = connection(plainly)
			err = play(many, do)
			done()
			if err != nil {
				return fmt.Errorf("over a connection: %v", err)
			}
			return nil
		})
	}
	// over a kept connection to the listening server
	for i := range reqs {
		i := i
		w.Case(fmt.Sprintf("connection %d", i), func() error {
			for j := range reqs {
				if j%4 != i%4 && !w.Thorough && j != i {
					continue
				}
				do, done := connection(plainly)
				err := play([]int{i, j}, do)
				done()
				if err != nil {
					return fmt.Errorf("over a connection: %v", err)
				}
			}
			return nil
		})
	}
}

func plainly(r hreq) string {
	ct := ""
	if r.ctype != "" {
		ct = "Content-Type: " + r.ctype + "\r\n"
	}
	return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %d\r\n\r\n%s", r.method, r.target, ct, len(r.body), r.body)
}

// connection serves requests over a connection that is kept as long as it
// lasts; write is how they are written.
func connection(write func(hreq) string) (do func(hreq) (int, string, error), done func()) {
	var c net.Conn
	var br *bufio.Reader
	do = func(r hreq) (int, string, error) {
		if c == nil {
			var err error
			if c, err = net.Dial("unix", vhttp.Addr); err != nil {
				return 0, "", err
			}
			c.SetDeadline(time.Now().Add(300 * time.Second))
			br = bufio.NewReader(c)
		}
		io.WriteString(c, write(r)) // may end early when the answer does not depend on the body
		res, err := http.ReadResponse(br, &http.Request{Method: r.method})
		if err != nil {
			return 0, "", err
		}
		for res.StatusCode == 100 && err == nil {
			res, err = http.ReadResponse(br, &http.Request{Method: r.method})
		}
		if err != nil {
			return 0, "", err
		}
		b, err := io.ReadAll(res.Body)
		if err != nil {
			return 0, "", err
		}
		if res.Close {
			c.Close()
			c = nil
		}
		return res.StatusCode, string(b), uncached(res.Header)
	}
	return do, func() {
		if c != nil {
			c.Close()
		}
	}
}

// twoServers: two servers with collations of the same names in one process have
// nothing to do with each other.
func twoServers(w *vlib.W, reqs, prs []hreq, rep []int) {
	var other *server.Server
	addr := vhttp.Addr
	for _, i := range rep {
		i := i
		w.Case(fmt.Sprintf("two servers %d", i), func() error {
			if other == nil {
				vhttp.Name = "t"
				other = vhttp.Start()
				vhttp.Name, vhttp.Addr = "s", addr
			}
			first := srv
			defer func() { srv = first }()
			for _, j := range rep {
				var ms [2]hmodel
				for s := range ms {
					srv = []*server.Server{first, other}[s]
					hstart()
					for range hcolls {
						ms[s] = append(ms[s], map[string]*hrec{})
					}
				}
				one := func(s int, r hreq) error {
					srv = []*server.Server{first, other}[s]
					for _, l := range r.lines {
						ms[s].observe(l)
					}
					code, body, err := direct(r)
					if err != nil {
						return err
					}
					return r.check(ms[s], code, body)
				}
				if err := one(0, reqs[i]); err != nil {
					return err
				}
				if err := one(1, reqs[j]); err != nil {
					return fmt.Errorf("%v of the second server after %v of the first: %v", reqs[j], reqs[i], err)
				}
				for _, p := range prs {
					for s := 1; s >= 0; s-- {
						if err := one(s, p); err != nil {
							return fmt.Errorf("after %v of one server and %v of another, %v of number %d: %v", reqs[i], reqs[j], p, s, err)
						}
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			return nil
		})
	}
}
