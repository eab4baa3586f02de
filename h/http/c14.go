package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// mcoll is a collation of the model: its key and its numeric fields.
type mcoll struct {
	name, key string
	fields    []string
}

var mcolls = []mcoll{{"one", "k", []string{"x", "z"}}, {"two", "k", []string{"y"}}, {"three", "j", nil}}

// mstate is the state of the model: per collation and key value the number of
// observations and per field the number and sum of the values.
type mstate []map[string][]float64

func newState() mstate { return mstate{{}, {}, {}} }

func (s mstate) clone() mstate {
	t := newState()
	for i := range s {
		for k, v := range s[i] {
			t[i][k] = append([]float64{}, v...)
		}
	}
	return t
}

func show(m map[string][]float64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		out += fmt.Sprintf(" %s:%v", k, m[k])
	}
	return out
}

// apply applies a line to collation i: whether the line is refused.
func (s mstate) apply(i int, l map[string]string) bool {
	c := mcolls[i]
	k, ok := l[c.key]
	if !ok {
		return true
	}
	var vs []float64
	for _, f := range c.fields {
		n, v := 0.0, 0.0
		if t, ok := l[f]; ok {
			x, err := strconv.ParseFloat(t, 64)
			if err != nil {
				return false
			}
			n, v = 1, x
		}
		vs = append(vs, n, v)
	}
	r, ok := s[i][k]
	if !ok {
		r = make([]float64, 1+len(vs))
		s[i][k] = r
	}
	r[0]++
	for j, v := range vs {
		r[1+j] += v
	}
	return true
}

// outcome is what a batch may leave: the state before the offending line, and
// per collation whether that line may have been counted.
type outcome struct {
	states []mstate // after each number of lines
	bad    int      // index of the first line that must be refused, or len
	may    mstate   // as states[bad] plus the offending line in the collations before the refusing one
}

func (l kind) fields() map[string]string {
	out := map[string]string{}
	for _, f := range strings.Split(l.text, "|")[1:] {
		if i := strings.IndexByte(f, '='); i >= 0 {
			out[f[:i]] = f[i+1:]
		}
	}
	return out
}

func expect(ls []kind) outcome { return expectFrom(newState(), ls) }

func expectFrom(s mstate, ls []kind) outcome {
	var o outcome
	o.states = append(o.states, s)
	o.bad = len(ls)
	for n, l := range ls {
		s = s.clone()
		if l.malformed {
			o.bad, o.may = n, o.states[n]
			return o
		}
		f := l.fields()
		for i := range mcolls {
			if !s.apply(i, f) {
				o.bad, o.may = n, s
				return o
			}
		}
		o.states = append(o.states, s)
	}
	o.may = s
	return o
}

type kind struct {
	text      string
	malformed bool
}

var kinds = []kind{
	{"1|k=a|x=1|y=2|j=p|z=1024", false},
	{"2|k=b|x=4|y=8", false},
	{"3|j=p", false},
	{"|k=a|x=1", true},
	{"", true},
	{"4|k=a|x=oops|y=32|j=p", false},
	{"5|k=a|x=64|y=oops|j=p", false},
	{"6|k=c|x=128|z=oops|y=256|j=q", false},
	{"7|k=c|j=q|x=0.5", false},
	{"8", false},
}

var mcoll2 []storage.Store

func freshStores() {
	if mcoll2 == nil {
		for _, m := range mcolls {
			sch := collation.Schema{Name: m.name, Keys: keys(m.key), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
			for _, f := range m.fields {
				sch.Measures = append(sch.Measures, field(f, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}))
			}
			c, err := sch.Compile()
			if err != nil {
				panic(err)
			}
			mcoll2 = append(mcoll2, storage.Store{Collator: c})
		}
	}
	srv.Stores = srv.Stores[:0]
	for _, s := range mcoll2 {
		s.Backend = bufmap.New(16, s.Collator.Size())
		srv.Stores = append(srv.Stores, s)
	}
}

// observe reads what the stores hold.
func observe(s *server.Server) (mstate, error) {
	out := newState()
	for i, c := range mcolls {
		for _, k := range []string{"a", "b", "c", "p", "q"} {
			sel := "count(*)"
			for _, f := range c.fields {
				sel += ", mean(" + f + "), sum(" + f + ")"
			}
			q, err := query.RoughParse("select " + sel + " where " + c.key + "='" + k + "'")
			if err != nil {
				return nil, err
			}
			res, err := s.Stores[i].Read(context.Background(), q)
			if err != nil {
				return nil, fmt.Errorf("query of %s %s: %v", c.name, k, err)
			}
			if len(res.FieldMeasureValues) == 0 {
				continue
			}
			vs := map[string]float64{}
			for _, v := range res.FieldMeasureValues {
				vs[string(v.M)+string(v.F)], _ = v.V.(float64)
			}
			r := []float64{vs["count*"]}
			if r[0] == 0 {
				return nil, fmt.Errorf("%s %s: found with a count of %v", c.name, k, vs)
			}
			for _, f := range c.fields {
				n := 0.0
				if vs["sum"+f] != 0 {
					n = vs["sum"+f] / vs["mean"+f]
				}
				r = append(r, n, vs["sum"+f])
			}
			out[i][k] = r
		}
	}
	return out, nil
}

// verify compares a finished post with what it may do. interrupted: the lines
// may stop before any line (and within the collations of a line), at most
// after the first max lines, and the status must be an error unless everything
// was applied.
func verify(ls []kind, code int, interrupted bool, max int, mustFail bool) error {
	o := expect(ls)
	got, err := observe(srv)
	if err != nil {
		return err
	}
	all := o.bad == len(ls)
	ok := code >= 200 && code < 300
	if !ok && code < 400 {
		return fmt.Errorf("status %d is neither success nor an error", code)
	}
	if ok && (!all || mustFail) {
		return fmt.Errorf("success status %d although the batch was not accepted whole", code)
	}
	if !ok && all && !interrupted {
		return fmt.Errorf("error status %d for a good batch", code)
	}
	match := func(n int, next mstate) string {
		for i := range got {
			g := show(got[i])
			if g == show(o.states[n][i]) || next != nil && g == show(next[i]) {
				continue
			}
			return fmt.Sprintf("collation %s holds%s, want%s", mcolls[i].name, g, show(o.states[n][i]))
		}
		return ""
	}
	if !interrupted || ok {
		next := o.may
		if all {
			next = nil
		}
		if m := match(len(o.states)-1, next); m != "" {
			return fmt.Errorf("status %d, %s", code, m)
		}
		return nil
	}
	why := ""
	for n := 0; n < len(o.states); n++ {
		if n > max {
			break
		}
		var next mstate
		if n < max {
			if n+1 < len(o.states) {
				next = o.states[n+1]
			} else {
				next = o.may
			}
		}
		m := match(n, next)
		if m == "" {
			// collations are served in order: a later one is never ahead of an earlier one
			if next != nil {
				behind := false
				for i := range got {
					a, b := show(o.states[n][i]), show(next[i])
					if a == b {
						continue
					}
					if show(got[i]) == a {
						behind = true
					} else if behind {
						return fmt.Errorf("status %d: collation %s counted a line that an earlier one did not", code, mcolls[i].name)
					}
				}
			}
			return nil
		}
		why = m
	}
	return fmt.Errorf("status %d: what was applied is no prefix of the lines: %s", code, why)
}

func text(ls []kind) string {
	var ts []string
	for _, l := range ls {
		ts = append(ts, l.text)
	}
	return strings.Join(ts, "\n")
}

// chunks delivers the body in pieces and then ends with err, calling hook
// before each read.
type chunks struct {
	data     string
	cut      []int // positions at which a read ends
	err      error
	together bool // the error arrives with the last data
	pos      int
	hook     func(pos int)
	closed   bool
}

func (c *chunks) Close() error { c.closed = true; return nil }

func (c *chunks) Read(p []byte) (int, error) {
	if c.hook != nil {
		c.hook(c.pos)
	}
	if c.pos >= len(c.data) {
		return 0, c.err
	}
	end := len(c.data)
	for _, k := range c.cut {
		if k > c.pos && k < end {
			end = k
		}
	}
	n := copy(p, c.data[c.pos:end])
	c.pos += n
	if c.together && c.pos == len(c.data) {
		return n, c.err
	}
	return n, nil
}

// repeated delivers a line n times, and then the tail.
type repeated struct {
	line, tail string
	n          int
	rest       string
	done       bool
}

func (r *repeated) Read(p []byte) (int, error) {
	if r.rest == "" {
		switch {
		case r.n > 0:
			r.rest, r.n = r.line, r.n-1
		case !r.done:
			r.rest, r.done = r.tail, true
		default:
			return 0, io.EOF
		}
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func every(n int) (out []int) {
	for i := 1; i < n; i++ {
		out = append(out, i)
	}
	return
}

var errRead = errors.New("read failed")

// counting wraps a backend to act at chosen updates.
type counting struct {
	storage.Backend
	before func() error
	after  func()
}

func (c counting) Update(k uint64, fn func(data []byte, init bool) error) error {
	if err := c.before(); err != nil {
		return err
	}
	err := c.Backend.Update(k, fn)
	c.after()
	return err
}

// complete is the number of whole lines among the first n bytes of the body.
func complete(ls []kind, n int) int {
	m := 0
	for _, l := range ls {
		if n < len(l.text)+1 {
			break
		}
		n -= len(l.text) + 1
		m++
	}
	return m
}

func c14(w *vlib.W) {
	x := 0
	if w.Thorough {
		x = 1
	}
	pick := func(s []int) (ls []kind) {
		for _, i := range s {
			ls = append(ls, kinds[i])
		}
		return
	}
	done := func(ls []kind) {
		w.Eval(1)
		if len(ls) > 1 {
			w.NT(1)
		}
		w.Tick()
	}

	// every batch in every way it can be sent
	for i := range kinds {
		for j := range kinds {
			i, j := i, j
			w.Case(fmt.Sprintf("batch %d %d", i, j), func() (bad error) {
				for l := 0; l <= 2+x; l++ {
					vlib.Seqs(len(kinds), l, func(s []int) {
						if bad != nil {
							return
						}
						ls := pick(append([]int{i, j}, s...))
						if ls[len(ls)-1].text == "" {
							return
						}
						for n, ct := range []string{"", "text/plain", "application/octet-stream", form, "text/plain; charset=utf-8"} {
							body := text(ls) + []string{"", "\n", "\r\n"}[(n+len(s))%3]
							if n%2 == 1 {
								body = strings.Replace(body, "\r\n", "\n", -1)
							}
							if ct == form {
								body = "data=" + url.QueryEscape(body)
							}
							freshStores()
							r := vhttp.Do(srv, "POST", "/obs", ct, strings.NewReader(body))
							if err := verify(ls, r.Code, false, 0, false); err != nil {
								bad = fmt.Errorf("%q as %q: %v", text(ls), ct, err)
								return
							}
							done(ls)
						}
						// one after the other: each line by itself
						freshStores()
						code := 200
						for _, l := range ls {
							if r := vhttp.Post(srv, l.text+"\n"); r.Code != 200 {
								code = r.Code
								break
							}
						}
						if err := verify(ls, code, false, 0, false); err != nil {
							bad = fmt.Errorf("%q line by line: %v", text(ls), err)
						}
						done(ls)
					})
				}
				return
			})
		}
	}
	// single lines and the empty batch
	w.Case("single", func() error {
		for i := -1; i < len(kinds); i++ {
			var ls []kind
			if i >= 0 {
				ls = []kind{kinds[i]}
			}
			for _, end := range []string{"", "\n"} {
				if i >= 0 && kinds[i].text == "" && end == "" {
					continue
				}
				if i < 0 && end != "" {
					continue
				}
				freshStores()
				r := vhttp.Post(srv, text(ls)+end)
				if err := verify(ls, r.Code, false, 0, false); err != nil {
					return fmt.Errorf("%q: %v", text(ls)+end, err)
				}
				done(ls)
			}
		}
		return nil
	})
	// malformed lines of all kinds between good ones
	for hi := -1; hi < 256; hi++ {
		hi := hi
		w.Case(fmt.Sprintf("malformed %d", hi), func() error {
			var ts []string
			if hi < 0 {
				ts = []string{"#", "# comment", "//", ";", "-1|k=a|x=1", "+1|k=a|x=1", " 1|k=a|x=1", "\t1|k=a|x=1", ".5|k=a", "\xef\xbb\xbf1|k=a|x=1", "k=a|x=1", "|1|k=a",
					"\xd9\xa1|k=a|x=1", "99999999999999999999|k=a|x=1", "18446744073709551616|k=a", strings.Repeat("9", 70) + "|k=a|x=1", "time|k|x", "NaN|k=a", "e|k=a",
					"   ", "\t\t", " \t \r", "\x00\x00\x00", "\v", "\f", "\u00a0", "\u2028", "\"1\"|k=a", "{\"k\":\"a\"}", "<1>|k=a", "[1]|k=a", "data=1|k=a", strings.Repeat(" ", 5000), strings.Repeat("#", 5000)}
				for b := 0; b < 256; b++ {
					ts = append(ts, string([]byte{byte(b)}))
				}
			} else {
				for b := 0; b < 256; b++ {
					ts = append(ts, string([]byte{byte(hi), byte(b)}))
				}
			}
			for _, t := range ts {
				if t[0] >= '0' && t[0] <= '9' && len(t) < 5 || strings.IndexByte(t, '\n') >= 0 {
					continue
				}
				for at := 0; at < 4; at++ {
					ls := []kind{kinds[0], kinds[1], kinds[8]}
					if at == 3 {
						ls = ls[:1]
						ls[0] = kind{t, true}
					} else {
						ls[at] = kind{t, true}
					}
					end := "\n"
					if (at+len(t))%2 == 0 && strings.Trim(t, "\r") != "" {
						end = ""
					}
					freshStores()
					r := vhttp.Post(srv, text(ls)+end)
					if at == 1 && hi%4 == 0 {
						freshStores()
						r = vhttp.Do(srv, "POST", "/obs", form, strings.NewReader("data="+url.QueryEscape(text(ls)+end)))
					}
					if err := verify(ls, r.Code, false, 0, false); err != nil {
						return fmt.Errorf("%q: %v", text(ls)+end, err)
					}
					done(ls)
				}
			}
			return nil
		})
	}
	// lines of every length around the sizes at which buffers grow
	w.Case("lengths", func() error {
		for _, n := range []int{100, 1000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 30000, 60000} {
			for d := -3; d <= 3; d++ {
				ls := []kind{kinds[0], {"1|k=a|x=2|pad=" + strings.Repeat("p", n+d), false}, kinds[1]}
				freshStores()
				r := vhttp.Post(srv, text(ls))
				if err := verify(ls, r.Code, false, 0, false); err != nil {
					return fmt.Errorf("padding of %d: %v", n+d, err)
				}
				done(ls)
			}
		}
		return nil
	})
	// over-long lines: refused, or counted like any other
	w.Case("over-long", func() error {
		for _, n := range []int{64 << 10, 65535, 65537, 70000, 128 << 10, 1 << 20, 11 << 20} {
			for d := -40; d <= 2; d += 1 {
				if d != 0 && n > 65535 {
					continue
				}
				for at := 0; at < 3; at++ {
					for _, cut := range []bool{false, true} {
						ls := []kind{kinds[0], kinds[1], kinds[8]}
						ls[at] = kind{ls[at].text + "|pad=" + strings.Repeat("p", n+d), false}
						freshStores()
						var body io.Reader = strings.NewReader(text(ls))
						ct := ""
						if cut {
							body, ct = strings.NewReader("data="+url.QueryEscape(text(ls))), form
						}
						r := vhttp.Do(srv, "POST", "/obs", ct, body)
						if err := verify(ls, r.Code, true, at, false); err != nil {
							return fmt.Errorf("line %d of %d bytes: %v", at, len(ls[at].text), err)
						}
						done(ls)
					}
				}
			}
		}
		return nil
	})
	// many lines in one batch, with one bad line anywhere
	w.Case("large batch", func() error {
		for _, n := range []int{1000, 5000} {
			for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
				for _, b := range []int{3, 5, 6} {
					var ls []kind
					for i := 0; i < n; i++ {
						ls = append(ls, kinds[[]int{0, 1, 2, 8, 9}[i%5]])
					}
					if at >= 0 {
						ls[at] = kinds[b]
					}
					freshStores()
					r := vhttp.Post(srv, text(ls))
					if err := verify(ls, r.Code, false, 0, false); err != nil {
						return fmt.Errorf("%d lines, kind %d at %d: %v", n, b, at, err)
					}
					done(ls)
				}
			}
		}
		return nil
	})
	// batches of very many lines, and of very many bytes: whole, or not a success
	type bulk struct{ n, pad int }
	bulks := []bulk{{66000, 0}, {140000, 1}, {1100000, 0}, {700, 16000}, {700, 60000}, {2200, 60000}, {9000, 60000}}
	if w.Thorough {
		bulks = append(bulks, bulk{36500, 60000}, bulk{75000, 60000}, bulk{17000000, 0})
	}
	for _, k := range bulks {
		for v := 0; v < 4; v++ {
			k, v := k, v
			w.Case(fmt.Sprintf("bulk %d %d %d", k.n, k.pad, v), func() error {
				if k.n*k.pad > 200e6 && v > 1 {
					return nil
				}
				freshStores()
				line := "1|k=a|x=1|y=2|j=p|z=1"
				if k.pad > 0 {
					line += "|pad=" + strings.Repeat("p", k.pad)
				}
				last := []string{"2|k=b|x=1|y=1|z=1", "|k=b", "2|k=b|x=1|y=1", "3|k=a|z=oops"}[v]
				body := &repeated{line: line + "\n", n: k.n, tail: last}
				ct := []string{"", "text/plain", "application/octet-stream", ""}[v]
				r := vhttp.Do(srv, "POST", "/obs", ct, body)
				got, err := observe(srv)
				if err != nil {
					return err
				}
				a, bb := got[0]["a"], got[0]["b"]
				done([]kind{{}, {}})
				if r.Code >= 200 && r.Code < 300 {
					if v%2 == 1 {
						return fmt.Errorf("%d lines of %d bytes and a malformed one: success status %d", k.n, len(line), r.Code)
					}
					if len(a) == 0 || len(bb) == 0 || a[0] != float64(k.n) || a[2] != float64(k.n) || bb[0] != 1 || len(got[1]["a"]) == 0 || got[1]["a"][0] != float64(k.n) || got[2]["p"][0] != float64(k.n) {
						return fmt.Errorf("%d lines of %d bytes: status %d, but the collations hold%s;%s;%s", k.n, len(line), r.Code, show(got[0]), show(got[1]), show(got[2]))
					}
				} else if r.Code < 400 || len(bb) > 0 && v%2 == 0 || len(a) > 0 && a[0] > float64(k.n)+1 {
					return fmt.Errorf("%d lines of %d bytes: status %d, and the collations hold%s", k.n, len(line), r.Code, show(got[0]))
				}
				return nil
			})
		}
	}
	// delivery of the body and its interruption at every byte
	for i := range kinds {
		for j := range kinds {
			for k := -1; k < len(kinds); k++ {
				s := []int{i, j}
				if k >= 0 {
					if !w.Thorough && k != 0 && k != 5 && k != 7 {
						continue
					}
					s = append(s, k)
				}
				ls := pick(s)
				w.Case(fmt.Sprintf("interrupted %v", s), func() error {
					for _, end := range []string{"", "\n"} {
						if ls[len(ls)-1].text == "" && end == "" {
							continue
						}
						body := text(ls) + end
						// whole, in pieces
						for p := 0; p <= len(body); p++ {
							cut := []int{p}
							if p == 0 {
								cut = every(len(body))
							}
							for _, tog := range []bool{false, true} {
								freshStores()
								r := vhttp.Do(srv, "POST", "/obs", "", &chunks{data: body, cut: cut, err: io.EOF, together: tog})
								if err := verify(ls, r.Code, false, 0, false); err != nil {
									return fmt.Errorf("%q in pieces ending at %v: %v", body, cut, err)
								}
								done(ls)
							}
						}
						// cut off after p bytes
						for p := 0; p <= len(body); p++ {
							for v := 0; v < 4; v++ {
								c := &chunks{data: body[:p], err: []error{errRead, io.ErrUnexpectedEOF}[v%2], together: v >= 2}
								if v == 1 || v == 2 {
									c.cut = every(p)
								}
								freshStores()
								ct := []string{"", "text/plain", "", "application/octet-stream"}[v]
								r := vhttp.Do(srv, "POST", "/obs", ct, c)
								if err := verify(ls, r.Code, true, complete(ls, p), true); err != nil {
									return fmt.Errorf("%q fails after %d bytes (mode %d): %v", body, p, v, err)
								}
								done(ls)
							}
						}
						// as a form
						fb := "data=" + url.QueryEscape(body)
						for p := 0; p <= len(fb); p++ {
							freshStores()
							r := vhttp.Do(srv, "POST", "/obs", form, &chunks{data: fb[:p], err: errRead, together: p%2 == 0})
							if err := verify(ls, r.Code, true, len(ls), true); err != nil {
								return fmt.Errorf("form %q fails after %d bytes: %v", fb, p, err)
							}
							done(ls)
						}
						// the client goes away: cancelled when the body is read at position p
						for p := 0; p <= len(body); p++ {
							ctx, cancel := context.WithCancel(context.Background())
							c := &chunks{data: body, cut: every(len(body)), err: io.EOF}
							c.hook = func(pos int) {
								if pos >= p {
									cancel()
								}
							}
							freshStores()
							r := vhttp.DoCtx(ctx, srv, "POST", "/obs", "", c)
							cancel()
							if err := verify(ls, r.Code, true, len(ls), false); err != nil {
								return fmt.Errorf("%q cancelled at byte %d: %v", body, p, err)
							}
							done(ls)
						}
					}
					// acting at the nth update of a backend
					for n := 0; n <= 3*len(ls); n++ {
						for v := 0; v < 6; v++ {
							ctx, cancel := context.WithCancel(context.Background())
							if v == 5 {
								ctx, cancel = context.WithDeadline(context.Background(), time.Unix(0, 0))
							}
							freshStores()
							count, failed := 0, false
							for i := range srv.Stores {
								srv.Stores[i].Backend = counting{srv.Stores[i].Backend, func() error {
									count++
									if count == n {
										switch v {
										case 0:
											cancel()
										case 2, 4:
											failed = true
											return errors.New("backend failed")
										}
									}
									if count > n && v == 4 {
										return errors.New("backend fails")
									}
									return nil
								}, func() {
									if count == n && v == 1 {
										cancel()
									}
								}}
							}
							if v == 3 && n == 0 {
								cancel()
							}
							body, ct := text(ls)+"\n", ""
							if n%2 == 1 {
								body, ct = "data="+url.QueryEscape(body), form
							}
							r := vhttp.DoCtx(ctx, srv, "POST", "/obs", ct, strings.NewReader(body))
							cancel()
							inter := v == 2 && failed || v != 2
							if err := verify(ls, r.Code, inter, len(ls), failed); err != nil {
								return fmt.Errorf("%q with action %d at update %d: %v", text(ls), v, n, err)
							}
							done(ls)
						}
					}
					return nil
				})
			}
		}
	}
	histories(w, x)
	manyStores(w)
	// a real connection that breaks after each byte of the body
	nets := [][]int{{0, 1}, {1, 0, 8}, {0, 5, 1}, {2, 2, 2}, {0, 3}}
	for _, s := range nets {
		ls := pick(s)
		body := text(ls) + "\n"
		for p := 0; p <= len(body); p++ {
			p := p
			w.Case(fmt.Sprintf("connection %v %d", s, p), func() error {
				freshStores()
				code, err := broken(body, p)
				if err != nil {
					return err
				}
				ok := code >= 200 && code < 300
				if ok && p < len(body) {
					return fmt.Errorf("%q cut off after %d bytes: success status", body, p)
				}
				if code == 0 {
					code = 500 // no response at all
				}
				if err := verify(ls, code, p < len(body), complete(ls, p), p < len(body)); err != nil {
					return fmt.Errorf("%q cut off after %d bytes: %v", body, p, err)
				}
				done(ls)
				return nil
			})
		}
	}
}

// histories: batches and queries over HTTP in turn, against one server whose
// stores stay, each history with groups of its own.
func histories(w *vlib.W, x int) {
	batches := [][]int{{}}
	for i := range kinds {
		batches = append(batches, []int{i})
		for j := range kinds {
			batches = append(batches, []int{i, j})
		}
	}
	var sent int
	var lit = func(v, suffix string) string { return v + suffix }
	// groups renames the groups of a line
	groups := func(ls []kind, suffix string) (out []kind) {
		for _, l := range ls {
			fs := strings.Split(l.text, "|")
			for i, f := range fs {
				if strings.HasPrefix(f, "k=") || strings.HasPrefix(f, "j=") {
					fs[i] = lit(f, suffix)
				}
			}
			out = append(out, kind{strings.Join(fs, "|"), l.malformed})
		}
		return
	}
	// ask reads over HTTP what the server holds of the groups of a history
	ask := func(suffix string) (mstate, error) {
		out := newState()
		for i, c := range mcolls {
			for _, k := range []string{"a", "b", "c", "p", "q"} {
				if (c.key == "j") != (k >= "p") {
					continue
				}
				sel := "count(*)"
				for _, f := range c.fields {
					sel += ", mean(" + f + "), sum(" + f + ")"
				}
				r := vhttp.Query(srv, c.name, "select "+sel+" where "+c.key+"='"+lit(k, suffix)+"'")
				if r.Code == 404 {
					continue
				}
				if r.Code != 200 {
					return nil, fmt.Errorf("query of %s %s: status %d %s", c.name, k, r.Code, r.Body)
				}
				m, err := results(r.Body)
				if err != nil {
					return nil, fmt.Errorf("query of %s %s: %v", c.name, k, err)
				}
				if len(m) == 0 {
					continue
				}
				if m["count(*)"] == 0 {
					return nil, fmt.Errorf("%s %s: found with %s", c.name, k, r.Body)
				}
				v := []float64{m["count(*)"]}
				for _, f := range c.fields {
					n := 0.0
					if m["sum("+f+")"] != 0 {
						n = m["sum("+f+")"] / m["mean("+f+")"]
					}
					v = append(v, n, m["sum("+f+")"])
				}
				out[i][k] = v
			}
		}
		return out, nil
	}
	for i := range batches {
		i := i
		w.Case(fmt.Sprintf("history %v", batches[i]), func() error {
			freshStores()
			for i := range srv.Stores {
				srv.Stores[i].Backend = bufmap.New(2000, srv.Stores[i].Collator.Size())
			}
			for j := range batches {
				for _, form := range []bool{false, true} {
					hist := []kind{}
					suffix := fmt.Sprint("-", sent)
					sent++
					// what every earlier batch may have left
					var states []mstate
					cur := []mstate{newState()}
					for turn := 0; turn < 3; turn++ {
						got, err := ask(suffix)
						if err != nil {
							return err
						}
						states = states[:0]
						why := ""
						for _, c := range cur {
							ok := true
							for n := range got {
								if g := show(got[n]); g != show(c[n]) {
									ok, why = false, fmt.Sprintf("collation %s answers%s, want%s", mcolls[n].name, g, show(c[n]))
								}
							}
							if ok {
								states = append(states, c)
							}
						}
						if len(states) == 0 {
							return fmt.Errorf("after %q (form %v): %s", text(hist), form, why)
						}
						if turn == 2 {
							break
						}
						b := batches[[]int{i, j}[turn]]
						var ls []kind
						for _, n := range b {
							ls = append(ls, kinds[n])
						}
						if len(ls) > 0 {
							hist = append(hist, ls...)
							hist = append(hist, kind{"--", false})
							ct, body := "", text(groups(ls, suffix))+"\n"
							if form {
								ct, body = "application/x-www-form-urlencoded", "data="+url.QueryEscape(body)
							}
							r := vhttp.Do(srv, "POST", "/obs", ct, strings.NewReader(body))
							var next []mstate
							good := true
							for _, c := range states {
								o := expectFrom(c, ls)
								good = o.bad == len(ls)
								last := o.states[len(o.states)-1]
								// per collation the offending line may have been counted
								for m := 0; m < 8; m++ {
									t := last.clone()
									for n := range t {
										if m>>uint(n)&1 == 1 {
											t[n] = o.may.clone()[n]
										}
									}
									next = append(next, t)
									if good {
										break
									}
								}
							}
							if (r.Code == 200) != good || r.Code != 200 && r.Code < 400 {
								return fmt.Errorf("%q (form %v): status %d", text(hist), form, r.Code)
							}
							cur = next
						} else {
							cur = append([]mstate{}, states...)
						}
					}
					w.Eval(1)
					if len(hist) > 1 {
						w.NT(1)
					}
					w.Tick()
				}
			}
			return nil
		})
	}
}

// results reads the lines of an answer.
func results(body string) (map[string]float64, error) {
	out := map[string]float64{}
	for i, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
		p := strings.LastIndexByte(l, '=')
		if i == 0 || p < 0 && l == "" {
			continue // the group
		}
		if p < 0 {
			return nil, fmt.Errorf("answer %q", body)
		}
		v, err := strconv.ParseFloat(l[p+1:], 64)
		if err != nil {
			return nil, fmt.Errorf("answer %q", body)
		}
		out[l[:p]] = v
	}
	return out, nil
}

// broken posts the first p bytes of a body over a connection and closes it for
// writing; the status of the response, or 0.
func broken(body string, p int) (int, error) {
	c, err := net.Dial("unix", vhttp.Addr)
	if err != nil {
		return 0, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	fmt.Fprintf(c, "POST /obs HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:p])
	if p < len(body) {
		c.(*net.UnixConn).CloseWrite()
	}
	b, err := io.ReadAll(c)
	if err != nil {
		return 0, nil
	}
	res, err := http.ReadResponse(newReader(b), nil)
	if err != nil {
		return 0, nil
	}
	return res.StatusCode, nil
}
