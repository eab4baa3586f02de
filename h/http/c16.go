package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// creq is a request of a client: a post of observations (bit, key, other key)
// or a query of one collation for one key.
type creq struct {
	post []cobs
	form bool
	coll int // query
	key  string
}

type cobs struct {
	bit  uint
	k, j string
	bad  bool
}

var cnames = []string{"one", "two"}

var cstores []storage.Store

func cfresh() {
	if cstores == nil {
		for i, n := range cnames {
			sch := collation.Schema{Name: n, Keys: keys([]string{"k", "j"}[i]), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
			sch.Measures = append(sch.Measures,
				field("x", collation.Sum{}, collation.Max{}),
				field("y", collation.Sum{}, collation.Min{}))
			c, err := sch.Compile()
			if err != nil {
				panic(err)
			}
			cstores = append(cstores, storage.Store{Collator: c})
		}
	}
	srv.Stores = srv.Stores[:0]
	for _, s := range cstores {
		s.Backend = bufmap.New(8, s.Collator.Size())
		srv.Stores = append(srv.Stores, s)
	}
}

func (r creq) send() vhttp.Resp {
	if r.post != nil {
		body := ""
		for _, o := range r.post {
			x := uint64(1) << o.bit
			body += fmt.Sprintf("%d|k=%s|j=%s|x=%d|y=%d\n", 100+o.bit, o.k, o.j, x, 3*x)
			if o.bad {
				body = body[:len(body)-1] + "oops\n"
			}
		}
		return vhttp.Post(srv, body)
	}
	f := []string{"k", "j"}[r.coll]
	return vhttp.Query(srv, cnames[r.coll], fmt.Sprintf("select count(*), sum(x), max(x), sum(y), min(y) where %s='%s'", f, r.key))
}

func (r creq) String() string {
	if r.post != nil {
		return fmt.Sprintf("post%v", r.post)
	}
	return fmt.Sprintf("query(%s %s)", cnames[r.coll], r.key)
}

// answer decodes a query's answer to the set of observations it describes.
func (r creq) answer(res vhttp.Resp) (uint64, error) {
	if res.Code != 200 {
		return 0, fmt.Errorf("%v: status %d %s", r, res.Code, res.Body)
	}
	ls := strings.Split(strings.TrimSuffix(res.Body, "\n"), "\n")
	if want := []string{"k", "j"}[r.coll] + "=" + r.key; ls[0] != want {
		return 0, fmt.Errorf("%v: the answer %q does not echo %s", r, res.Body, want)
	}
	if len(ls) == 1 {
		return 0, nil
	}
	var v []float64
	for i, n := range []string{"count(*)=", "sum(x)=", "max(x)=", "sum(y)=", "min(y)="} {
		if len(ls) != 6 || !strings.HasPrefix(ls[i+1], n) {
			return 0, fmt.Errorf("%v: answer %q", r, res.Body)
		}
		f, err := strconv.ParseFloat(ls[i+1][len(n):], 64)
		if err != nil {
			return 0, fmt.Errorf("%v: answer %q", r, res.Body)
		}
		v = append(v, f)
	}
	s := uint64(v[1])
	if s == 0 || float64(s) != v[1] || bits.OnesCount64(s) != int(v[0]) || v[2] != math.Ldexp(1, bits.Len64(s)-1) || v[3] != 3*v[1] || v[4] != 3*math.Ldexp(1, bits.TrailingZeros64(s)) {
		return 0, fmt.Errorf("%v: the answer mixes different sets of observations: %q", r, res.Body)
	}
	return s, nil
}

type cevent struct {
	req      creq
	inv, ret int
	res      vhttp.Resp
}

// cscenario: pre is posted before the clients start.
func cscenario(name string, pre []cobs, clients ...[]creq) *vsched.Scenario {
	return &vsched.Scenario{Name: name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
		cfresh()
		if pre != nil {
			if r := (creq{post: pre}).send(); r.Code != 200 {
				panic(r.Body)
			}
		}
		evs := make([][]cevent, len(clients))
		var bodies []func()
		for i := range clients {
			i := i
			bodies = append(bodies, func() {
				for _, r := range clients[i] {
					vsched.OpStart()
					inv := vsched.Stamp()
					res := r.send()
					evs[i] = append(evs[i], cevent{r, inv, vsched.Stamp(), res})
				}
			})
		}
		return bodies, func(r *vsched.Result) (string, error) {
			if len(r.Panics) > 0 {
				return "", fmt.Errorf("panic: %s\n%s", r.Panics[0], r.Stacks[0])
			}
			// per observation: when it was sent and acknowledged, and where it counts
			type obs struct {
				cobs
				inv, ret int
				line     int
				acked    bool
				failed   bool // may be counted or not
			}
			var all []obs
			for _, o := range pre {
				all = append(all, obs{cobs: o, inv: -1, ret: 0, acked: true})
			}
			outcome := ""
			for _, es := range evs {
				for _, e := range es {
					if e.req.post == nil {
						continue
					}
					bad := false
					for n, o := range e.req.post {
						if o.bad {
							bad = true
							break
						}
						all = append(all, obs{cobs: o, inv: e.inv, ret: e.ret, line: n, acked: true})
					}
					if ok := e.res.Code == 200; ok == bad {
						return "", fmt.Errorf("%v: status %d %s", e.req, e.res.Code, e.res.Body)
					}
				}
			}
			check := func(q creq, inv, ret int, res vhttp.Resp) error {
				got, err := q.answer(res)
				if err != nil {
					return err
				}
				var must, may uint64
				for _, o := range all {
					if []string{o.k, o.j}[q.coll] != q.key {
						continue
					}
					b := uint64(1) << o.bit
					if o.inv < ret {
						may |= b
					}
					if o.ret < inv {
						must |= b
					}
				}
				if got&must != must {
					return fmt.Errorf("%v: the answer %q lacks observations acknowledged before: has %b, needs %b", q, res.Body, got, must)
				}
				if got&^may != 0 {
					return fmt.Errorf("%v: the answer %q has observations of another key or time: has %b, may have %b", q, res.Body, got, may)
				}
				// of one batch and key, the counted lines are a prefix
				for _, o := range all {
					for _, p := range all {
						if o.inv == p.inv && o.inv >= 0 && o.line < p.line && []string{o.k, o.j}[q.coll] == q.key && []string{p.k, p.j}[q.coll] == q.key && got>>p.bit&1 == 1 && got>>o.bit&1 == 0 {
							return fmt.Errorf("%v: the answer %q has a later line of a batch without an earlier one", q, res.Body)
						}
					}
				}
				outcome += fmt.Sprintf("%s=%b ", q.key, got)
				return nil
			}
			for _, es := range evs {
				for _, e := range es {
					if e.req.post == nil {
						if err := check(e.req, e.inv, e.ret, e.res); err != nil {
							return "", err
						}
					}
				}
				outcome += "; "
			}
			last := 1 << 30
			for c := range cnames {
				for _, k := range []string{"a", "b", "p", "q"} {
					q := creq{coll: c, key: k}
					if err := check(q, last, last+1, q.send()); err != nil {
						return "", fmt.Errorf("after all: %v", err)
					}
				}
			}
			return outcome, nil
		}
	}}
}

func c16(w *vlib.W) {
	vsched.CopyChunks = 2
	p := func(o ...cobs) creq { return creq{post: o} }
	o := func(bit uint, k, j string) cobs { return cobs{bit: bit, k: k, j: j} }
	q := func(c int, k string) creq { return creq{coll: c, key: k} }
	type rs = []creq
	pre := []cobs{o(40, "a", "p"), o(41, "b", "q")}
	var sc []*vsched.Scenario
	add := func(name string, pre []cobs, clients ...[]creq) {
		if len(clients) > 2 {
			name += map[bool]string{false: "@1", true: "@2"}[w.Thorough]
		}
		sc = append(sc, cscenario(name, pre, clients...))
	}
	add("two queries of different keys", pre, rs{q(0, "a")}, rs{q(0, "b")})
	add("two queries of different collations", pre, rs{q(0, "a")}, rs{q(1, "q")})
	add("first posts of a key", nil, rs{p(o(0, "a", "p"))}, rs{p(o(1, "a", "p"))})
	add("first posts of different keys", nil, rs{p(o(0, "a", "p"))}, rs{p(o(1, "b", "q"))})
	add("posts of a stored key", pre, rs{p(o(0, "a", "p"))}, rs{p(o(1, "a", "p"))})
	add("posts crossing keys", pre, rs{p(o(0, "a", "q"))}, rs{p(o(1, "b", "p"))})
	add("first post and query", nil, rs{p(o(0, "a", "p"))}, rs{q(0, "a")})
	add("post and query", pre, rs{p(o(0, "a", "p"))}, rs{q(0, "a")})
	add("post and query of another key", pre, rs{p(o(0, "a", "p"))}, rs{q(0, "b")})
	add("post and query of the second collation", pre, rs{p(o(0, "a", "p"))}, rs{q(1, "p")})
	add("batch and query", pre, rs{p(o(0, "a", "p"), o(1, "b", "p"), o(2, "a", "q"))}, rs{q(0, "a")})
	add("batch with a refused line and query", pre, rs{p(o(0, "a", "p"), cobs{1, "a", "p", true}, o(2, "a", "p"))}, rs{q(0, "a")})
	add("refused post and post", pre, rs{p(cobs{1, "a", "p", true})}, rs{p(o(2, "a", "p"))})
	add("post then query, post then query", pre, rs{p(o(0, "a", "p")), q(0, "a")}, rs{p(o(1, "a", "p")), q(0, "a")})
	add("post and two queries in a row", pre, rs{p(o(0, "a", "p"))}, rs{q(0, "a"), q(0, "a")})
	add("three posts", nil, rs{p(o(0, "a", "p"))}, rs{p(o(1, "a", "p"))}, rs{p(o(2, "a", "p"))})
	add("two posts and a query", nil, rs{p(o(0, "a", "p"))}, rs{p(o(1, "a", "p"))}, rs{q(0, "a")})
	add("post, query and query of another key", pre, rs{p(o(0, "a", "p"))}, rs{q(0, "a")}, rs{q(0, "b")})
	(&vlib.Sched{Scenarios: sc, Bound: map[bool]int{false: 2, true: 3}[w.Thorough], Horizon: 300000}).Run(w)
	crowds16(w, o, p, q)
}

// crowds16: many clients under way at the same time.
func crowds16(w *vlib.W, o func(bit uint, k, j string) cobs, p func(...cobs) creq, q func(int, string) creq) {
	var sc []*vsched.Scenario
	sizes := []int{4, 6, 9, 17}
	if w.Thorough {
		sizes = []int{4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33}
	}
	for _, n := range sizes {
		for _, kind := range []string{"same", "spread", "batches", "mixed", "refused"} {
			var cl [][]creq
			for i := 0; i < n; i++ {
				b := uint(i)
				k, j := string("ab"[i%2]), string("pq"[i/2%2])
				switch kind {
				case "same":
					cl = append(cl, []creq{p(o(b, "a", "p"))})
				case "spread":
					cl = append(cl, []creq{p(o(b, k, j))})
				case "batches":
					if i < 12 {
						cl = append(cl, []creq{p(o(3*b, k, j), o(3*b+1, "a", "p"), o(3*b+2, "b", j))})
					}
				case "mixed":
					if i%3 == 2 {
						cl = append(cl, []creq{q(i%2, []string{"a", "p"}[i%2])})
					} else {
						cl = append(cl, []creq{p(o(b, k, j)), q(0, k)})
					}
				case "refused":
					if i%3 == 1 {
						cl = append(cl, []creq{p(o(b, k, j), cobs{b + 33, k, j, true})})
					} else {
						cl = append(cl, []creq{p(o(b, k, j))})
					}
				}
			}
			if kind == "batches" && n > 12 {
				continue
			}
			if kind == "refused" && n > 17 {
				continue
			}
			var pre []cobs
			if kind == "mixed" {
				pre = []cobs{o(50, "a", "p"), o(51, "b", "q")}
			}
			sc = append(sc, cscenario(fmt.Sprintf("%s of %d", kind, n), pre, cl...))
		}
	}
	rest := []int{0, 1}
	if w.Thorough {
		rest = []int{0, 1, 2, 3, 5, 8, 13}
	}
	(&vlib.Crowd{Scenarios: sc, Rest: rest}).Run(w)
}
