// Package hx is the harness of the demo server (C23). It runs the demo's own
// main function: once for every history with Serve intercepted, to take the
// collations it has set up, and once as it is, over TCP.
package hx

import (
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vref"
)

var srv *server.Server

var bg = context.Background()

// Main runs the harness.
func Main(demo func()) {
	if os.Getenv("VW_DEMO") != "" {
		demo()
		return
	}
	vlib.Main(func(w *vlib.W) {
		srv = vhttp.Start()
		w.Case("definitions", func() error {
			if err := fresh(demo); err != nil {
				return err
			}
			var names []string
			for _, s := range srv.Stores {
				names = append(names, s.Collator.Name())
			}
			sort.Strings(names)
			for i := range names {
				if i > 0 && names[i] == names[i-1] {
					return fmt.Errorf("the demo defines %v", names)
				}
			}
			w.Eval(1)
			return nil
		})
		calibrate(w, demo)
		accuracy(w, demo)
		sequences(w, demo)
		groups(w, demo)
		dataset(w, demo)
		overTCP(w)
	})
}

// fresh sets the demo up anew and serves its collations.
func fresh(demo func()) error {
	srv.Stores = nil
	var got *server.Server
	server.VerifServe = func(s *server.Server) error { got = s; return nil }
	demo()
	server.VerifServe = nil
	if got == nil {
		return fmt.Errorf("the demo does not start a server")
	}
	srv.Stores = got.Stores
	return nil
}

// observation is a list of fields in order.
type observation [][2]string

func parse(line string) observation {
	i := 0
	for i < len(line) && line[i] >= '0' && line[i] <= '9' {
		i++
	}
	var o observation
	for _, p := range strings.Split(line[i+1:], line[i:i+1]) {
		eq := strings.IndexByte(p, '=')
		o = append(o, [2]string{p[:eq], p[eq+1:]})
	}
	return o
}

func (o observation) get(n string) (string, bool) {
	for _, f := range o {
		if f[0] == n {
			return f[1], true
		}
	}
	return "", false
}

// group is what is known of one instance.
type group struct {
	n                      int
	height                 *vref.Exact
	iata, country, heights []string
}

func add(l []string, v string) []string {
	for _, x := range l {
		if x == v {
			return l
		}
	}
	return append(l, v)
}

// model is the reference: collation, key value, group.
type model map[string]map[string]*group

func newModel() model { return model{"country": {}, "tz": {}} }

func (m model) observe(o observation) {
	for coll, gs := range m {
		k, ok := o.get(coll)
		if !ok {
			continue
		}
		g := gs[k]
		if g == nil {
			g = &group{height: vref.NewExact()}
			gs[k] = g
		}
		g.n++
		if v, ok := o.get("height"); ok {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				panic(err)
			}
			g.height.Add(f)
			g.heights = add(g.heights, v)
		}
		if v, ok := o.get("iata"); ok {
			g.iata = add(g.iata, v)
		}
		if v, ok := o.get("country"); ok {
			g.country = add(g.country, v)
		}
	}
}

// precisions that explain all estimates so far, by measure.
var precisions map[string][]uint8

func estimates(vals []string) (out [19]int64) {
	for p := uint8(4); p <= 18; p++ {
		if p > 14 && len(vals) < 50 {
			out[p] = -1
			continue
		}
		c := hll.New(p)
		for _, v := range vals {
			c.Add([]byte(v))
		}
		out[p] = c.Count()
	}
	return
}

// unique judges the estimate of the number of distinct values: it is close,
// and it is the estimate of a counter of one fixed precision for these values.
func unique(what string, got float64, vals []string) error {
	n := float64(len(vals))
	if math.Abs(got-n) > 4+6*0.065*n {
		return fmt.Errorf("%s is %v, there are %d distinct values", what, got, len(vals))
	}
	if ps, ok := precisions[what]; ok {
		for _, p := range ps {
			c := hll.New(p)
			for _, v := range vals {
				c.Add([]byte(v))
			}
			if float64(c.Count()) == got {
				return nil
			}
		}
		return fmt.Errorf("%s is %v, no estimate of these %d distinct values at precision %v", what, got, len(vals), ps)
	}
	return nil
}

// ask reads measures of one group through the handler.
func ask(coll, key string, pairs []string) (map[string]float64, error) {
	if strings.ContainsAny(key, "'\"") {
		return direct(coll, key, pairs)
	}
	q := "select " + strings.Join(pairs, ", ") + " where " + coll + "='" + key + "'"
	r := vhttp.Query(srv, coll, q)
	if r.Code != 200 {
		return nil, fmt.Errorf("%s: status %d: %s", q, r.Code, r.Body)
	}
	return answers(q, r.Body, pairs)
}

func answers(q, body string, pairs []string) (map[string]float64, error) {
	out := map[string]float64{}
	for _, l := range strings.Split(body, "\n") {
		for _, p := range pairs {
			if strings.HasPrefix(l, p+"=") {
				v, err := strconv.ParseFloat(l[len(p)+1:], 64)
				if err != nil {
					return nil, fmt.Errorf("%s answers %q", q, body)
				}
				if _, dup := out[p]; dup {
					return nil, fmt.Errorf("%s answers %s twice", q, p)
				}
				out[p] = v
			}
		}
	}
	return out, nil
}

// direct reads measures of a group whose key a query cannot express.
func direct(coll, key string, pairs []string) (map[string]float64, error) {
	for _, st := range srv.Stores {
		if st.Collator.Name() != coll {
			continue
		}
		q := collation.Query{Criteria: collation.FVList{{F: []byte(coll), V: []byte(key)}}}
		for _, p := range pairs {
			i := strings.IndexByte(p, '(')
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(p[i+1 : len(p)-1]), M: [][]byte{[]byte(p[:i])}})
		}
		var s storage.Store = st
		res, err := s.Read(bg, q)
		if err != nil {
			return nil, err
		}
		out := map[string]float64{}
		for _, f := range res.FieldMeasureValues {
			v, ok := f.V.(float64)
			if !ok {
				return nil, fmt.Errorf("%v is no number", f)
			}
			out[string(f.M)+"("+string(f.F)+")"] = v
		}
		return out, nil
	}
	return nil, fmt.Errorf("no collation %s", coll)
}

var countryPairs = []string{"count(*)", "mean(height)", "sum(height)", "var(height)", "max(height)", "min(height)", "uniquecount(iata)"}
var tzPairs = []string{"count(*)", "uniquecount(country)", "uniquecount(height)"}

// judge compares the answers for a group with the model.
func (m model) judge(coll, key string, got map[string]float64) error {
	pairs := countryPairs
	if coll == "tz" {
		pairs = tzPairs
	}
	g := m[coll][key]
	for _, p := range pairs {
		v, ok := got[p]
		if g == nil {
			if ok && p == "count(*)" && v != 0 {
				return fmt.Errorf("%s of %s %q, of which there were no observations, is %v", p, coll, key, v)
			}
			continue
		}
		if !ok {
			return fmt.Errorf("%s of %s %q is not answered", p, coll, key)
		}
		var err error
		switch p {
		case "count(*)":
			if v != float64(g.n) {
				err = fmt.Errorf("%v, want %d", v, g.n)
			}
		case "uniquecount(iata)":
			err = unique("country: iata", v, g.iata)
		case "uniquecount(country)":
			err = unique("tz: country", v, g.country)
		case "uniquecount(height)":
			err = unique("tz: height", v, g.heights)
		default:
			err = g.height.Check(p[:strings.IndexByte(p, '(')], v)
		}
		if err != nil {
			return fmt.Errorf("%s of %s %q: %v", p, coll, key, err)
		}
	}
	return nil
}

// all queries every group of both collations and some that do not exist.
func (m model) all(w *vlib.W, extra ...string) error {
	for coll, pairs := range map[string][]string{"country": countryPairs, "tz": tzPairs} {
		var names []string
		for k := range m[coll] {
			names = append(names, k)
		}
		names = append(names, extra...)
		for _, k := range names {
			got, err := ask(coll, k, pairs)
			if err != nil {
				return err
			}
			if err := m.judge(coll, k, got); err != nil {
				return err
			}
			w.Tick()
		}
	}
	return nil
}

func post(lines string, form bool) error {
	r := vhttp.Resp{}
	if form {
		r = vhttp.Do(srv, "POST", "/obs", "application/x-www-form-urlencoded", strings.NewReader("data="+url.QueryEscape(lines)))
	} else {
		r = vhttp.Post(srv, lines)
	}
	if r.Code != 200 {
		return fmt.Errorf("%.200q is answered with status %d: %s", lines, r.Code, r.Body)
	}
	return nil
}

// calibrate finds the precisions of the unique counts.
func calibrate(w *vlib.W, demo func()) {
	if err := vlib.Guard(func() error {
		if err := fresh(demo); err != nil {
			return err
		}
		var vals []string
		cand := map[string][]uint8{}
		for i := 0; i < 400; i++ {
			v := strconv.Itoa(1000 + 7*i)
			vals = append(vals, v)
			if err := post("1|country=X|iata="+v+"\n1|tz=Y|country="+v+"\n1|tz=Y|height="+v, false); err != nil {
				return err
			}
			if i%50 != 49 {
				continue
			}
			est := estimates(vals)
			c, err := ask("country", "X", countryPairs)
			if err != nil {
				return err
			}
			t, err := ask("tz", "Y", tzPairs)
			if err != nil {
				return err
			}
			for what, v := range map[string]float64{"country: iata": c["uniquecount(iata)"], "tz: country": t["uniquecount(country)"], "tz: height": t["uniquecount(height)"]} {
				var keep []uint8
				for p := uint8(4); p <= 18; p++ {
					ok := i == 49
					for _, q := range cand[what] {
						ok = ok || q == p
					}
					if ok && float64(est[p]) == v {
						keep = append(keep, p)
					}
				}
				cand[what] = keep
			}
		}
		precisions = map[string][]uint8{}
		for what, ps := range cand {
			if len(ps) == 0 {
				return fmt.Errorf("%s: the estimates are those of no fixed precision", what)
			}
			precisions[what] = ps
			w.Note("precision "+what, fmt.Sprint(ps))
		}
		return nil
	}); err != nil {
		precisions = nil
		w.Case("calibrate", func() error { return err })
	}
}

// accuracy: over many groups of different values the unique counts are, in the
// root mean square, no further off than an estimate of 6.5 % standard error
// (that of 256 registers) is by chance.
func accuracy(w *vlib.W, demo func()) {
	for _, n := range []int{100, 200, 400} {
		n := n
		w.Case(fmt.Sprintf("accuracy %d", n), func() error {
			sum := map[string]float64{}
			const fams = 40
			for f := 0; f < fams; f++ {
				if err := fresh(demo); err != nil {
					return err
				}
				var b strings.Builder
				for i := 0; i < n; i++ {
					v := []string{fmt.Sprintf("%d", f*100000+i), fmt.Sprintf("v%d-%d", f, i), fmt.Sprintf("%d.%d", i, f), fmt.Sprintf("%06d%c", i*(f+1), 'A'+f%26)}[f%4]
					if f%4 == 1 || f%4 == 3 {
						fmt.Fprintf(&b, "1|country=c%d|iata=%s\n1|tz=t%d|country=%s\n", f, v, f, v)
						continue
					}
					fmt.Fprintf(&b, "1|country=c%d|iata=%s\n1|tz=t%d|country=%s\n1|tz=t%d|height=%s\n", f, v, f, v, f, v)
				}
				if err := post(b.String(), false); err != nil {
					return err
				}
				c, err := ask("country", fmt.Sprint("c", f), countryPairs)
				if err != nil {
					return err
				}
				t, err := ask("tz", fmt.Sprint("t", f), tzPairs)
				if err != nil {
					return err
				}
				for what, v := range map[string]float64{"iata per country": c["uniquecount(iata)"], "countries per tz": t["uniquecount(country)"], "heights per tz": t["uniquecount(height)"]} {
					if what == "heights per tz" && f%2 == 1 {
						continue
					}
					e := v/float64(n) - 1
					sum[what] += e * e
					if what == "heights per tz" {
						sum[what] += e * e
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			for what, s := range sum {
				if r := math.Sqrt(s / fams); r > 0.10 {
					return fmt.Errorf("unique %s: the estimates of %d distinct values are off by %.1f %% in the root mean square", what, n, 100*r)
				} else {
					w.Note(fmt.Sprintf("error of %s, %d values", what, n), fmt.Sprintf("%.1f%%", 100*r))
				}
			}
			return nil
		})
	}
}

var lines = []string{
	"1478566442000000|name=Toulouse|country=France|iata=LFBF|height=535|tz=Europe/Paris",
	"1478566442000000|country=France|iata=LFPG|height=-12|tz=Europe/Paris",
	"1478566442000001|name=Aachen|country=Germany|iata=EDKA|height=570|tz=Europe/Berlin",
	"1|country=Germany|height=100.5",
	"1|tz=Europe/Paris|height=535",
	"1|name=Nowhere|iata=XXXX|height=1",
	"1|tz=Europe/Berlin|iata=LFBF|country=France",
	"1,height=7,tz=Europe/Berlin,iata=EDKB,country=France",
	"1|country=Europe/Paris|tz=France|height=3|iata=EDKA",
	"1\tname=Abbé\tcountry=Isle of Man\ttz=Europe/Paris\tiata=EGNS",
	"1",
}

func sequences(w *vlib.W, demo func()) {
	depth := 4
	if w.Thorough {
		depth = 6
	}
	for i := range lines {
		for j := range lines {
			i, j := i, j
			w.Case(fmt.Sprintf("observations %d %d", i, j), func() error {
				var bad error
				for d := 1; d <= depth && bad == nil; d++ {
					if d == 1 {
						if j == 0 {
							bad = run(w, demo, []int{i})
						}
						continue
					}
					vlib.Seqs(len(lines), d-2, func(s []int) {
						if bad == nil {
							bad = run(w, demo, append([]int{i, j}, s...))
						}
					})
				}
				return bad
			})
		}
	}
}

func run(w *vlib.W, demo func(), seq []int) error {
	if err := fresh(demo); err != nil {
		return err
	}
	m := newModel()
	var text []string
	for n, s := range seq {
		text = append(text, lines[s])
		if lines[s] != "1" {
			m.observe(parse(lines[s]))
		}
		// one after the other, as a form, or all at once
		var err error
		switch (seq[0] + len(seq)) % 3 {
		case 0:
			err = post(lines[s], false)
		case 1:
			err = post(lines[s], true)
		default:
			if n == len(seq)-1 {
				err = post(strings.Join(text, "\n"), false)
			}
		}
		if err != nil {
			return err
		}
	}
	if err := m.all(w, "Spain", "France", "Germany", "Europe/Paris", "Nowhere", "XXXX"); err != nil {
		return fmt.Errorf("after %q: %v", text, err)
	}
	w.Eval(1)
	if len(seq) > 1 {
		w.NT(1)
	}
	w.Tick()
	return nil
}

// airports reads the bundled observations.
func airports() ([]string, error) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VW_REPO"), "misc", "airports.sh"))
	if err != nil {
		return nil, err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, `--data "data=`)
		if i < 0 {
			continue
		}
		l = l[i+len(`--data "data=`):]
		j := strings.LastIndex(l, `" http`)
		if j < 0 {
			return nil, fmt.Errorf("cannot read the line %q of the dataset", l)
		}
		out = append(out, strings.ReplaceAll(l[:j], `\\`, `\`))
	}
	if len(out) < 1000 {
		return nil, fmt.Errorf("the dataset has only %d observations", len(out))
	}
	return out, nil
}

// groups: as many groups as the dataset has, of several kinds of names, each
// with its own observations.
func groups(w *vlib.W, demo func()) {
	obs, err := airports()
	if err != nil {
		panic(err)
	}
	m := newModel()
	for _, l := range obs {
		m.observe(parse(l))
	}
	n := len(m["country"])
	if len(m["tz"]) > n {
		n = len(m["tz"])
	}
	w.Max("groups", n)
	fams := map[string]func(i int) string{
		"number": func(i int) string { return strconv.Itoa(i) },
		"padded": func(i int) string { return fmt.Sprintf("%05d", i) },
		"name":   func(i int) string { return fmt.Sprintf("Country %d of the world", i) },
		"suffix": func(i int) string { return "c" + strconv.Itoa(i*7) + "/zone" },
		"long":   func(i int) string { return strings.Repeat("x", i+1) },
		"letter": func(i int) string {
			s := ""
			for i++; i > 0; i /= 26 {
				s += string(rune('a' + i%26))
			}
			return s
		},
	}
	for name, f := range fams {
		for _, coll := range []string{"country", "tz", "both"} {
			f, coll := f, coll
			w.Case("groups "+name+" "+coll, func() error {
				if err := fresh(demo); err != nil {
					return err
				}
				m := newModel()
				for round := 0; round < 3; round++ {
					for i := 0; i < n; i++ {
						var l string
						switch coll {
						case "country":
							l = fmt.Sprintf("1|country=%s|height=%d|iata=I%d", f(i), i*10+round, round)
						case "tz":
							l = fmt.Sprintf("1|tz=%s|height=%d|country=C%d", f(i), i*10+round, round%2)
							if i > 2 {
								l = fmt.Sprintf("1|tz=%s|height=%d", f(i), i*10+round)
							}
						default:
							l = fmt.Sprintf("1|tz=%s|country=%s|height=%d|iata=I%d", f(i), f(n-1-i), i*10+round, i)
						}
						if err := post(l, false); err != nil {
							return fmt.Errorf("group %d of %d: %v", i+1, n, err)
						}
						m.observe(parse(l))
						w.Tick()
					}
				}
				w.Eval(n)
				w.NT(n)
				return m.all(w, f(n), f(n+1), "none")
			})
		}
	}
}

// dataset posts the bundled observations in several orders and batches.
func dataset(w *vlib.W, demo func()) {
	obs, err := airports()
	if err != nil {
		panic(err)
	}
	ids := func(f func(i int) int) []int {
		l := make([]int, len(obs))
		for i := range l {
			l[i] = f(i)
		}
		return l
	}
	n := len(obs)
	stride := 1009
	for n%stride == 0 {
		stride += 2
	}
	orders := map[string][]int{
		"in order": ids(func(i int) int { return i }),
		"reversed": ids(func(i int) int { return n - 1 - i }),
		"strided":  ids(func(i int) int { return i * stride % n }),
		"halves":   ids(func(i int) int { return (i + n/2) % n }),
	}
	for name, order := range orders {
		batches := []int{1, 50}
		if w.Thorough {
			batches = append(batches, 7, 400, n)
		}
		for _, batch := range batches {
			for _, form := range []bool{false, true} {
				name, order, batch, form := name, order, batch, form
				w.Case(fmt.Sprintf("dataset %s by %d form=%v", name, batch, form), func() error {
					if err := fresh(demo); err != nil {
						return err
					}
					m := newModel()
					for i := 0; i < n; i += batch {
						var ls []string
						for j := i; j < i+batch && j < n; j++ {
							ls = append(ls, obs[order[j]])
							m.observe(parse(obs[order[j]]))
						}
						if err := post(strings.Join(ls, "\n"), form); err != nil {
							return err
						}
						w.Tick()
						if i/batch == n/batch/3 {
							if err := m.all(w); err != nil {
								return fmt.Errorf("after %d observations: %v", i+batch, err)
							}
						}
					}
					w.Eval(n)
					w.NT(n)
					return m.all(w, "Atlantis", "Mars/Base")
				})
			}
		}
	}
	// as the script sends them: one at a time, as it stands in the form
	w.Case("dataset script", func() error {
		if err := fresh(demo); err != nil {
			return err
		}
		m := newModel()
		for _, l := range obs {
			r := vhttp.Do(srv, "POST", "/obs", "application/x-www-form-urlencoded", strings.NewReader("data="+l))
			v, err := url.ParseQuery("data=" + l)
			if err != nil || v.Get("data") == "" {
				if r.Code == 200 {
					return fmt.Errorf("%q, which is no form, is accepted", l)
				}
				continue
			}
			if r.Code != 200 {
				return fmt.Errorf("%q is answered with status %d: %s", l, r.Code, r.Body)
			}
			m.observe(parse(v.Get("data")))
			w.Tick()
		}
		w.Eval(n)
		if g := m["country"]["United States"]; g == nil || g.n < 1000 {
			return fmt.Errorf("the dataset was not read")
		}
		if err := m.all(w); err != nil {
			return err
		}
		return samples(w, m)
	})
}

// samples: the sample queries of misc/queries.sh and of the README.
func samples(w *vlib.W, m model) error {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VW_REPO"), "misc", "queries.sh"))
	if err != nil {
		return err
	}
	var targets []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		const pre = `curl "http://127.0.0.1:2525`
		if strings.HasPrefix(l, pre) && strings.HasSuffix(l, `"`) {
			targets = append(targets, l[len(pre):len(l)-1])
		}
	}
	if len(targets) == 0 {
		return fmt.Errorf("there are no sample queries")
	}
	for _, q := range []string{"select count(*) where country='United States'", "select min(height), max(height) where country='United States'", "select uniquecount(iata) where country='United States'"} {
		targets = append(targets, "/collation/country?q="+url.QueryEscape(q))
	}
	for _, t := range targets {
		u, err := url.ParseRequestURI(t)
		if err != nil {
			return err
		}
		q := u.Query().Get("q")
		sel, rest, ok := strings.Cut(strings.TrimPrefix(q, "select "), " where ")
		coll, key, ok2 := strings.Cut(rest, "=")
		if !ok || !ok2 {
			return fmt.Errorf("cannot read the sample query %q", q)
		}
		key = strings.Trim(key, "'")
		pairs := strings.Split(strings.ReplaceAll(sel, " ", ""), ",")
		for _, method := range []string{"GET", "POST"} {
			var r vhttp.Resp
			if method == "GET" {
				r = vhttp.Do(srv, "GET", t, "", nil)
			} else {
				r = vhttp.Do(srv, "POST", u.Path, "application/x-www-form-urlencoded", strings.NewReader(u.RawQuery))
			}
			if r.Code != 200 {
				return fmt.Errorf("the sample query %s is answered with status %d: %s", t, r.Code, r.Body)
			}
			got, err := answers(q, r.Body, pairs)
			if err != nil {
				return err
			}
			if len(got) != len(pairs) || strings.Count(r.Body, "\n") != len(pairs)+1 || !strings.HasPrefix(r.Body, coll+"="+key+"\n") {
				return fmt.Errorf("the sample query %q is answered with %q", q, r.Body)
			}
			// judge wants all measures of the group
			all := countryPairs
			if coll == "tz" {
				all = tzPairs
			}
			full, err := ask(coll, key, all)
			if err != nil {
				return err
			}
			for p, v := range got {
				if f, ok := full[p]; !ok || f != v {
					return fmt.Errorf("the sample query %q answers %v for %s, a query for all measures %v", q, v, p, full)
				}
			}
			if m[coll][key] == nil {
				return fmt.Errorf("the sample query %q asks for a group that is not in the dataset", q)
			}
			if err := m.judge(coll, key, full); err != nil {
				return err
			}
			w.Eval(1)
			w.NT(1)
		}
	}
	return nil
}

const tcpAddr = "127.0.0.1:2525"

// overTCP runs the demo as it is and talks to it over TCP.
func overTCP(w *vlib.W) {
	w.Case("over tcp", func() error {
		if c, err := net.DialTimeout("tcp", tcpAddr, time.Second); err == nil {
			c.Close()
			w.Note("over tcp", "port 2525 is in use: not run")
			return nil
		}
		exe, err := os.Executable()
		if err != nil {
			return err
		}
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), "VW_DEMO=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return err
		}
		ended := make(chan error, 1)
		go func() { ended <- cmd.Wait() }()
		defer cmd.Process.Kill()
		tr := &http.Transport{DisableKeepAlives: true}
		cl := &http.Client{Transport: tr}
		up := false
		for i := 0; i < 1000 && !up; i++ {
			select {
			case err := <-ended:
				return fmt.Errorf("the demo ended: %v", err)
			default:
			}
			if r, err := cl.Get("http://" + tcpAddr + "/none"); err == nil {
				r.Body.Close()
				up = true
			}
			time.Sleep(10 * time.Millisecond)
			w.Tick()
		}
		if !up {
			return fmt.Errorf("the demo does not answer on port 2525")
		}
		m := newModel()
		for _, l := range lines {
			r, err := cl.Post("http://"+tcpAddr+"/obs", "application/x-www-form-urlencoded", strings.NewReader("data="+url.QueryEscape(l)))
			if err != nil {
				return err
			}
			r.Body.Close()
			if r.StatusCode != 200 {
				return fmt.Errorf("%q is answered with status %d", l, r.StatusCode)
			}
			if l != "1" {
				m.observe(parse(l))
			}
			w.Tick()
		}
		for coll, pairs := range map[string][]string{"country": countryPairs, "tz": tzPairs} {
			for k := range m[coll] {
				q := "select " + strings.Join(pairs, ", ") + " where " + coll + "='" + k + "'"
				r, err := cl.Get("http://" + tcpAddr + "/collation/" + coll + "?q=" + url.QueryEscape(q))
				if err != nil {
					return err
				}
				b, err := io.ReadAll(r.Body)
				r.Body.Close()
				if err != nil || r.StatusCode != 200 {
					return fmt.Errorf("%s: status %d, %v: %s", q, r.StatusCode, err, b)
				}
				got, err := answers(q, string(b), pairs)
				if err != nil {
					return err
				}
				if err := m.judge(coll, k, got); err != nil {
					return fmt.Errorf("over TCP: %v", err)
				}
				w.Eval(1)
				w.Tick()
			}
		}
		cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-ended:
		case <-time.After(20 * time.Second):
			w.Note("over tcp", "the demo does not end on SIGTERM")
		}
		return nil
	})
}
