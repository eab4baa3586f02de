// Harness for stores over any backend (C28) and for interchangeable collators (C29).
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
)

var ctx = context.Background()

func b(s string) []byte { return []byte(s) }

func field(name string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: name}, Measures: ms}
}

func keys(names ...string) (ks []collation.KeySpec) {
	for _, n := range names {
		ks = append(ks, collation.KeySpec{Field: collation.FieldSpec{Pattern: n}})
	}
	return
}

// row builds a row from "k=v k=v".
func row(s string) (r collation.Row) {
	for _, p := range strings.Fields(s) {
		i := strings.IndexByte(p, '=')
		r.Data = append(r.Data, collation.FV{F: b(p[:i]), V: b(p[i+1:])})
	}
	return
}

// tally is a measure that a user adds: a number with a state of its own when
// nothing has been observed.
type tally struct{}

func (tally) Size() int    { return 11 }
func (tally) Name() string { return "tally" }
func (tally) Init(buf []byte) error {
	if len(buf) != 11 {
		return fmt.Errorf("tally: %d bytes", len(buf))
	}
	copy(buf, "tly")
	binary.LittleEndian.PutUint64(buf[3:], 1000)
	return nil
}
func (tally) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if len(buf) != 11 || string(buf[:3]) != "tly" {
			return fmt.Errorf("tally: bad state %x", buf)
		}
		binary.LittleEndian.PutUint64(buf[3:], binary.LittleEndian.Uint64(buf[3:])*3+uint64(int64(v)))
		return nil
	}
}
func (tally) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		if len(buf) != 11 || string(buf[:3]) != "tly" {
			return 0, fmt.Errorf("tally: bad state %x", buf)
		}
		return float64(binary.LittleEndian.Uint64(buf[3:])), nil
	}
}

// last keeps the last text of up to five bytes of a field.
type last struct{}

func (last) Size() int    { return 6 }
func (last) Name() string { return "last" }
func (last) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		buf[0] = byte(copy(buf[1:6], v))
		return nil
	}
}
func (last) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		if buf[0] > 5 {
			return nil, fmt.Errorf("last: bad state %x", buf)
		}
		return append([]byte{}, buf[1:1+buf[0]]...), nil
	}
}

type schema struct {
	name string
	make func() collation.Schema
	all  []collation.FM // everything it can be asked
}

var u6 = collation.Cardinality{Precision: 6}

func fms(f string, ms ...string) collation.FM {
	fm := collation.FM{F: b(f)}
	for _, m := range ms {
		fm.M = append(fm.M, b(m))
	}
	return fm
}

var schemas = []schema{
	{"plain", func() collation.Schema {
		return collation.Schema{Name: "plain", Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures: []collation.MeasureSpec{field("x", collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}, u6)}}
	}, []collation.FM{fms("*", "count"), fms("x", "count", "sum", "mean", "var", "max", "min", "uniquecount")}},
	{"split", func() collation.Schema {
		return collation.Schema{Name: "split", Keys: keys("k"),
			Measures: []collation.MeasureSpec{field("u", u6, last{}), field("x", collation.Min{}, tally{}, collation.Variance{}), field("y", collation.Max{}, collation.Sum{}, tally{})}}
	}, []collation.FM{fms("u", "uniquecount", "last"), fms("x", "min", "tally", "var"), fms("y", "max", "sum", "tally")}},
	{"bare", func() collation.Schema {
		return collation.Schema{Name: "bare", Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	}, []collation.FM{fms("*", "count")}},
	{"small", func() collation.Schema {
		return collation.Schema{Name: "small", Keys: keys("k"), Measures: []collation.MeasureSpec{field("x", collation.Max{})}}
	}, []collation.FM{fms("x", "max")}},
}

// def is what the collation of one instance is by definition.
type def struct {
	rows []map[string]string
}

func (d def) value(f, m string) interface{} {
	if f == "*" {
		return float64(len(d.rows))
	}
	var xs []float64
	var ts []string
	for _, r := range d.rows {
		if t, ok := r[f]; ok {
			var v float64
			fmt.Sscan(t, &v)
			xs = append(xs, v)
			ts = append(ts, t)
		}
	}
	sum, tl := 0.0, uint64(1000)
	max, min := math.NaN(), math.NaN()
	for _, x := range xs {
		sum += x
		tl = tl*3 + uint64(int64(x))
		if !(max >= x) {
			max = x
		}
		if !(min <= x) {
			min = x
		}
	}
	n := float64(len(xs))
	switch m {
	case "count":
		return n
	case "sum":
		return sum
	case "mean":
		if n == 0 {
			return nil // any
		}
		return sum / n
	case "var":
		if n < 2 {
			return math.NaN()
		}
		s := 0.0
		for _, x := range xs {
			s += (x - sum/n) * (x - sum/n)
		}
		return s / (n - 1)
	case "max":
		return max
	case "min":
		return min
	case "tally":
		return float64(tl)
	case "last":
		if len(ts) == 0 {
			return []byte{}
		}
		return b(ts[len(ts)-1])
	case "uniquecount":
		set := map[string]bool{}
		for _, t := range ts {
			set[t] = true
		}
		c := hll.New(6)
		for t := range set {
			c.Add([]byte(t))
		}
		return float64(c.Count())
	}
	panic(m)
}

func (d def) check(fml []collation.FM, res collation.Result) error {
	i := 0
	for _, fm := range fml {
		for _, m := range fm.M {
			if i == len(res.FieldMeasureValues) {
				return fmt.Errorf("no answer for %s(%s)", m, fm.F)
			}
			g := res.FieldMeasureValues[i]
			i++
			if string(g.F) != string(fm.F) || string(g.M) != string(m) {
				return fmt.Errorf("%s(%s) is answered where %s(%s) was asked", g.M, g.F, m, fm.F)
			}
			switch want := d.value(string(fm.F), string(m)).(type) {
			case []byte:
				if t, ok := g.V.([]byte); !ok || string(t) != string(want) {
					return fmt.Errorf("%v, want %q", g, want)
				}
			case float64:
				v, ok := g.V.(float64)
				tol := 1e-9 * math.Abs(want)
				if !ok || math.IsNaN(v) != math.IsNaN(want) || math.Abs(v-want) > tol {
					return fmt.Errorf("%v, want %v", g, want)
				}
			}
		}
	}
	if i != len(res.FieldMeasureValues) {
		return fmt.Errorf("more answers than questions: %v", res.FieldMeasureValues)
	}
	return nil
}

var errRefused = errors.New("refused by the backend")

// backend keeps the contract of storage.Backend in a way that is planned.
type backend struct {
	size   int
	recs   map[uint64][]byte
	old    map[uint64][]byte // the version before the last
	plan   string            // what the next updates do
	fill   byte              // what fresh memory holds
	extra  int               // how much longer buffers are
	touch  int               // calls of Update
	gets   int
	last   uint64
	inside error
}

// try runs fn on a copy of rec, or on fresh memory.
func (k *backend) try(rec []byte, fn func([]byte, bool) error) ([]byte, error) {
	all := make([]byte, 8+k.size+k.extra+8)
	for i := range all {
		all[i] = 0x6B
	}
	buf := all[8 : 8+k.size+k.extra : 8+k.size+k.extra]
	for i := range buf {
		buf[i] = k.fill
	}
	copy(buf, rec)
	for i := k.size; i < len(buf); i++ {
		buf[i] = 0x6C
	}
	err := fn(buf, rec == nil)
	out := append([]byte{}, buf[:k.size]...)
	for i := range all {
		if i >= 8+k.size && i < 8+k.size+k.extra && all[i] != 0x6C || (i < 8 || i >= 8+k.size+k.extra) && all[i] != 0x6B {
			k.inside = fmt.Errorf("byte %d of a record of %d bytes was changed", i-8, k.size)
		}
		all[i] = 0xEE // nobody may look at it any more
	}
	return out, err
}

// Update: c commits, C commits after the outcome of the first run on another
// copy is thrown away, s the same with the version before (what a reader that
// was overtaken would see), n as if the record were new, x refuses without a
// run, X refuses after a run that went well.
func (k *backend) Update(key uint64, fn func([]byte, bool) error) error {
	k.touch++
	k.last = key
	rec := k.recs[key]
	for _, a := range k.plan {
		switch a {
		case 'x':
			return errRefused
		case 'd':
			if _, err := k.try(rec, fn); err != nil {
				return err
			}
		case 's':
			k.try(k.old[key], fn)
		case 'n':
			k.try(nil, fn)
		case 'c':
			out, err := k.try(rec, fn)
			if err != nil {
				return err
			}
			k.old[key] = rec
			k.recs[key] = out
			return nil
		}
	}
	return errRefused
}

func (k *backend) Get(key uint64, buf []byte) bool {
	k.gets++
	k.last = key
	rec, ok := k.recs[key]
	for i := range buf {
		buf[i] = k.fill ^ 0x5D
	}
	copy(buf, rec)
	return ok
}

var plans = []string{"c", "dc", "sc", "nc", "ddc", "ndsc", "x", "dx", "nnx", "dddddddddc"}

// allPlans are the plans and then those of very many runs.
var allPlans = func() []string {
	out := append([]string{}, plans...)
	for _, n := range manyRuns {
		for _, a := range []string{"d", "s", "n", "dsn"} {
			out = append(out, strings.Repeat(a, n/len(a)+1)[:n]+"c")
		}
	}
	return out
}()

var manyRuns = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 10001, 65536, 65537}

// refused says whether the plan ends without an update.
func refused(p string) bool { return !strings.Contains(p, "c") }

type obs struct {
	text string
	inst string // the instance it is for, none when empty
	bad  bool   // no number where one is needed
}

var observations = []obs{
	{"k=a x=1 y=2 u=3", "a", false},
	{"x=-2 k=a", "a", false},
	{"k=b u=7 x=4 y=-8", "b", false},
	{"x=8 y=8 u=8", "", false},
	{"k=a y=16 x=none u=5", "a", true},
	{"u=3 k=b", "b", false},
	{"k=a x=1", "a", false},
}

func run(w *vlib.W, sc schema, fill byte, extra int, steps [][2]int) error {
	s := sc.make()
	c, err := s.Compile()
	if err != nil {
		return err
	}
	k := &backend{size: c.Size(), recs: map[uint64][]byte{}, old: map[uint64][]byte{}, fill: fill, extra: extra}
	st := &storage.Store{Backend: k, Collator: c}
	insts := map[string]def{}
	ids := map[string]uint64{}
	for n, step := range steps {
		o, plan := observations[step[0]], allPlans[step[1]]
		where := fmt.Sprintf("schema %s, fresh memory %#x, step %d: %q with a backend that does %.40q (%d runs)", sc.name, fill, n+1, o.text, plan, len(plan))
		k.plan, k.touch, k.inside = plan, 0, nil
		r := row(o.text)
		err := st.Write(ctx, r)
		if k.inside != nil {
			return fmt.Errorf("%s: %v", where, k.inside)
		}
		if o.inst == "" {
			if err != nil || k.touch > 0 {
				return fmt.Errorf("%s: no instance is meant, yet the backend is called %d times, error %v", where, k.touch, err)
			}
		} else {
			bad := o.bad && sc.name != "bare"
			switch {
			case bad && err == nil:
				return fmt.Errorf("%s: an observation without a number is taken", where)
			case !bad && refused(plan) && (err == nil || !errors.Is(err, errRefused) && !strings.Contains(err.Error(), errRefused.Error())):
				return fmt.Errorf("%s: the backend's refusal is reported as %v", where, err)
			case !bad && !refused(plan) && err != nil:
				return fmt.Errorf("%s: %v", where, err)
			}
			if k.last == 0 {
				return fmt.Errorf("%s: the backend is called with the key 0", where)
			}
			if id, ok := ids[o.inst]; ok && id != k.last {
				return fmt.Errorf("%s: instance %s had key %d, now %d", where, o.inst, id, k.last)
			}
			ids[o.inst] = k.last
			if err == nil {
				m := map[string]string{}
				for _, p := range strings.Fields(o.text) {
					i := strings.IndexByte(p, '=')
					m[p[:i]] = p[i+1:]
				}
				insts[o.inst] = def{append(append([]map[string]string{}, insts[o.inst].rows...), m)}
			}
		}
		if s := fmt.Sprintf("%q", r.Data); s != fmt.Sprintf("%q", row(o.text).Data) {
			return fmt.Errorf("%s: the observation is changed to %s", where, s)
		}
		w.Eval(1)
		if len(plan) > 1 || n > 0 {
			w.NT(1)
		}
		if n+1 < len(steps) && len(steps) > 2 {
			continue // shorter histories have been asked already
		}
		for _, inst := range []string{"a", "b", "c"} {
			k.last = 0
			d, known := insts[inst]
			res, err := st.Read(ctx, collation.Query{FieldMeasures: sc.all, Criteria: collation.FVList{{F: b("k"), V: b(inst)}}})
			if err != nil {
				return fmt.Errorf("%s: query for %s: %v", where, inst, err)
			}
			if id, ok := ids[inst]; ok && k.last != id {
				return fmt.Errorf("%s: a query for %s reads key %d, its observations went to %d", where, inst, k.last, id)
			}
			if !known {
				if len(res.FieldMeasureValues) > 0 {
					return fmt.Errorf("%s: a query for %s, not observed, answers %v", where, inst, res.FieldMeasureValues)
				}
				continue
			}
			if err := d.check(sc.all, res); err != nil {
				return fmt.Errorf("%s: instance %s: %v", where, inst, err)
			}
		}
	}
	w.Tick()
	return nil
}

// wide is a schema whose records are long, with measures near their ends.
func wide(n int) schema {
	return schema{fmt.Sprintf("wide%d", n), func() collation.Schema {
		s := collation.Schema{Name: "wide", Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		s.Measures = append(s.Measures, field("y", collation.Max{}, tally{}))
		for i := 0; i < n; i++ {
			s.Measures = append(s.Measures, field(fmt.Sprintf("f%d", i), collation.Min{}, collation.Sum{}, last{}, tally{}))
		}
		s.Measures = append(s.Measures, field("x", collation.Count{}, collation.Sum{}, collation.Min{}, tally{}), field("u", last{}, u6))
		return s
	}, []collation.FM{fms("*", "count"), fms("y", "max", "tally"), fms("f0", "min", "sum", "tally", "last"), fms(fmt.Sprintf("f%d", n/2), "min", "sum", "tally", "last"), fms(fmt.Sprintf("f%d", n-1), "sum", "tally", "last"), fms("x", "count", "sum", "min", "tally"), fms("u", "uniquecount", "last")}}
}

func c28(w *vlib.W) {
	ns := []int{10, 17, 36, 70, 72, 144, 288, 576, 1150, 2300}
	if w.Thorough {
		ns = append(ns, 4600, 20000)
	}
	for _, n := range ns {
		for _, fill := range []byte{0, 0xFF, 0x6D} {
			n, fill := n, fill
			w.Case(fmt.Sprintf("wide records %d %x", n, fill), func() error {
				sc := wide(n)
				for o := range observations {
					for p := range plans {
						for _, extra := range []int{0, 5} {
							if n > 300 && (o+p+extra)%5 > 0 && !w.Thorough {
								continue
							}
							if err := run(w, sc, fill, extra, [][2]int{{o, p}, {(o + p) % len(observations), p}}); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
	}
	for _, sc := range schemas {
		for p := len(plans); p < len(allPlans); p++ {
			sc, p := sc, p
			w.Case(fmt.Sprintf("%s: %d runs of %.3s", sc.name, len(allPlans[p])-1, allPlans[p]), func() error {
				if err := run(w, sc, 0xFF, 0, [][2]int{{0, p}, {1, 0}}); err != nil {
					return err
				}
				if err := run(w, sc, 0xFF, 5, [][2]int{{2, p}, {0, p}}); err != nil {
					return err
				}
				return run(w, sc, 0x6D, 0, [][2]int{{0, 0}, {6, p}})
			})
		}
	}
	depth := 3
	if w.Thorough {
		depth = 4
	}
	for _, sc := range schemas {
		for _, fill := range []byte{0, 0xFF, 0x6D} {
			for _, extra := range []int{0, 5} {
				for o := range observations {
					for p := range plans {
						sc, fill, extra, o, p := sc, fill, extra, o, p
						w.Case(fmt.Sprintf("%s %x+%d %s: %s", sc.name, fill, extra, observations[o].text, plans[p]), func() error {
							var rec func(steps [][2]int) error
							rec = func(steps [][2]int) error {
								if err := run(w, sc, fill, extra, steps); err != nil {
									return err
								}
								if len(steps) == depth {
									return nil
								}
								for o2 := range observations {
									for p2, pl := range plans {
										// the last observations of the deepest histories are taken at once or in a new way
										if len(steps) >= 2 && pl != "c" && pl != "ndsc" && pl != "dx" {
											continue
										}
										if err := rec(append(steps, [2]int{o2, p2})); err != nil {
											return err
										}
									}
								}
								return nil
							}
							return rec([][2]int{{o, p}})
						})
					}
				}
			}
		}
	}
}

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	vlib.Main(func(w *vlib.W) {
		switch os.Getenv("VW_PROP") {
		case "C28":
			c28(w)
		case "C29":
			c29(w)
		}
	})
}
