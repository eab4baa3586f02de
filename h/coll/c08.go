package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
)

// mk makes the measures by a letter: n s m v x i, and c with a precision.
type meas struct {
	code string
	m    collation.Measure
}

var measAll = []meas{
	{"n", collation.Count{}}, {"s", collation.Sum{}}, {"m", collation.Mean{}}, {"v", collation.Variance{}},
	{"x", collation.Max{}}, {"i", collation.Min{}}, {"c4", collation.Cardinality{Precision: 4}}, {"c5", collation.Cardinality{Precision: 5}},
}

const builtin = 8 // how many of measAll the package brings; see custom.go for the others

// fs is a field with the indexes of its measures.
type fs struct {
	f  string
	ms []int
}

type layout struct {
	rec    int   // number of record counts
	recs   []int // more record measures, of recAll
	fields []fs
}

func (l layout) String() string {
	s := strings.Repeat("#", l.rec)
	for _, m := range l.recs {
		s += recAll[m].code
	}
	for _, f := range l.fields {
		s += " " + f.f + ":"
		for _, m := range f.ms {
			s += measAll[m].code
		}
	}
	return s
}

func (l layout) schema() collation.Schema {
	s := collation.Schema{Name: "c"}
	for i := 0; i < l.rec; i++ {
		s.RecordMeasures = append(s.RecordMeasures, collation.Count{})
	}
	for _, m := range l.recs {
		s.RecordMeasures = append(s.RecordMeasures, recAll[m].m)
	}
	for _, f := range l.fields {
		sp := field(f.f)
		for _, m := range f.ms {
			sp.Measures = append(sp.Measures, measAll[m].m)
		}
		s.Measures = append(s.Measures, sp)
	}
	return s
}

func (l layout) wants() (ws []want) {
	if l.rec > 0 {
		ws = append(ws, want{"*", "count"})
	}
	for _, m := range l.recs {
		if outputs(recAll[m].m) {
			ws = append(ws, want{"*", recAll[m].m.Name()})
		}
	}
	for _, f := range l.fields {
		for _, m := range f.ms {
			if !outputs(measAll[m].m) {
				continue
			}
			k := want{f.f, measAll[m].m.Name()}
			dup := false
			for _, w := range ws {
				dup = dup || w == k
			}
			if !dup {
				ws = append(ws, k)
			}
		}
	}
	return
}

var c08Rows = []collation.Row{
	row("x", "3", "y", "-1"),
	row("x", "-2.5"),
	row("y", "7"),
	row("z", "1"),
	row("y", "4e3", "z", "abc", "x", "0"),
	row("x", "NaN", "y", "7"),
}

const guard = 64

// record is a buffer with guard bytes around the declared size.
type record struct {
	c    collation.Collator
	all  []byte
	used int
}

func newRecord(c collation.Collator, fill byte) *record {
	r := &record{c: c, all: make([]byte, guard+c.Size()+guard)}
	for i := range r.all {
		r.all[i] = 0xA5
	}
	for i := 0; i < c.Size(); i++ {
		r.all[guard+i] = fill
	}
	return r
}

func (r *record) buf() []byte { return r.all[guard : guard+r.c.Size()] }

func (r *record) guards() error {
	for i := 0; i < guard; i++ {
		if r.all[i] != 0xA5 || r.all[len(r.all)-1-i] != 0xA5 {
			return fmt.Errorf("bytes outside the record of %d bytes were changed", r.c.Size())
		}
	}
	return nil
}

func (r *record) update(rw collation.Row) error {
	if err := r.c.Update(rw, r.buf(), r.used == 0); err != nil {
		return fmt.Errorf("update: %v", err)
	}
	r.used++
	return r.guards()
}

func (r *record) read(ws []want) ([]float64, error) {
	before := append([]byte(nil), r.all...)
	q := query(nil, ws)
	res, err := r.c.Read(q.FieldMeasures, r.buf())
	if err != nil {
		return nil, fmt.Errorf("read: %v", err)
	}
	if !bytes.Equal(before, r.all) {
		return nil, fmt.Errorf("reading changed the record")
	}
	if len(res.FieldMeasureValues) != len(ws) {
		return nil, fmt.Errorf("%d answers to %d measures: %v to %v", len(res.FieldMeasureValues), len(ws), res.FieldMeasureValues, ws)
	}
	out := make([]float64, len(ws))
	for i, v := range res.FieldMeasureValues {
		// fields may be regrouped by the query, so look the pair up
		for j, w := range ws {
			if w.f == string(v.F) && w.m == string(v.M) {
				f, ok := v.V.(float64)
				if isText(w.m) {
					var t []byte
					if t, ok = v.V.([]byte); ok {
						f = textNumber(t)
					}
				}
				if !ok {
					return nil, fmt.Errorf("%v is a %T", v, v.V)
				}
				out[j] = f
			}
		}
		_ = i
	}
	return out, nil
}

var singles = map[string]map[string]float64{}

// single is what a measure alone reports after a history.
func single(k string, l layout, hist []int, w want) (float64, error) {
	hk := fmt.Sprint(hist)
	m := singles[k]
	if m == nil {
		m = map[string]float64{}
		singles[k] = m
	}
	if v, ok := m[hk]; ok {
		return v, nil
	}
	c, err := l.schema2().Compile()
	if err != nil {
		return 0, fmt.Errorf("schema %v alone: %v", l, err)
	}
	r := newRecord(c, 0)
	for _, h := range hist {
		if err := r.update(c08Rows[h]); err != nil {
			return 0, fmt.Errorf("schema %v alone: %v", l, err)
		}
	}
	v, err := r.read([]want{w})
	if err != nil {
		return 0, fmt.Errorf("schema %v alone: %v", l, err)
	}
	m[hk] = v[0]
	return v[0], nil
}

func (l layout) schema2() *collation.Schema { s := l.schema(); return &s }

func sameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func c08Check(w *vlib.W, l layout, hists [][]int, fill byte) error {
	c, err := l.schema2().Compile()
	if err != nil {
		return fmt.Errorf("schema %v is rejected: %v", l, err)
	}
	ws := l.wants()
	// the layout of each measure alone
	alone := make([]layout, len(ws))
	for i, q := range ws {
		if q.f == "*" {
			alone[i] = layout{rec: 1}
			for _, m := range l.recs {
				if recAll[m].m.Name() == q.m {
					alone[i] = layout{recs: []int{m}}
				}
			}
			continue
		}
		for _, f := range l.fields {
			for _, m := range f.ms {
				if f.f == q.f && measAll[m].m.Name() == q.m {
					alone[i] = layout{fields: []fs{{f.f, []int{m}}}}
				}
			}
		}
	}
	for _, h := range hists {
		r := newRecord(c, fill)
		for _, i := range h {
			if err := r.update(c08Rows[i]); err != nil {
				return fmt.Errorf("schema %v rows %v: %v", l, h, err)
			}
		}
		got, err := r.read(ws)
		if err != nil {
			return fmt.Errorf("schema %v rows %v: %v", l, h, err)
		}
		for i, q := range ws {
			v, err := single(alone[i].String(), alone[i], h, q)
			if err != nil {
				return err
			}
			if !sameFloat(v, got[i]) {
				return fmt.Errorf("schema %v rows %v: %s(%s) is %v, but %v when it is the only measure", l, h, q.m, q.f, got[i], v)
			}
		}
		w.Eval(1)
		if len(ws) > 1 {
			w.NT(1)
		}
	}
	w.Tick()
	return nil
}

// orders calls fn with every ordered selection of up to n of the measures, at most one cardinality.
func orders(k, n int, fn func(sel []int)) {
	var rec func(sel []int)
	rec = func(sel []int) {
		fn(append([]int(nil), sel...))
		if len(sel) == n {
			return
		}
	next:
		for m := 0; m < k; m++ {
			for _, o := range sel {
				if measAll[o].m.Name() == measAll[m].m.Name() {
					continue next
				}
			}
			rec(append(sel, m))
		}
	}
	rec(nil)
}

func c08(w *vlib.W) {
	var h1, h2, h3 [][]int
	for l := 1; l <= 3; l++ {
		vlib.Seqs(len(c08Rows), l, func(s []int) {
			c := append([]int(nil), s...)
			if l <= 1 {
				h1 = append(h1, c)
			}
			if l <= 2 {
				h2 = append(h2, c)
			}
			h3 = append(h3, c)
		})
	}
	long := [][]int{{3, 2, 1, 0, 4, 5, 1, 2}, {0, 0, 0, 0, 1, 1, 4}, {5, 4, 3, 2, 1, 0}, {3, 3, 3}, {2, 2, 1}, {5, 5, 1, 5}}
	hs := append(append([][]int{}, h2...), long...)
	x := 0
	if w.Thorough {
		x = 1
		hs = append(append([][]int{}, h3...), long...)
	}
	var sels [][]int
	orders(builtin, 3, func(s []int) { sels = append(sels, s) })
	var small [][]int
	orders(builtin, 1+x, func(s []int) { small = append(small, s) })
	// one field, every ordered selection of up to 5 (6) measures
	orders(builtin, 5+x, func(s []int) {
		if len(s) <= 3 && len(s) > 0 {
			return
		}
		s = append([]int(nil), s...)
		for rec := 0; rec < 2; rec++ {
			l := layout{rec: rec, fields: []fs{{"x", s}}}
			w.Case("one field "+l.String(), func() error { return c08Check(w, l, append(append([][]int{}, h1...), long...), 0) })
		}
	})
	// two fields
	for _, a := range sels {
		for _, c := range small {
			for rec := 0; rec < 3; rec++ {
				if rec == 2 && len(a) > 1 {
					continue
				}
				for o := 0; o < 2; o++ {
					f := []fs{{"x", a}, {"y", c}}
					if o == 1 {
						f = []fs{{"y", c}, {"x", a}}
					}
					l := layout{rec: rec, fields: f}
					w.Case("two fields "+l.String(), func() error {
						if err := c08Check(w, l, hs, 0); err != nil {
							return err
						}
						if len(a)+len(c) <= 3 {
							// a new record's buffer may hold anything
							for _, fill := range []byte{0xff, 0x01, 0x7f} {
								if err := c08Check(w, l, append(append([][]int{}, h1...), long...), fill); err != nil {
									return fmt.Errorf("new record with buffer full of %#x: %v", fill, err)
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
	// three fields, and a field listed twice
	for _, a := range small {
		for _, c := range small {
			for _, d := range small {
				for v, names := range [][]string{{"x", "y", "z"}, {"x", "y", "x"}, {"x", "x", "y"}, {"y", "z", "x"}} {
					f := []fs{{names[0], a}, {names[1], c}, {names[2], d}}
					if names[2] == "z" || names[1] == "z" {
						// z carries text, so it takes only discrete measures
						bad := false
						zs := d
						if names[1] == "z" {
							zs = c
						}
						for _, m := range zs {
							bad = bad || measAll[m].code[0] != 'c'
						}
						if bad {
							continue
						}
					}
					// the same measure name twice on one field is skipped unless it is the same measure
					amb := false
					seen := map[want]string{}
					for _, q := range f {
						for _, m := range q.ms {
							k := want{q.f, measAll[m].m.Name()}
							if o, ok := seen[k]; ok && o != measAll[m].code {
								amb = true
							}
							seen[k] = measAll[m].code
						}
					}
					if amb {
						continue
					}
					l := layout{rec: v % 2, fields: f}
					w.Case("three fields "+l.String(), func() error { return c08Check(w, l, hs, 0) })
				}
			}
		}
	}
	// the same measure listed twice
	for m := range measAll[:builtin] {
		for o := range measAll[:builtin] {
			if m == o || measAll[m].m.Name() == measAll[o].m.Name() {
				continue
			}
			for v, ms := range [][]int{{m, m}, {m, m, o}, {m, o, m}, {o, m, m}} {
				l := layout{rec: v % 2, fields: []fs{{"x", ms}, {"y", []int{o}}}}
				w.Case(fmt.Sprintf("repeated %d %v", o, l), func() error { return c08Check(w, l, hs, 0) })
			}
		}
	}
	c08Custom(w, h1, h2, long)
	c08Refusals(w, hs)
	c08Big(w)
	// precisions
	for p := -3; p <= 300; p++ {
		p := p
		w.Case(fmt.Sprintf("precision %d", p), func() error {
			for _, other := range []bool{false, true} {
				s := &collation.Schema{Measures: []collation.MeasureSpec{field("x", collation.Cardinality{Precision: p})}}
				ws := []want{{"x", "uniquecount"}}
				if other {
					s.Measures = []collation.MeasureSpec{field("y", collation.Max{}), field("x", collation.Sum{}, collation.Cardinality{Precision: p}, collation.Min{})}
					ws = append(ws, want{"x", "sum"}, want{"x", "min"}, want{"y", "max"})
				}
				c, err := s.Compile()
				if (err == nil) != (p >= 4 && p <= 18) {
					return fmt.Errorf("precision %d: Compile returned %v", p, err)
				}
				w.Eval(1)
				if err != nil {
					continue
				}
				w.NT(1)
				r := newRecord(c, 0)
				for i, x := range []string{"", "5", "7"} {
					rw := row("y", "3")
					if x != "" {
						rw = row("x", x)
					}
					if err := r.update(rw); err != nil {
						return fmt.Errorf("precision %d: %v", p, err)
					}
					got, err := r.read(ws)
					if err != nil {
						return fmt.Errorf("precision %d: %v", p, err)
					}
					if g := got[0]; (i == 0) != (g == 0) || g > 5 {
						return fmt.Errorf("precision %d: unique count %v of %d values", p, g, i)
					}
					if other && i > 0 && (got[2] != 5 || got[3] != 3 || got[1] != []float64{0, 5, 12}[i]) {
						return fmt.Errorf("precision %d: other measures %v", p, got)
					}
				}
			}
			return nil
		})
	}
}
