package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
)

// Schemas far bigger than those enumerated in full: many fields, many
// measures of a field, and big records.

func c08Big(w *vlib.W) {
	wide := []collation.Measure{collation.Count{}, collation.Max{}, collation.Mean{}, letters{}, collation.Min{}, spread{}, lastText{}, collation.Sum{}, collation.Variance{}, show{}, collation.Cardinality{Precision: 4}}
	big := func(ps ...int) (ms []collation.Measure) {
		for i, p := range ps {
			ms = append(ms, wide[i%len(wide)], collation.Cardinality{Precision: p})
		}
		return append(ms, collation.Max{}, letters{})
	}
	type sch struct {
		name   string
		fields int
		ms     func(i int) []collation.Measure
	}
	var ss []sch
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025} {
		for _, k := range []int{1, 2, 11} {
			k := k
			ss = append(ss, sch{fmt.Sprintf("%d fields of %d measures", n, k), n, func(i int) (ms []collation.Measure) {
				for j := 0; j < k; j++ {
					ms = append(ms, wide[(i+j)%len(wide)])
				}
				return
			}})
		}
	}
	for p := 5; p <= 18; p++ {
		p := p
		for _, n := range []int{1, 2, 3, 5, 9, 18} {
			ss = append(ss, sch{fmt.Sprintf("%d fields with precision %d", n, p), n, func(i int) []collation.Measure { return big(p) }})
		}
	}
	ss = append(ss, sch{"all precisions in turn", 15, func(i int) []collation.Measure { return big(4 + i) }},
		sch{"all precisions in reverse", 15, func(i int) []collation.Measure { return big(18 - i) }})
	for _, s := range ss {
		s := s
		w.Case("big schema: "+s.name, func() error {
			return c08BigCheck(w, s.fields, s.ms, func(i int) string { return "f" + strconv.Itoa(i) })
		})
	}
	// names that common hashes take for the same
	w.Case("field names that collide", func() error {
		for _, p := range vlib.Colliding(4, vlib.Name36) {
			for _, n := range []int{2, 3} {
				if err := c08BigCheck(w, n, func(int) []collation.Measure { return wide }, func(i int) string { return []string{p.A, p.B, "x"}[i] }); err != nil {
					return fmt.Errorf("%q and %q have the same %s: %v", p.A, p.B, p.Hash, err)
				}
			}
		}
		return nil
	})
	// long names that differ in little
	for _, n := range []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 1000, 1024, 4096, 4097, 65535, 65536, 65537, 200001} {
		n := n
		w.Case(fmt.Sprintf("field names of %d bytes", n), func() error {
			t := strings.Repeat("f", n)
			for _, name := range []func(i int) string{
				func(i int) string { return t + strconv.Itoa(i) },
				func(i int) string { return strconv.Itoa(i) + t },
				func(i int) string { return t[n/2:] + strconv.Itoa(i) + t[:n/2] },
				func(i int) string { return t + t[:i] },
				func(i int) string { return t[i/2:] + " ."[i%2:i%2+1] },
				func(i int) string { return t + strings.Repeat("\x00", i) },
			} {
				if err := c08BigCheck(w, 7, func(i int) []collation.Measure { return append(wide[i:i+3:i+3], collation.Sum{}) }, name); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func c08BigCheck(w *vlib.W, n int, ms func(i int) []collation.Measure, name func(i int) string) error {
	full := collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}, rowMarks{}}}
	for i := 0; i < n; i++ {
		full.Measures = append(full.Measures, field(name(i), ms(i)...))
	}
	c, err := full.Compile()
	if err != nil {
		return err
	}
	var rows []collation.Row
	for r := 0; r < 4; r++ {
		var kv []string
		for i := 0; i < n; i++ {
			if (i+r)%3 != 0 {
				kv = append(kv, name(i), strconv.Itoa((i*7+r*13)%101-50))
			}
		}
		rows = append(rows, row(kv...))
	}
	rec := newRecord(c, 0xff)
	for _, r := range rows {
		if err := rec.update(r); err != nil {
			return err
		}
	}
	ws := []want{{"*", "count"}, {"*", "marks"}}
	alone := map[want]collation.Schema{ws[0]: {RecordMeasures: []collation.RowMeasure{collation.Count{}}}, ws[1]: {RecordMeasures: []collation.RowMeasure{rowMarks{}}}}
	for i := 0; i < n; i++ {
		for _, m := range ms(i) {
			q := want{name(i), m.Name()}
			// the same measure twice of a field: the query cannot tell which is meant, so they agree but for cardinalities
			if _, dup := alone[q]; !dup {
				ws = append(ws, q)
				// by itself, and under a short name
				alone[q] = collation.Schema{Measures: []collation.MeasureSpec{field("a", m)}}
			}
		}
	}
	got, err := rec.read(ws)
	if err != nil {
		return err
	}
	for i, q := range ws {
		s := alone[q]
		c1, err := s.Compile()
		if err != nil {
			return err
		}
		r1 := newRecord(c1, 0)
		for _, r := range rows {
			var only collation.Row
			for _, fv := range r.Data {
				if string(fv.F) == q.f {
					only.Data = append(only.Data, collation.FV{F: []byte("a"), V: fv.V})
				}
			}
			if err := r1.update(only); err != nil {
				return err
			}
		}
		q1 := q
		if q.f != "*" {
			q1.f = "a"
		}
		v, err := r1.read([]want{q1})
		if err != nil {
			return err
		}
		w.Eval(1)
		w.NT(1)
		if !sameFloat(got[i], v[0]) {
			return fmt.Errorf("%s(%.300s) is %v, alone %v", q.m, q.f, got[i], v[0])
		}
	}
	return nil
}
