package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vref"
)

var precise = []string{"count", "sum", "mean", "var", "max", "min"}

func c07Schema() collation.Schema {
	all := []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}}
	return collation.Schema{
		Name:           "c",
		Keys:           keys("k"),
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{field("x", all...), field("y", all...)},
	}
}

// obs is one observation: instance, and the text of x and y ("" when absent).
type obs struct{ k, x, y string }

func (o obs) String() string { return o.k + ":" + o.x + "," + o.y }

type inst struct {
	n    int
	x, y *vref.Exact
}

func c07Run(w *vlib.W, hist []obs, every int) error {
	s, err := newStore(c07Schema(), 5)
	if err != nil {
		return err
	}
	var ws []want
	ws = append(ws, want{"*", "count"})
	for _, f := range []string{"x", "y"} {
		for _, m := range precise {
			ws = append(ws, want{f, m})
		}
	}
	model := map[string]*inst{}
	for i, o := range hist {
		in := model[o.k]
		if in == nil {
			in = &inst{x: vref.NewExact(), y: vref.NewExact()}
			model[o.k] = in
		}
		r := row("k", o.k)
		if i%2 == 1 {
			r = row("extra", "zz", "k", o.k)
		}
		in.n++
		if o.x != "" {
			r.Data = append(r.Data, collation.FV{F: b("x"), V: b(o.x)})
			v, err := strconv.ParseFloat(o.x, 64)
			if err != nil {
				return err
			}
			in.x.Add(v)
		}
		if o.y != "" {
			r.Data = append(r.Data, collation.FV{F: b("y"), V: b(o.y)})
			v, _ := strconv.ParseFloat(o.y, 64)
			in.y.Add(v)
		}
		if err := s.Write(ctx, r); err != nil {
			return fmt.Errorf("observation %d (%v) refused: %v", i, o, err)
		}
		if i != len(hist)-1 && (every == 0 || i%every != 0) {
			continue
		}
		for k, in := range model {
			got, err := read(s, crit("k", k), ws)
			if err != nil {
				return err
			}
			for _, q := range ws {
				v, ok := got[q]
				if !ok {
					return fmt.Errorf("after %d observations %s: %s(%s) is not answered", i+1, short(hist[:i+1]), q.m, q.f)
				}
				if q.f == "*" {
					if v != float64(in.n) {
						return fmt.Errorf("after %s: count(*) of %s is %v, want %d", short(hist[:i+1]), k, v, in.n)
					}
					continue
				}
				e := in.x
				if q.f == "y" {
					e = in.y
				}
				if err := e.Check(q.m, v); err != nil {
					return fmt.Errorf("after %s: field %s of instance %s: %v", short(hist[:i+1]), q.f, k, err)
				}
			}
		}
	}
	w.Eval(1)
	if len(hist) > 1 {
		w.NT(1)
	}
	w.Tick()
	return nil
}

func short(h []obs) string {
	s := ""
	for i, o := range h {
		if i > 12 {
			return s + fmt.Sprintf("... (%d)", len(h))
		}
		s += o.String() + " "
	}
	return s
}

func c07(w *vlib.W) {
	x := 0
	if w.Thorough {
		x = 1
	}
	alphabets := []struct {
		name  string
		vals  []string
		depth int
	}{
		{"small", []string{"", "-5", "0", "3", "7.5"}, 7 + x},
		{"offset", []string{"", "1000000004", "1000000007", "1000000013", "1000000016"}, 7 + x},
		{"negative", []string{"", "-1", "-2.5", "-1e9"}, 8 + x},
		{"positive", []string{"", "1", "2.5", "1e9"}, 8 + x},
		{"tiny", []string{"", "1e-12", "-2.5e-12", "1e-140"}, 6 + x},
		{"wide", []string{"", "1e15", "-1e15", "0.1", "1"}, 7 + x},
		{"huge", []string{"", "1e140", "-2e140", "1.5e120"}, 6 + x},
		{"special", []string{"", "NaN", "+Inf", "-Inf", "1", "-1"}, 6 + x},
		{"nan", []string{"NaN", "2", "-2", "0"}, 7 + x},
		{"forms", []string{"+5", "-0", "1e3", ".5", "5.", "0x1p4", "1_000", "1E-2", "007"}, 3 + x},
		{"binary", []string{"0.1", "0.2", "0.3", "0.7", "1.1"}, 6 + x},
		{"integers", []string{"9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "1"}, 5 + x},
	}
	for _, a := range alphabets {
		var vals []string
		for _, v := range a.vals {
			if v != "" {
				if _, err := strconv.ParseFloat(v, 64); err != nil {
					continue
				}
			}
			vals = append(vals, v)
		}
		for i := range vals {
			for j := range vals {
				i, j, a := i, j, a
				w.Case(fmt.Sprintf("values %s first=%d second=%d", a.name, i, j), func() error {
					var bad error
					for l := 0; l <= a.depth-2; l++ {
						vlib.Seqs(len(vals), l, func(sq []int) {
							if bad != nil {
								return
							}
							h := []obs{{k: "a", x: vals[i]}, {k: "a", x: vals[j]}}
							for _, v := range sq {
								h = append(h, obs{k: "a", x: vals[v]})
							}
							bad = c07Run(w, h, 0)
						})
					}
					return bad
				})
			}
		}
		for i := range vals {
			i, a := i, a
			w.Case(fmt.Sprintf("single %s %d", a.name, i), func() error {
				return c07Run(w, []obs{{k: "a", x: vals[i]}}, 1)
			})
		}
	}
	// two fields and two instances interleaved
	var al []obs
	for _, k := range []string{"a", "b"} {
		for _, xv := range []string{"", "-3", "4"} {
			for _, yv := range []string{"", "10"} {
				al = append(al, obs{k, xv, yv})
			}
		}
	}
	for i := range al {
		for j := range al {
			i, j := i, j
			w.Case(fmt.Sprintf("fields first=%d second=%d", i, j), func() error {
				var bad error
				for l := 0; l <= 3+x; l++ {
					vlib.Seqs(len(al), l, func(sq []int) {
						if bad != nil {
							return
						}
						h := []obs{al[i], al[j]}
						for _, v := range sq {
							h = append(h, al[v])
						}
						bad = c07Run(w, h, 0)
					})
				}
				return bad
			})
		}
	}
	// single values across the whole float range, alone and next to 1
	var wide []float64
	for e := -140; e <= 140; e += 7 {
		for _, m := range []float64{1, -1, 3.7, -9.9} {
			wide = append(wide, m*math.Pow(10, float64(e)))
		}
	}
	for i, v := range wide {
		v := v
		w.Case(fmt.Sprintf("range %d", i), func() error {
			t := strconv.FormatFloat(v, 'g', -1, 64)
			for _, h := range [][]string{{t}, {t, t}, {t, "1"}, {"1", t}, {t, "1", t}, {"", t}, {t, ""}, {"-1", t, "2", t}} {
				var os []obs
				for _, xv := range h {
					os = append(os, obs{k: "a", x: xv})
				}
				if err := c07Run(w, os, 1); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// long series
	n := 5000
	if w.Thorough {
		n = 70000
	}
	series := map[string]func(i int) float64{
		"constant":   func(i int) float64 { return 7.25 },
		"ramp":       func(i int) float64 { return float64(i) },
		"down":       func(i int) float64 { return -float64(i) * 0.5 },
		"alternate":  func(i int) float64 { return float64(1-2*(i%2)) * float64(i) },
		"offset":     func(i int) float64 { return 1e9 + float64(i%7) },
		"pow":        func(i int) float64 { return math.Pow(2, float64(i%60)) },
		"late-max":   func(i int) float64 { return -1 - 1/float64(i+1) },
		"byte-edges": func(i int) float64 { return float64(i%257) - 128 },
		"zero":       func(i int) float64 { return 0 },
	}
	for _, name := range []string{"constant", "ramp", "down", "alternate", "offset", "pow", "late-max", "byte-edges", "zero"} {
		for _, gap := range []int{0, 2, 5} {
			name, gap := name, gap
			w.Case(fmt.Sprintf("series %s gap=%d", name, gap), func() error {
				var h []obs
				for i := 0; i < n; i++ {
					o := obs{k: "a", x: strconv.FormatFloat(series[name](i), 'g', -1, 64)}
					if gap > 0 && i%gap == 0 {
						o.x = ""
					}
					if i%3 == 0 {
						o.y = strconv.Itoa(i)
					}
					h = append(h, o)
				}
				return c07Run(w, h, 97)
			})
		}
	}
	far(w)
	texts(w)
	w.Case("many observations", func() error {
		// a count past 16 bits, counted through one instance
		s, err := newStore(collation.Schema{Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{field("x", collation.Sum{}, collation.Mean{})}}, 3)
		if err != nil {
			return err
		}
		lim := 70000
		if w.Thorough {
			lim = 17000000
		}
		r := row("k", "a", "x", "3")
		for i := 1; i <= lim; i++ {
			if err := s.Write(ctx, r); err != nil {
				return err
			}
			if i&1023 == 0 {
				w.Tick()
			}
			if i&(i-1) == 0 || (i+1)&i == 0 || i == lim {
				got, err := read(s, crit("k", "a"), []want{{"*", "count"}, {"x", "sum"}, {"x", "mean"}})
				if err != nil {
					return err
				}
				if got[want{"*", "count"}] != float64(i) || got[want{"x", "sum"}] != 3*float64(i) || got[want{"x", "mean"}] != 3 {
					return fmt.Errorf("after %d equal observations of 3: %v", i, got)
				}
			}
		}
		w.Eval(lim)
		return nil
	})
}

// far: counts beyond the widths of integers. A record is brought near a boundary by
// writing what its counting cells would hold there, provided that they are seen to
// hold plain counts and sums, and that the record then reads as it should.
func far(w *vlib.W) {
	all := []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}}
	for mask := 1; mask < 1<<uint(len(all)); mask++ {
		for rec := 0; rec < 2; rec++ {
			var ms []collation.Measure
			var ws []want
			sch := collation.Schema{Name: "c"}
			if rec == 1 {
				sch.RecordMeasures = []collation.RowMeasure{collation.Count{}}
				ws = append(ws, want{"*", "count"})
			}
			for i, m := range all {
				if mask>>uint(i)&1 == 1 {
					ms = append(ms, m)
					ws = append(ws, want{"x", m.Name()})
				}
			}
			sch.Measures = []collation.MeasureSpec{field("x", ms...)}
			w.Case(fmt.Sprintf("far counts: measures=%b record=%d", mask, rec), func() error {
				c, err := sch.Compile()
				if err != nil {
					return err
				}
				for _, v := range []int{3, -2, 0} {
					for _, bits := range []uint{8, 15, 16, 24, 31, 32, 33, 40, 48} {
						if err := farFrom(w, c, ws, v, 1<<bits); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

func farFrom(w *vlib.W, c collation.Collator, ws []want, v int, at int64) error {
	buf := make([]byte, c.Size())
	r := row("x", strconv.Itoa(v))
	counts, sums := map[int]bool{}, map[int]bool{}
	for n := int64(1); n <= 20; n++ {
		if err := c.Update(r, buf, n == 1); err != nil {
			return err
		}
		for o := 0; o+8 <= len(buf); o++ {
			x := binary.LittleEndian.Uint64(buf[o:])
			if n == 1 {
				counts[o], sums[o] = true, true
			}
			counts[o] = counts[o] && x == uint64(n)
			sums[o] = sums[o] && x == math.Float64bits(float64(n*int64(v))) && v != 0
		}
	}
	for o := range counts {
		if counts[o] {
			binary.LittleEndian.PutUint64(buf[o:], uint64(at-3))
		}
		if sums[o] {
			binary.LittleEndian.PutUint64(buf[o:], math.Float64bits(float64((at-3)*int64(v))))
		}
	}
	right := func(n int64) error {
		res, err := c.Read(query(nil, ws).FieldMeasures, buf)
		if err != nil {
			return err
		}
		if len(res.FieldMeasureValues) != len(ws) {
			return fmt.Errorf("%d answers to %d measures", len(res.FieldMeasureValues), len(ws))
		}
		for _, a := range res.FieldMeasureValues {
			want := float64(v)
			switch string(a.M) {
			case "count":
				want = float64(n)
			case "sum":
				want = float64(n * int64(v))
			case "var":
				want = 0
			}
			if g, ok := a.V.(float64); !ok || g != want {
				return fmt.Errorf("after %d observations of %d: %s is not %v", n, v, a, want)
			}
		}
		return nil
	}
	if right(at-3) != nil {
		return nil // the record works otherwise
	}
	for n := at - 2; n <= at+3; n++ {
		if err := c.Update(r, buf, false); err != nil {
			return err
		}
		if err := right(n); err != nil {
			return err
		}
		w.Eval(1)
	}
	w.NT(1)
	w.Tick()
	return nil
}
