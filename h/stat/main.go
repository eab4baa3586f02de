// Harness for the statistical summaries (C22).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vref"
	"github.com/iand/starbow/internal/zz/vsched"
)

type alphabet struct {
	name string
	vs   []float64
}

var alphabets = []alphabet{
	{"small", []float64{1, 2, 3, -1, 0, 7}},
	{"fractions", []float64{0.1, 0.2, 0.3, -0.1, 1.0 / 3, 2.5}},
	{"cancelling", []float64{1e16, 1, -1e16, 0.5, -1, 3}},
	{"offset", []float64{1e9, 1e9 + 1, 1e9 + 2, 1e9 + 0.25, 1e9 - 1, 1e9 + 3}},
	{"scales", []float64{1e150, 1e-150, -1e150, 1, 5e-324, -1e-5}},
	{"zeros", []float64{0, math.Copysign(0, -1), 1, -1, 1e-300, -1e-300}},
	{"heights", []float64{8, 433, 1203, -1266, 14472, 35.5}},
	{"powers", []float64{0.5, 1024, -0.25, 1 << 30, -(1 << 20), 1.0 / 1024}},
}

const size = 32

func all(s stat64.Summary) string {
	return fmt.Sprintf("%d %x %x %x", s.Count(), bits(s.Sum()), bits(s.Mean()), bits(s.Variance()))
}

func bits(f float64) uint64 {
	if math.IsNaN(f) {
		return 1
	}
	return math.Float64bits(f)
}

func equal(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// exact compares a summary with exact arithmetic.
func exact(s stat64.Summary, vs []float64) error {
	e := vref.NewExact()
	for _, v := range vs {
		e.Add(v)
	}
	for _, c := range []struct {
		m string
		g float64
	}{{"count", float64(s.Count())}, {"sum", s.Sum()}, {"mean", s.Mean()}, {"var", s.Variance()}} {
		if err := e.Check(c.m, c.g); err != nil {
			return err
		}
	}
	return nil
}

func helpers(vs []float64) error {
	keep := append([]float64{}, vs...)
	e := vref.NewExact()
	for _, v := range vs {
		e.Add(v)
	}
	mean, variance := stats.Meanvar(vs)
	if len(vs) == 0 {
		if !math.IsNaN(mean) {
			return fmt.Errorf("Meanvar: mean of no values is %v", mean)
		}
	} else if err := e.Check("mean", mean); err != nil {
		return fmt.Errorf("Meanvar: %v", err)
	}
	if err := e.Check("var", variance); err != nil {
		return fmt.Errorf("Meanvar: %v", err)
	}
	if err := e.Check("sum", stats.Sum(vs)); err != nil {
		return fmt.Errorf("Sum: %v", err)
	}
	ests := []float64{0, 1, -2.5, 1e9}
	if len(vs) > 0 {
		ests = append(ests, vs[0], vs[len(vs)-1])
	}
	for _, est := range ests {
		g := stats.See(vs, est)
		if len(vs) <= 2 {
			if !math.IsNaN(g) {
				return fmt.Errorf("See of %d values is %v, the standard error is not defined", len(vs), g)
			}
			continue
		}
		sum := new(big.Rat)
		r := new(big.Rat).SetFloat64(est)
		for _, v := range vs {
			d := new(big.Rat).SetFloat64(v)
			d.Sub(d, r)
			sum.Add(sum, d.Mul(d, d))
		}
		sum.Quo(sum, big.NewRat(int64(len(vs)-2), 1))
		f := new(big.Float).SetPrec(200).SetRat(sum)
		want, _ := new(big.Float).SetPrec(200).Sqrt(f).Float64()
		// squares below the range of floating-point numbers count as nothing
		if math.Abs(g-want) > want*float64(len(vs)+8)*2.3e-16+1e-159*float64(len(vs)) || math.IsNaN(g) {
			return fmt.Errorf("See(%v, %v) is %v, want %v", vs, est, g, want)
		}
	}
	for i := range vs {
		if bits(vs[i]) != bits(keep[i]) {
			return fmt.Errorf("the values are changed")
		}
	}
	return nil
}

// feed gives the values in segments: bit i of cuts ends a segment after value
// i, bit i of how decides how a segment that starts at i is fed.
func feed(s stat64.Summary, vs []float64, cuts, how int, empties bool) error {
	for i := 0; i < len(vs); {
		j := i + 1
		for j < len(vs) && cuts>>uint(j-1)&1 == 0 {
			j++
		}
		if how>>uint(i)&1 == 0 {
			for _, v := range vs[i:j] {
				s.Update(v)
			}
		} else {
			seg := append(make([]float64, 0, j-i+2), vs[i:j]...)
			s.UpdateMulti(seg)
			for k := range seg {
				if bits(seg[k]) != bits(vs[i+k]) {
					return fmt.Errorf("UpdateMulti changes its argument")
				}
				seg[k] = math.NaN() // the caller may reuse its slice
			}
		}
		if empties {
			s.UpdateMulti(nil)
			s.UpdateMulti([]float64{})
		}
		i = j
	}
	return nil
}

func main() {
	vlib.Main(func(w *vlib.W) {
		depth := 5
		if w.Thorough {
			depth = 6
		}
		for _, a := range alphabets {
			for f := range a.vs {
				for g := range a.vs {
					a, f, g := a, f, g
					w.Case(fmt.Sprintf("%s %d %d", a.name, f, g), func() error { return sequences(w, a.vs, []int{f, g}, depth) })
				}
			}
			a := a
			w.Case(a.name+" short", func() error {
				if err := one(w, nil); err != nil {
					return err
				}
				for _, v := range a.vs {
					if err := one(w, []float64{v}); err != nil {
						return fmt.Errorf("[%v]: %v", v, err)
					}
				}
				return nil
			})
		}
		special(w)
		long(w)
		wide(w)
		far(w)
		concurrent(w)
	})
}

func sequences(w *vlib.W, vs []float64, seq []int, depth int) error {
	vals := make([]float64, len(seq))
	for i, s := range seq {
		vals[i] = vs[s]
	}
	if err := one(w, vals); err != nil {
		return fmt.Errorf("%v: %v", vals, err)
	}
	w.Tick()
	if len(seq) == depth {
		return nil
	}
	for v := range vs {
		if err := sequences(w, vs, append(seq, v), depth); err != nil {
			return err
		}
	}
	return nil
}

// one judges a series in every split, adoption and reset.
func one(w *vlib.W, vs []float64) error {
	base := stat64.New()
	if len(base) != size || base.Len() != size || stat64.Len() != size {
		return fmt.Errorf("a summary has %d bytes, Len %d and %d", len(base), base.Len(), stat64.Len())
	}
	states := []string{string(base)}
	for i, v := range vs {
		base.Update(v)
		if err := exact(base, vs[:i+1]); err != nil {
			return fmt.Errorf("after %d values: %v", i+1, err)
		}
		before := string(base)
		if all(base) != all(base) || string(base) != before {
			return fmt.Errorf("reading a summary changes it")
		}
		states = append(states, before)
	}
	if err := exact(base, vs); err != nil {
		return err
	}
	want, shown := string(base), all(base)
	n := len(vs)
	if n > 0 {
		for cuts := 0; cuts < 1<<uint(n-1); cuts++ {
			for how := 0; how < 1<<uint(n); how++ {
				// only the bits at the start of segments matter
				if how>>1&^cuts != 0 {
					continue
				}
				s := stat64.New()
				if err := feed(s, vs, cuts, how, how&1 == 0); err != nil {
					return err
				}
				if string(s) != want || all(s) != shown {
					return fmt.Errorf("split %b fed as %b: %s, one at a time %s", cuts, how, all(s), shown)
				}
				w.Eval(1)
				w.NT(1)
			}
		}
	}
	// adoption after every prefix, in the middle of a larger buffer
	for p := 0; p <= n; p++ {
		for _, batch := range []bool{false, true} {
			for _, extra := range []int{0, 9} {
				arena := bytes.Repeat([]byte{0xA5}, 8+size+extra)
				buf := arena[8:]
				copy(buf, states[p])
				s := stat64.WithBytes(buf)
				if all(s) != all(stat64.Summary([]byte(states[p]))) {
					return fmt.Errorf("an adopted summary answers differently")
				}
				if batch {
					s.UpdateMulti(vs[p:])
				} else {
					for _, v := range vs[p:] {
						s.Update(v)
					}
				}
				if string(buf[:size]) != want {
					return fmt.Errorf("adopted after %d values and continued (batch %v): %s, without adoption %s", p, batch, all(s), shown)
				}
				for i, c := range arena {
					if c != 0xA5 && (i < 8 || i >= 8+size) {
						return fmt.Errorf("byte %d beyond the summary is changed", i-8)
					}
				}
				w.Eval(1)
				w.NT(1)
				// reset starts a new series
				for _, fn := range []bool{false, true} {
					t := append([]byte{}, arena...)
					b := t[8:]
					var err error
					if fn {
						err = stat64.Reset(b)
					} else {
						err = stat64.WithBytes(b).Reset()
					}
					if err != nil {
						return fmt.Errorf("reset: %v", err)
					}
					r := stat64.WithBytes(b)
					if all(r) != all(stat64.New()) {
						return fmt.Errorf("after a reset: %s", all(r))
					}
					r.UpdateMulti(vs[p:])
					r.UpdateMulti(vs[:p])
					f := stat64.New()
					f.UpdateMulti(vs[p:])
					f.UpdateMulti(vs[:p])
					if string(b[:size]) != string(f) {
						return fmt.Errorf("a series after a reset gives %s, without one before %s", all(r), all(f))
					}
					for i, c := range t {
						if c != 0xA5 && (i < 8 || i >= 8+size) {
							return fmt.Errorf("byte %d beyond the summary is changed by a reset", i-8)
						}
					}
				}
			}
		}
	}
	w.Eval(1)
	return helpers(vs)
}

// special: splits of series with values that are not finite.
func special(w *vlib.W) {
	vs := []float64{math.Inf(1), math.Inf(-1), math.NaN(), 1, -2.5, math.MaxFloat64, -math.MaxFloat64}
	for f := range vs {
		f := f
		w.Case(fmt.Sprintf("special %d", f), func() error {
			var err error
			vlib.SeqsUpTo(len(vs), 3, func(sq []int) {
				if err != nil {
					return
				}
				vals := []float64{vs[f]}
				for _, i := range sq {
					vals = append(vals, vs[i])
				}
				base := stat64.New()
				for _, v := range vals {
					base.Update(v)
				}
				n := len(vals)
				e := vref.NewExact()
				for _, v := range vals {
					e.Add(v)
				}
				if base.Count() != uint64(n) {
					err = fmt.Errorf("%v: count %d", vals, base.Count())
				}
				if g := base.Sum(); e.NaN+e.PInf+e.NInf > 0 && e.Check("sum", g) != nil && !math.IsInf(e.Sum(), 0) && e.M < 1e300 {
					err = fmt.Errorf("%v: %v", vals, e.Check("sum", g))
				}
				for cuts := 0; cuts < 1<<uint(n-1); cuts++ {
					for how := 0; how < 1<<uint(n); how++ {
						s := stat64.New()
						if er := feed(s, vals, cuts, how, false); er != nil {
							err = er
						}
						if s.Count() != base.Count() || !equal(s.Sum(), base.Sum()) || !equal(s.Mean(), base.Mean()) || !equal(s.Variance(), base.Variance()) {
							err = fmt.Errorf("%v split %b fed as %b: %s, one at a time %s", vals, cuts, how, all(s), all(base))
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				w.Tick()
			})
			return err
		})
	}
}

func long(w *vlib.W) {
	n := 3000
	if w.Thorough {
		n = 70000
	}
	gens := []struct {
		name string
		at   func(i int) float64
	}{
		{"counting", func(i int) float64 { return float64(i) }},
		{"constant", func(i int) float64 { return 0.1 }},
		{"offset", func(i int) float64 { return 1e9 + float64(i*i%97)/8 }},
		{"alternating", func(i int) float64 { return float64(1-2*(i&1)) * (1e8 + float64(i%13)) }},
		{"falling", func(i int) float64 { return 1 / float64(i+1) }},
		{"late", func(i int) float64 {
			if i < 1000 {
				return 0
			}
			return float64(i % 7)
		}},
		{"outlier", func(i int) float64 {
			if i == 700 {
				return 1e12
			}
			return float64(i%5) - 2
		}},
	}
	for _, g := range gens {
		g := g
		w.Case("long "+g.name, func() error {
			vs := make([]float64, n)
			for i := range vs {
				vs[i] = g.at(i)
			}
			base := stat64.New()
			e := vref.NewExact()
			for i, v := range vs {
				base.Update(v)
				if i < 300 {
					e.Add(v)
					for _, c := range []struct {
						m string
						g float64
					}{{"count", float64(base.Count())}, {"sum", base.Sum()}, {"mean", base.Mean()}, {"var", base.Variance()}} {
						if err := e.Check(c.m, c.g); err != nil {
							return fmt.Errorf("after %d values: %v", i+1, err)
						}
					}
				}
				w.Tick()
			}
			if err := exact(base, vs); err != nil {
				return err
			}
			for _, b := range []int{1, 2, 3, 7, 16, 100, 255, 256, 257, 1000, 1024, n - 1, n} {
				s := stat64.New()
				for i := 0; i < n; i += b {
					end := i + b
					if end > n {
						end = n
					}
					s.UpdateMulti(vs[i:end])
				}
				if !bytes.Equal(s, base) {
					return fmt.Errorf("in batches of %d: %s, one at a time %s", b, all(s), all(base))
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			for l := 0; l <= 300; l++ {
				if err := helpers(vs[:l]); err != nil {
					return fmt.Errorf("%d values: %v", l, err)
				}
				w.Eval(1)
				w.Tick()
			}
			return helpers(vs)
		})
	}
}

// wide: a batch of any length is as good as its values one at a time.
func wide(w *vlib.W) {
	top := 20
	if w.Thorough {
		top = 25
	}
	gens := []struct {
		name string
		at   func(i int) float64
	}{
		{"eighths", func(i int) float64 { return 3 + float64(i*i%97)/8 }},
		{"thirds", func(i int) float64 { return float64(1-2*(i&1)) * float64(i%1009) / 3 }},
	}
	for _, g := range gens {
		for b := 11; b <= top; b++ {
			g, b := g, b
			w.Case(fmt.Sprintf("wide %s %d", g.name, b), func() error {
				vs := make([]float64, 1<<b+2)
				for i := range vs {
					vs[i] = g.at(i)
				}
				single := stat64.New()
				fed := 0
				for _, n := range []int{1<<b - 1, 1 << b, 1<<b + 1, 1<<b + 2} {
					for ; fed < n; fed++ {
						single.Update(vs[fed])
					}
					w.Tick()
					if single.Count() != uint64(n) {
						return fmt.Errorf("the count is %d after %d values", single.Count(), n)
					}
					for _, cut := range []int{0, 1, n / 3, n / 2, n - 1} {
						s := stat64.New()
						s.UpdateMulti(vs[:cut])
						s.UpdateMulti(vs[cut:n])
						if !bytes.Equal(s, single) {
							return fmt.Errorf("batches of %d and %d: %s, one at a time %s", cut, n-cut, all(s), all(single))
						}
						w.Eval(1)
						w.NT(1)
						w.Tick()
					}
				}
				if b > 20 {
					return nil
				}
				return helpers(vs)
			})
		}
	}
}

// concurrent: separate summaries in two threads do not affect each other.
func concurrent(w *vlib.W) {
	uses := []struct {
		name string
		do   func(s stat64.Summary, v float64)
	}{
		{"Update", func(s stat64.Summary, v float64) { s.Update(v); s.Update(v + 1) }},
		{"UpdateMulti", func(s stat64.Summary, v float64) { s.UpdateMulti([]float64{v, v + 1}) }},
		{"Reset", func(s stat64.Summary, v float64) { s.Update(v); s.Reset(); s.Update(v + 2) }},
		{"Reset function", func(s stat64.Summary, v float64) { s.Update(v); stat64.Reset(s); s.Update(v + 3) }},
	}
	var scs []*vsched.Scenario
	for x := range uses {
		for y := 0; y <= x; y++ {
			u, v := uses[x], uses[y]
			scs = append(scs, &vsched.Scenario{Name: u.name + " with " + v.name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
				a, b := stat64.New(), stat64.New()
				a.Update(40)
				b.Update(50)
				a1, b1 := stat64.WithBytes(append([]byte{}, a...)), stat64.WithBytes(append([]byte{}, b...))
				u.do(a1, 3)
				v.do(b1, 11)
				return []func(){func() { u.do(a, 3) }, func() { v.do(b, 11) }}, func(r *vsched.Result) (string, error) {
					if len(r.Panics) > 0 {
						return "", fmt.Errorf("%s", r.Panics[0])
					}
					if !bytes.Equal(a, a1) || !bytes.Equal(b, b1) {
						return "", fmt.Errorf("two summaries updated at once end as %s and %s, alone as %s and %s", all(a), all(b), all(a1), all(b1))
					}
					return "same", nil
				}
			}})
		}
	}
	b := 2
	if w.Thorough {
		b = 3
	}
	(&vlib.Sched{Scenarios: scs, Bound: b}).Run(w)
}

// far: counts beyond the widths of integers. A summary is brought near a boundary
// by writing what it would hold there, provided that it reads as it should then.
func far(w *vlib.W) {
	for _, v := range []float64{3, -0.5, 0} {
		for _, bits := range []uint{8, 15, 16, 24, 31, 32, 33, 40, 48} {
			for how := 0; how < 1<<6; how++ {
				v, at, how := v, int64(1)<<bits, how
				w.Case(fmt.Sprintf("far count: %v 2^%d how=%b", v, bits, how), func() error {
					buf := make([]byte, stat64.Len())
					s := stat64.WithBytes(buf)
					if len(buf) != 32 {
						return nil
					}
					binary.LittleEndian.PutUint64(buf, uint64(at-3))
					binary.LittleEndian.PutUint64(buf[8:], math.Float64bits(v*float64(at-3)))
					binary.LittleEndian.PutUint64(buf[16:], math.Float64bits(v))
					right := func(n int64) error {
						if s.Count() != uint64(n) || s.Sum() != v*float64(n) || s.Mean() != v || s.Variance() != 0 {
							return fmt.Errorf("after %d values of %v: %s", n, v, all(s))
						}
						return nil
					}
					if right(at-3) != nil {
						return nil // works otherwise
					}
					for i := 0; i < 6; i++ {
						if how>>uint(i)&1 == 1 {
							s.UpdateMulti([]float64{v})
						} else {
							s.Update(v)
						}
						if err := right(at - 2 + int64(i)); err != nil {
							return err
						}
						w.Eval(1)
					}
					s.UpdateMulti([]float64{v, v, v})
					if err := right(at + 6); err != nil {
						return err
					}
					w.NT(1)
					return nil
				})
			}
		}
	}
}
