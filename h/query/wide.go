package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
)

// wide checks queries of many selections and conditions, of long names and of
// long values.
func wide(w *vlib.W, st []style) {
	ns := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001}
	if w.Thorough {
		ns = append(ns, 1023, 1024, 1025, 4096, 4097, 10001)
	}
	sels := []struct {
		name string
		f    func(i, n int) pair
	}{
		{"fields", func(i, n int) pair { return pair{"sum", fmt.Sprintf("f%d", i*37%n)} }},
		{"measures of one field", func(i, n int) pair { return pair{fmt.Sprintf("m%d", i), "f"} }},
		{"pairs", func(i, n int) pair { return pair{[]string{"min", "max", "sum"}[i%3], fmt.Sprintf("f%d", i/3)} }},
		{"the same pair", func(i, n int) pair { return pair{"count", "*"} }},
	}
	conds := []struct {
		name string
		f    func(i, n int) cond
	}{
		{"keys", func(i, n int) cond { return cond{fmt.Sprintf("k%d", i*31%n), fmt.Sprint(i)} }},
		{"values of one key", func(i, n int) cond { return cond{"k", fmt.Sprintf("a b%d", i)} }},
		{"empty values", func(i, n int) cond { return cond{fmt.Sprintf("k%d", n-i), ""} }},
	}
	for i, n := range ns {
		i, n := i, n
		w.Case(fmt.Sprintf("wide %d", n), func() error {
			for a, se := range sels {
				for c, co := range conds {
					for _, m := range [][2]int{{n, 1}, {1, n}, {n, n}, {n, ns[(i+3)%len(ns)]}} {
						var ps []pair
						var cs []cond
						for j := 0; j < m[0]; j++ {
							ps = append(ps, se.f(j, m[0]))
						}
						for j := 0; j < m[1]; j++ {
							cs = append(cs, co.f(j, m[1]))
						}
						for k, s := range []style{plainStyle, st[(i*7+a*3+c)%len(st)]} {
							if m[0]*m[1] > 30000 && (a+c+k)%2 == 1 {
								continue
							}
							if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
								return short(fmt.Errorf("%d %s, %d %s: %v", m[0], se.name, m[1], co.name, err))
							}
						}
					}
				}
			}
			return nil
		})
	}
	// many blanks
	for _, n := range append([]int{4096, 10000, 65536, 65537, 200001}, ns...) {
		n := n
		w.Case(fmt.Sprintf("%d blanks", n), func() error {
			ps, cs := []pair{{"sum", "a"}, {"max", "b"}, {"min", "a"}}, []cond{{"k", "v"}, {"j", "w x"}}
			for _, unit := range []string{" ", "\t", "\t "} {
				t := strings.Repeat(unit, n/len(unit)+1)
				p := plainStyle
				for _, s := range []style{
					{t, p.sel, p.s1, p.comma, p.s2, p.where, p.s3, p.and, p.tail},
					{p.lead, p.sel, t, p.comma, p.s2, p.where, p.s3, p.and, p.tail},
					{p.lead, p.sel, p.s1, t + ",", p.s2, p.where, p.s3, p.and, p.tail},
					{p.lead, p.sel, p.s1, "," + t, p.s2, p.where, p.s3, p.and, p.tail},
					{p.lead, p.sel, p.s1, p.comma, t, p.where, p.s3, p.and, p.tail},
					{p.lead, p.sel, p.s1, p.comma, p.s2, p.where, t, p.and, p.tail},
					{p.lead, p.sel, p.s1, p.comma, p.s2, p.where, p.s3, t + "and ", p.tail},
					{p.lead, p.sel, p.s1, p.comma, p.s2, p.where, p.s3, " and" + t, p.tail},
					{p.lead, p.sel, p.s1, p.comma, p.s2, p.where, p.s3, p.and, t},
				} {
					if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
						return short(err)
					}
				}
			}
			return nil
		})
	}
	ls := append([]int{}, ns...)
	ls = append(ls, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100001)
	for _, n := range ls {
		n := n
		w.Case(fmt.Sprintf("long names and values %d", n), func() error {
			for _, unit := range []string{"x", "ab_c", "\u00e9", "a=b ", "and "} {
				t := strings.Repeat(unit, n/len(unit)+1)
				for n > 0 && !strings.HasPrefix(t[n:], unit[:1]) && len(unit) == 2 { // no half letters
					n--
				}
				t = t[:n]
				if t == "" {
					continue
				}
				var todo [][2]interface{}
				todo = append(todo, [2]interface{}{[]pair{{"sum", "a"}, {"max", "b"}}, []cond{{"k", t}, {"j", "1"}}})
				if !strings.ContainsAny(t, " =") {
					todo = append(todo, [2]interface{}{[]pair{{"sum", t}, {"max", "b"}, {"min", t}}, []cond{{"k", "v"}}},
						[2]interface{}{[]pair{{t, "a"}, {"max", "b"}}, []cond{{"k", "v"}}},
						[2]interface{}{[]pair{{t, t + "y"}, {t + "z", t}}, []cond{{t, t}, {t + "y", t}}})
				}
				for _, x := range todo {
					ps, cs := x[0].([]pair), x[1].([]cond)
					if err := check(w, plainStyle.text(ps, cs), reference(ps, cs)); err != nil {
						return short(err)
					}
				}
			}
			return nil
		})
	}
}

func short(err error) error {
	if s := err.Error(); len(s) > 1000 {
		return fmt.Errorf("%s...", s[:1000])
	}
	return err
}

// manyCriteria: the record a query is for is found whatever the number of its
// conditions, wherever among them the ones for the keys are.
func manyCriteria(w *vlib.W) {
	ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 25, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097}
	for nk := 1; nk <= 4; nk++ {
		for _, n := range ns {
			nk, n := nk, n
			w.Case(fmt.Sprintf("%d keys among %d conditions", nk, n), func() error {
				sch := collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "a"}, Measures: []collation.Measure{collation.Sum{}}}}}
				for i := 0; i < nk; i++ {
					sch.Keys = append(sch.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: fmt.Sprintf("k%d", i)}})
				}
				c, err := sch.Compile()
				if err != nil {
					return err
				}
				s := &storage.Store{Collator: c, Backend: bufmap.New(40, c.Size())}
				for v := 0; v < 2; v++ {
					r := collation.Row{Data: collation.FVList{{F: []byte("a"), V: []byte(fmt.Sprint(v + 5))}}}
					for i := 0; i < nk; i++ {
						r.Data = append(r.Data, collation.FV{F: []byte(fmt.Sprintf("k%d", i)), V: []byte(fmt.Sprintf("v%d", v))})
					}
					if err := s.Write(ctx, r); err != nil {
						return err
					}
				}
				// the places of the first and the last key
				places := []int{0, 1, 2, n / 2, n - 2, n - 1, n}
				for _, p := range places {
					for _, p2 := range places {
						for v := 0; v < 3; v++ {
							if p < 0 || p2 < 0 || p > n || p2 > n || nk == 1 && p != p2 {
								continue
							}
							var cs []cond
							key := func(i int) { cs = append(cs, cond{fmt.Sprintf("k%d", i), fmt.Sprintf("v%d", v)}) }
							for i := 0; i <= n; i++ {
								if i == p {
									for j := 0; j < nk-1; j++ {
										key(j)
									}
								}
								if i == p2 {
									key(nk - 1)
								}
								if i < n {
									cs = append(cs, cond{fmt.Sprintf("x%d", i), fmt.Sprintf("v%d", i%3)})
								}
							}
							text := plainStyle.text([]pair{{"count", "*"}, {"sum", "a"}}, cs)
							q, err := query.RoughParse(text)
							if err != nil {
								return short(fmt.Errorf("%d conditions: %v: %s", len(cs), err, text))
							}
							res, err := s.Read(ctx, q)
							if err != nil {
								return short(fmt.Errorf("%d conditions: %v: %s", len(cs), err, text))
							}
							got := ""
							for _, r := range res.FieldMeasureValues {
								got += fmt.Sprintf("%s(%s)=%v ", r.M, r.F, r.V)
							}
							want := fmt.Sprintf("count(*)=1 sum(a)=%d ", v+5)
							if v == 2 {
								want = ""
							}
							if got != want {
								return short(fmt.Errorf("keys at %d and %d of %d conditions: answered with %q, want %q: %s", p, p2, len(cs), got, want, text))
							}
							w.Eval(1)
							w.NT(1)
							w.Tick()
						}
					}
				}
				return nil
			})
		}
	}
}

// colliding: queries, names and values that common hashes take for the same.
func colliding(w *vlib.W) {
	for part, gen := range []func(s string) ([]pair, []cond){
		func(s string) ([]pair, []cond) { return []pair{{"count", "*"}}, []cond{{"k", s}} },
		func(s string) ([]pair, []cond) { return []pair{{"sum", s}, {"max", "x"}}, []cond{{"k", "v"}} },
		func(s string) ([]pair, []cond) { return []pair{{s, "x"}}, []cond{{"k", "v"}} },
		func(s string) ([]pair, []cond) { return []pair{{"sum", "x"}}, []cond{{s, "v"}} },
	} {
		part, gen := part, gen
		w.Case(fmt.Sprintf("colliding texts %d", part), func() error {
			text := func(s string) string { p, c := gen(s); return plainStyle.text(p, c) }
			do := func(s string) error {
				p, c := gen(s)
				return check(w, plainStyle.text(p, c), reference(p, c))
			}
			for _, whole := range []bool{true, false} {
				for _, p := range vlib.Colliding(3, func(i int) string {
					if whole {
						return text(vlib.Name36(i))
					}
					return vlib.Name36(i)
				}) {
					a, b := p.A, p.B
					if whole {
						// what is generated is where the texts differ
						i := strings.Index(text("\x00"), "\x00")
						a, b = a[i:i+vlib.NameLen], b[i:i+vlib.NameLen]
					}
					for _, s := range []string{a, b, a, b} {
						if err := do(s); err != nil {
							return fmt.Errorf("%q and %q, which have the same %s: %v", a, b, p.Hash, err)
						}
					}
					// and together
					if part < 3 && a != b {
						pa, c := gen(a)
						pb, _ := gen(b)
						if part == 0 {
							c = append(c, cond{"j", b})
							pb = nil
						}
						ps := append(append([]pair{}, pa...), pb...)
						if err := check(w, plainStyle.text(ps, c), reference(ps, c)); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
}
