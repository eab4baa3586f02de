// Harness for queries (C12).
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

type pair struct{ m, f string }
type cond struct{ f, v string }

// style is how a query is written down.
type style struct {
	lead, sel, s1, comma, s2, where, s3, and, tail string
}

func (st style) text(ps []pair, cs []cond) string {
	var a, c []string
	for _, p := range ps {
		a = append(a, p.m+"("+p.f+")")
	}
	for _, p := range cs {
		c = append(c, p.f+"='"+p.v+"'")
	}
	return st.lead + st.sel + st.s1 + strings.Join(a, st.comma) + st.s2 + st.where + st.s3 + strings.Join(c, st.and) + st.tail
}

var plainStyle = style{"", "select", " ", ", ", " ", "where", " ", " and ", ""}

func styles() (out []style) {
	sp := []string{" ", "  ", "\t", " \t "}
	for i, lead := range []string{"", " ", "\t  "} {
		for j, k := range [][3]string{{"select", "where", "and"}, {"SELECT", "WHERE", "AND"}, {"Select", "wHERE", "And"}, {"sELECT", "Where", "aNd"}} {
			for l, comma := range []string{",", ", ", " ,", "  ,\t "} {
				x, y, z := sp[(i+j)%4], sp[(j+l)%4], sp[(i+l)%4]
				out = append(out, style{lead, k[0], x, comma, y, k[1], z, x + k[2] + y, []string{"", " ", "\t"}[(i+l)%3]})
			}
		}
	}
	return
}

// show writes a query down unambiguously.
func show(q collation.Query) string {
	s := ""
	for _, f := range q.FieldMeasures {
		s += fmt.Sprintf("%q[", f.F)
		for _, m := range f.M {
			s += fmt.Sprintf("%q ", m)
		}
		s += "]"
	}
	s += " where"
	for _, c := range q.Criteria {
		s += fmt.Sprintf(" %q=%q", c.F, c.V)
	}
	return s
}

func reference(ps []pair, cs []cond) collation.Query {
	var q collation.Query
next:
	for _, p := range ps {
		for i := range q.FieldMeasures {
			if string(q.FieldMeasures[i].F) == p.f {
				q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(p.m))
				continue next
			}
		}
		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(p.f), M: [][]byte{[]byte(p.m)}})
	}
	for _, c := range cs {
		q.Criteria = append(q.Criteria, collation.FV{F: []byte(c.f), V: []byte(c.v)})
	}
	return q
}

// underOrders runs fn under every order in which map iterations may happen (up
// to 120 permutations when the code iterates over maps).
func underOrders(fn func() error) error {
	defer func() { vsched.MapOrder = nil }()
	vsched.MapOrder = nil
	vsched.MapRanges = 0
	if err := fn(); err != nil {
		return err
	}
	if vsched.MapRanges == 0 {
		return nil
	}
	for i := 1; i < 120; i++ {
		i := i
		big := 0
		vsched.MapOrder = func(n int) int {
			if n > big {
				big = n
			}
			return i
		}
		if err := fn(); err != nil {
			return fmt.Errorf("with map iteration order %d: %v", i, err)
		}
		f := 1
		for j := 2; j <= big; j++ {
			f *= j
		}
		if i+1 >= f {
			break
		}
	}
	return nil
}

func check(w *vlib.W, text string, want collation.Query) error {
	ws := show(want)
	err := underOrders(func() error {
		q, err := query.RoughParse(text)
		if err != nil {
			return fmt.Errorf("%q is refused: %v", text, err)
		}
		if g := show(q); g != ws {
			return fmt.Errorf("%q is understood as %s, want %s", text, g, ws)
		}
		return nil
	})
	w.Eval(1)
	if len(want.FieldMeasures)+len(want.Criteria) > 2 {
		w.NT(1)
	}
	w.Tick()
	return err
}

var oddNames = []string{"a", "height", "*", "x.y", "a-b", "Ω", "where", "select", "and", "SELECT", "And", "a|b", "[x]", "a*", "\\d", "$", "^a", "%", "1", "wherever", "or", "_", "a;b", "a&b", "#", "x/y", "{}", "andy", "a+b", "?", "日本", "a:b", "!", "<b>", "~", "\xffx"}

var oddValues = []string{"", " ", "a", "jim jones", " x", "x ", "x and y", " and ", "and", "where", " where ", "select", "select sum(a) where b=", "where c=", "(", ")", "()", ",", ", ", "=", "==", "a=b", "a=", " and b=", " and b= ", "and c=", "Ω", "\t", "x  y", "%", "\\", "sum(a)", ", mean(b)", "-1.5", "*", "a|b", "$1", "United States", "Côte d’Ivoire", "Europe/Paris", "x where y", "\"", "0", "日本 語", "#;&", "\xff\xfe", "a\xc3", strings.Repeat("long ", 100)}

func main() {
	vlib.Main(func(w *vlib.W) {
		st := styles()
		x := 1
		if w.Thorough {
			x = 2
		}
		// select lists
		base := []pair{{"sum", "a"}, {"mean", "a"}, {"sum", "b"}, {"count", "*"}, {"max", "b"}, {"min", "c"}}
		for i := range base {
			for j := range base {
				i, j := i, j
				w.Case(fmt.Sprintf("lists %d %d", i, j), func() error {
					var bad error
					for l := 0; l <= 3+x; l++ {
						vlib.Seqs(len(base), l, func(s []int) {
							ps := []pair{base[i], base[j]}
							for _, k := range s {
								ps = append(ps, base[k])
							}
							for n, cs := range [][]cond{{{"k", "v"}}, {{"k", "v"}, {"j", ""}}, {{"b", "1"}, {"a", "2"}, {"c", "3"}}} {
								if bad == nil {
									bad = check(w, st[(i*7+j*5+l*3+n)%len(st)].text(ps, cs), reference(ps, cs))
								}
							}
						})
					}
					return bad
				})
			}
		}
		// five and six fields in every order
		for n := 3; n <= 5+x; n++ {
			n := n
			for first := 0; first < n; first++ {
				first := first
				w.Case(fmt.Sprintf("fields %d first=%d", n, first), func() error {
					var bad error
					vlib.Perms(n, func(p []int) {
						if bad != nil || p[0] != first {
							return
						}
						var ps []pair
						for r := 0; r < 2; r++ {
							for _, k := range p {
								ps = append(ps, pair{[]string{"sum", "max"}[r], string(rune('a' + (k*5)%7))})
							}
						}
						cs := []cond{{"k", "v"}}
						bad = check(w, plainStyle.text(ps, cs), reference(ps, cs))
					})
					return bad
				})
			}
		}
		together(w)
		wide(w, st)
		colliding(w)
		// every style with a few lists
		for i, s := range st {
			s := s
			w.Case(fmt.Sprintf("style %d", i), func() error {
				for _, ps := range [][]pair{{{"sum", "a"}}, {{"sum", "a"}, {"mean", "b"}}, {{"min", "x"}, {"max", "y"}, {"count", "*"}, {"sum", "x"}}} {
					for _, cs := range [][]cond{{{"k", "v"}}, {{"k", ""}, {"j", "x y"}}, {{"k", "1"}, {"j", "2"}, {"i", "a and b"}}} {
						if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
		// names
		for i, n := range oddNames {
			n := n
			w.Case(fmt.Sprintf("name %d", i), func() error {
				for j, o := range oddNames {
					s := plainStyle
					if j%2 == 1 {
						s = st[(i*11+j)%len(st)]
					}
					for _, t := range []struct {
						ps []pair
						cs []cond
					}{
						{[]pair{{"sum", n}}, []cond{{o, "v"}}},
						{[]pair{{n, o}}, []cond{{"k", "v"}}},
						{[]pair{{"sum", n}, {"max", o}, {"min", n}}, []cond{{n, "v"}, {o, "w"}}},
						{[]pair{{n, n}, {o, o}}, []cond{{o, ""}, {n, " "}}},
					} {
						if err := check(w, s.text(t.ps, t.cs), reference(t.ps, t.cs)); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
		// values
		for i, v := range oddValues {
			v := v
			w.Case(fmt.Sprintf("value %d", i), func() error {
				for j, o := range oddValues {
					s := plainStyle
					if j%2 == 1 {
						s = st[(i*11+j)%len(st)]
					}
					for _, cs := range [][]cond{{{"k", v}}, {{"k", v}, {"j", o}}, {{"k", "1"}, {"j", o}, {"i", v}}, {{"b", v}, {"b", o}, {"where", v}}} {
						for _, ps := range [][]pair{{{"sum", "a"}}, {{"sum", "a"}, {"mean", "b"}}} {
							if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
		// every value of up to 3 characters of the query syntax
		syn := []string{"a", " ", "=", "(", ")", ",", "and", "where", "\t", "select", "\""}
		for i := range syn {
			for j := range syn {
				i, j := i, j
				w.Case(fmt.Sprintf("syntax values %d %d", i, j), func() error {
					var bad error
					for l := 0; l <= 3+x; l++ {
						vlib.Seqs(len(syn), l, func(s []int) {
							v := syn[i] + syn[j]
							for _, k := range s {
								v += syn[k]
							}
							if bad == nil {
								ps, cs := []pair{{"sum", "a"}, {"max", "b"}}, []cond{{"k", v}, {"j", "1"}}
								bad = check(w, plainStyle.text(ps, cs), reference(ps, cs))
							}
						})
					}
					return bad
				})
			}
		}
		oddTexts(w, st)
		// other text is an error
		for i, t := range []string{"", " ", "select", "where", "select where", "select  where ", "sum(a)", "sum(a) where k='v'", "select sum(a)", "select sum(a) k='v'",
			"where k='v' select sum(a)", "selectsum(a) where k='v'", "select sum(a) wherek='v'", "select sum(a)where k='v'", "select sum(a) where", "select sum(a) where ", "select where k='v'",
			"select  where k='v'", "xselect sum(a) where k='v'", "insert sum(a) where k='v'", "select sum(a) were k='v'", "select sum(a) whe re k='v'", "SELECT", "\x00", "select\x00sum(a) where k='v'", "from select sum(a) where k='v'", "k='v'", "{}", "<query/>"} {
			t := t
			w.Case(fmt.Sprintf("error %d", i), func() error {
				w.Eval(1)
				return underOrders(func() error {
					if q, err := query.RoughParse(t); err == nil {
						return fmt.Errorf("%q is understood as %s", t, show(q))
					}
					return nil
				})
			})
		}
		// no text panics: every string of up to 5 (6) tokens
		tok := []string{"select ", " where ", "sum(a)", "k='v'", ",", "'", "=", "(", ")", " ", "\n", "\xff", "and"}
		for i := range tok {
			i := i
			w.Case(fmt.Sprintf("tokens %d", i), func() error {
				for l := 0; l <= 3+x; l++ {
					vlib.Seqs(len(tok), l, func(s []int) {
						t := tok[i]
						for _, k := range s {
							t += tok[k]
						}
						q, err := query.RoughParse(t)
						q2, err2 := query.RoughParse(t)
						if (err == nil) != (err2 == nil) || show(q) != show(q2) {
							panic(fmt.Sprintf("%q is understood as %s and then as %s", t, show(q), show(q2)))
						}
						w.Eval(1)
						w.Tick()
					})
				}
				return nil
			})
		}
		answers(w, st)
		manyCriteria(w)
	})
}

var ctx = context.Background()

// answers compares the answers of a collation, in order.
func answers(w *vlib.W, st []style) {
	fspec := func(f string, ms ...collation.Measure) collation.MeasureSpec {
		return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f}, Measures: ms}
	}
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			fspec("a", collation.Max{}, collation.Sum{}, collation.Cardinality{Precision: 4}, collation.Min{}),
			fspec("b", collation.Cardinality{Precision: 5}),
			fspec("c", collation.Mean{}, collation.Sum{}),
		}}
	avail := map[pair]float64{{"count", "*"}: 2, {"max", "a"}: 7, {"sum", "a"}: 10, {"min", "a"}: 3, {"uniquecount", "a"}: -1, {"uniquecount", "b"}: -1, {"mean", "c"}: 4.5, {"sum", "c"}: 9}
	all := []pair{{"count", "*"}, {"max", "a"}, {"sum", "a"}, {"uniquecount", "a"}, {"uniquecount", "b"}, {"mean", "c"}, {"sum", "c"}, {"sum", "b"}, {"sum", "*"}, {"count", "q"}, {"Max", "a"}, {"", "a"}}
	for i := range all {
		for j := range all {
			i, j := i, j
			w.Case(fmt.Sprintf("answers %d %d", i, j), func() error {
				c, err := sch.Compile()
				if err != nil {
					return err
				}
				s := &storage.Store{Collator: c, Backend: bufmap.New(3, c.Size())}
				for _, r := range []string{"3 q 4", "7 r 5"} {
					f := strings.Fields(r)
					if err := s.Write(ctx, collation.Row{Data: collation.FVList{{F: []byte("c"), V: []byte(f[2])}, {F: []byte("k"), V: []byte("v")}, {F: []byte("a"), V: []byte(f[0])}, {F: []byte("b"), V: []byte(f[1])}}}); err != nil {
						return err
					}
				}
				var bad error
				vlib.SeqsUpTo(len(all), 2, func(sq []int) {
					if bad != nil {
						return
					}
					ps := []pair{all[i], all[j]}
					for _, k := range sq {
						ps = append(ps, all[k])
					}
					q := reference(ps, []cond{{"k", "v"}})
					var want []pair
					for _, f := range q.FieldMeasures {
						for _, m := range f.M {
							p := pair{string(m), string(f.F)}
							if _, ok := avail[p]; ok {
								want = append(want, p)
							}
						}
					}
					bad = underOrders(func() error {
						res, err := s.Read(ctx, q)
						if err != nil {
							return fmt.Errorf("select %v: %v", ps, err)
						}
						var got []pair
						for _, r := range res.FieldMeasureValues {
							p := pair{string(r.M), string(r.F)}
							got = append(got, p)
							if v := avail[p]; v >= 0 && r.V != v {
								return fmt.Errorf("select %v: %v, want %v", ps, r, v)
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return fmt.Errorf("select %v answers %v, want %v in this order", ps, got, want)
						}
						return nil
					})
					w.Eval(1)
					w.NT(1)
					w.Tick()
				})
				return bad
			})
		}
	}
}
