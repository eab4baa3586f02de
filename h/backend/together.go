package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// keyOf is the key of the schema that thread i compiles.
func keyOf(i int) string { return "k" + strings.Repeat("y", i) }

// together compiles schemas in threads that take turns at every point of the
// schedule, each of which then uses what it got.
func together(w *vlib.W) {
	mk := func(name string, scs ...schema) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			errs := make([]error, len(scs))
			cs := make([]collation.Collator, len(scs))
			ended := 0
			var bodies []func()
			for i := range scs {
				i := i
				bodies = append(bodies, func() {
					errs[i] = func() error {
						s := scs[i].make()
						s.Name = fmt.Sprintf("c%d", i)
						key := keyOf(i)
						s.Keys = keys(key)
						c, err := s.Compile()
						if err != nil {
							return err
						}
						cs[i] = c
						if c.Name() != s.Name {
							return fmt.Errorf("%s is called %s", s.Name, c.Name())
						}
						st, k := plain(c)
						insts := map[string]def{}
						for j := 0; j < 2; j++ {
							text := rows29[(i+j*5)%len(rows29)]
							if err := st.Write(ctx, row(strings.Replace(text, "k=", key+"=", 1))); err != nil {
								return err
							}
							if k.inside != nil {
								return k.inside
							}
							m := tags(text)
							insts[m["k"]] = def{append(append([]map[string]string{}, insts[m["k"]].rows...), m)}
						}
						return askBy(st, scs[i], insts, key)
					}()
					ended++
				})
			}
			return bodies, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s\n%s", r.Panics[0], r.Stacks[0])
				}
				if ended != len(scs) {
					return "", fmt.Errorf("%d of %d threads have ended", ended, len(scs))
				}
				for i, err := range errs {
					if err != nil {
						return "", fmt.Errorf("the schema %s, compiled by thread %d while others compile: %v", scs[i].name, i, err)
					}
				}
				// what was compiled at once goes on as what is compiled alone
				for i := range scs {
					if keyOf(i) != "k" {
						continue
					}
					s := scs[i].make()
					c, err := s.Compile()
					if err != nil {
						return "", err
					}
					if err := mixed(w, scs[i], []collation.Collator{cs[i], c}, rows29, 0x5A); err != nil {
						return "", err
					}
				}
				return "ok", nil
			}
		}}
	}
	var sc []*vsched.Scenario
	reps := []schema{laid(0, []int{0}), laid(1, []int{1, 2}), laid(1, []int{3}), laid(0, []int{5, 4}), laid(1, nil), laid(0, []int{2, 0})}
	for i, a := range reps {
		sc = append(sc, mk("together "+a.name+" twice", a, a))
		for _, b := range reps[i+1:] {
			sc = append(sc, mk("together "+a.name+" and "+b.name, a, b))
		}
	}
	bound := 1
	if w.Thorough {
		bound = 2
	}
	(&vlib.Sched{Scenarios: sc, Bound: bound}).Run(w)
	vsched.MapOrder = nil
}
