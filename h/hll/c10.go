package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
)

func one(p int, v []byte) []uint8 {
	c := hll.New(uint8(p))
	c.Add(v)
	r, err := regs(&c)
	if err != nil {
		panic(err)
	}
	return r
}

func maxInto(a, b []uint8) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

func diff(a, b []uint8) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("register %d is %d, want %d", i, a[i], b[i])
		}
	}
	return ""
}

// deep are values with unusually high registers, found by search.
func deep(n, tries int) (out [][]byte) {
	best := make([]int, n)
	out = make([][]byte, n)
	for i := 0; i < tries; i++ {
		v := []byte(fmt.Sprintf("deep%d", i))
		c := hll.New(4)
		c.Add(v)
		r, err := regs(&c)
		if err != nil {
			panic(err)
		}
		h := 0
		for _, x := range r {
			if int(x) > h {
				h = int(x)
			}
		}
		for j := range best {
			if h > best[j] {
				copy(best[j+1:], best[j:])
				copy(out[j+1:], out[j:])
				best[j], out[j] = h, v
				break
			}
		}
	}
	return
}

func c10(w *vlib.W) {
	x := 0
	if w.Thorough {
		x = 1
	}
	// values that common hashes of fewer bits take for the same
	for _, p := range []int{4, 9, 14, 18} {
		p := p
		w.Case(fmt.Sprintf("colliding precision=%d", p), func() error {
			for _, pr := range vlib.Colliding(4, vlib.Name36) {
				want := one(p, []byte(pr.A))
				maxInto(want, one(p, []byte(pr.B)))
				c := hll.New(uint8(p))
				for _, v := range []string{pr.A, pr.B, pr.A} {
					c.Add([]byte(v))
				}
				r, err := regs(&c)
				if err != nil {
					return err
				}
				if d := diff(r, want); d != "" {
					return fmt.Errorf("precision %d, %q and %q, which have the same %s: %s", p, pr.A, pr.B, pr.Hash, d)
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			return nil
		})
	}
	// every sequence over a few values: the state depends on the set only
	vals := [][]byte{[]byte(""), []byte("a"), []byte("b"), []byte("17"), []byte("\x00")}
	for p := 4; p <= 18; p++ {
		p := p
		depth := 5 + x
		if p > 8 {
			depth = 4 + x
		}
		if p > 12 {
			depth = 3 + x
		}
		if p > 15 {
			depth = 2 + x
		}
		for first := range vals {
			first := first
			w.Case(fmt.Sprintf("sequences precision=%d first=%d", p, first), func() error {
				var single [][]uint8
				for _, v := range vals {
					single = append(single, one(p, v))
				}
				base := hll.New(uint8(p))
				if r, err := regs(&base); err != nil || len(r) != 1<<uint(p) {
					return fmt.Errorf("precision %d has %d registers (%v)", p, len(r), err)
				}
				counts := map[int]int64{}
				for l := 0; l < depth; l++ {
					var bad error
					vlib.Seqs(len(vals), l, func(sq []int) {
						if bad != nil {
							return
						}
						c := hll.New(uint8(p))
						want := make([]uint8, 1<<uint(p))
						set := 0
						for _, i := range append([]int{first}, sq...) {
							c.Add(vals[i])
							maxInto(want, single[i])
							set |= 1 << uint(i)
						}
						got, err := regs(&c)
						if err != nil {
							bad = err
							return
						}
						if d := diff(got, want); d != "" {
							bad = fmt.Errorf("precision %d, values %d %v: %s", p, first, sq, d)
							return
						}
						n := c.Count()
						if o, ok := counts[set]; ok && o != n {
							bad = fmt.Errorf("precision %d, values %d %v: the unique count is %d, of the same set in another order %d", p, first, sq, n, o)
						}
						counts[set] = n
						w.Eval(1)
						w.NT(1)
						w.Tick()
					})
					if bad != nil {
						return bad
					}
				}
				return nil
			})
		}
	}
	// larger sets: ascending, descending, strided, repeated; registers against the union
	fs := families()[:34]
	for p := 4; p <= 18; p++ {
		for fi := range fs {
			p, f := p, fs[fi]
			w.Case(fmt.Sprintf("union precision=%d family=%s", p, f.name), func() error {
				n := 400
				if p > 14 {
					n = 60
				}
				if w.Thorough {
					n *= 4
				}
				want := make([]uint8, 1<<uint(p))
				for i := 0; i < n; i++ {
					maxInto(want, one(p, f.gen(i)))
				}
				var saved []byte
				for k, order := range []func(i int) int{
					func(i int) int { return i },
					func(i int) int { return n - 1 - i },
					func(i int) int { return i * 7919 % n },
					func(i int) int { return i ^ 1 },
				} {
					c := hll.New(uint8(p))
					for i := 0; i < n; i++ {
						c.Add(f.gen(order(i) % n))
						if i%3 == 0 {
							c.Add(f.gen(order(i/2) % n))
						}
						if i == n/2 {
							c.Count()
						}
					}
					for i := 0; i < n; i++ { // whatever the order skipped, and everything once more
						c.Add(f.gen(i))
					}
					got, err := regs(&c)
					if err != nil {
						return err
					}
					if d := diff(got, want); d != "" {
						return fmt.Errorf("precision %d, %d values of family %s in order %d: %s", p, n, f.name, k, d)
					}
					s := save(&c)
					if saved != nil && !bytes.Equal(s, saved) {
						return fmt.Errorf("precision %d, %d values of family %s: the saved form depends on the order", p, n, f.name)
					}
					saved = s
					before := c.Count()
					if again := c.Count(); again != before || !bytes.Equal(save(&c), saved) {
						return fmt.Errorf("precision %d: counting changed the counter: %d then %d", p, before, again)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				return nil
			})
		}
	}
	// values with high registers
	for p := 4; p <= 18; p++ {
		p := p
		w.Case(fmt.Sprintf("deep precision=%d", p), func() error {
			n := 1 << 16
			if w.Thorough {
				n = 1 << 22
			}
			vs := deep(6, n)
			if w.Thorough || p <= 10 {
				vs = vs[:3]
			} else {
				vs = vs[:1]
			}
			for _, v := range highest {
				vs = append(vs, []byte(v))
			}
			if p > 10 {
				vs = vs[:5]
			} else if !w.Thorough {
				vs = vs[:7]
			}
			var single [][]uint8
			for _, v := range vs {
				single = append(single, one(p, v))
			}
			var bad error
			vlib.Perms(len(vs), func(pm []int) {
				if bad != nil {
					return
				}
				c := hll.New(uint8(p))
				want := make([]uint8, 1<<uint(p))
				if p > 10 {
					pm = pm[:3]
				}
				for _, i := range pm {
					c.Add(vs[i])
					maxInto(want, single[i])
					c.Add([]byte("a"))
				}
				maxInto(want, one(p, []byte("a")))
				got, err := regs(&c)
				if err != nil {
					bad = err
				} else if d := diff(got, want); d != "" {
					bad = fmt.Errorf("precision %d, deep values %v: %s", p, pm, d)
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			})
			return bad
		})
	}
	// through a collation: observations with and without the field, in every order
	for p := 4; p <= 18; p++ {
		p := p
		for first := 0; first < 6; first++ {
			first := first
			depth := 5 + x
			if p > 9 {
				depth = 4 + x
			}
			if p > 13 {
				depth = 3 + x
			}
			w.Case(fmt.Sprintf("collation precision=%d first=%d", p, first), func() error {
				alpha := []struct {
					v []byte
					q bool
				}{{nil, false}, {nil, true}, {[]byte("a"), false}, {[]byte("a"), true}, {[]byte("bb"), false}, {[]byte(""), true}}
				counts := map[string]float64{}
				for l := 0; l < depth; l++ {
					var bad error
					vlib.Seqs(len(alpha), l, func(sq []int) {
						if bad != nil {
							return
						}
						st, err := store(p)
						if err != nil {
							bad = err
							return
						}
						c := hll.New(uint8(p))
						q := 0.0
						for _, i := range append([]int{first}, sq...) {
							if err := st.Write(context.Background(), rowOf(alpha[i].v, alpha[i].q)); err != nil {
								bad = fmt.Errorf("precision %d, observations %d %v: %v", p, first, sq, err)
								return
							}
							if alpha[i].v != nil {
								c.Add(alpha[i].v)
							}
							if alpha[i].q {
								q = 1
							}
						}
						got, err := uniq(st)
						if err != nil {
							bad = fmt.Errorf("precision %d, observations %d %v: %v", p, first, sq, err)
							return
						}
						gq, err := uniqOf(st, "q")
						if err != nil || (gq == 0) != (q == 0) {
							bad = fmt.Errorf("precision %d, observations %d %v: unique count of q is %v (%v)", p, first, sq, gq, err)
							return
						}
						if want := float64(c.Count()); got != want {
							bad = fmt.Errorf("precision %d, observations %d %v: the unique count is %v, of a counter fed the values %v", p, first, sq, got, want)
						}
						_ = counts
						w.Eval(1)
						w.NT(1)
						w.Tick()
					})
					if bad != nil {
						return bad
					}
				}
				return nil
			})
		}
	}
}
