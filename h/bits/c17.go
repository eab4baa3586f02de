package main

import (
	"fmt"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/zz/vlib"
)

// arr is the model: an array of saturating counters.
type arr struct {
	w uint8
	v []uint8
}

func (a *arr) max() int { return 1<<a.w - 1 }

func (a *arr) cap(v int) uint8 {
	if v > a.max() {
		v = a.max()
	}
	return uint8(v)
}

func (a *arr) set(i int, v uint8) { a.v[i] = a.cap(int(v)) }
func (a *arr) inc(i int, v uint8) { a.v[i] = a.cap(int(a.v[i]) + int(v)) }

// same compares everything a bit bucket tells with the model. counts: also the
// number of buckets per value.
func (a *arr) same(b *bitbucket.BitBucket, counts bool) error {
	n := len(a.v)
	if b.Count() != n || b.Width() != a.w || int(b.Max()) != a.max() {
		return fmt.Errorf("count %d width %d max %d, want %d %d %d", b.Count(), b.Width(), b.Max(), n, a.w, a.max())
	}
	if l := 10 + (n*int(a.w)+7)/8; b.Len() != l || bitbucket.Len(n, a.w) != l {
		return fmt.Errorf("length %d and %d, want %d", b.Len(), bitbucket.Len(n, a.w), l)
	}
	for i, v := range a.v {
		if g := b.Get(i); g != v {
			return fmt.Errorf("bucket %d holds %d, want %d of %v", i, g, v, a.v)
		}
	}
	if !counts {
		return nil
	}
	var c [256]int
	for _, v := range a.v {
		c[v]++
	}
	for v := 0; v < 256; v++ {
		if g := b.CountN(uint8(v)); g != c[v] {
			return fmt.Errorf("%d buckets counted with value %d, want %d of %v", g, v, c[v], a.v)
		}
	}
	return nil
}

func c17(w *vlib.W) {
	x := 1
	if w.Thorough {
		x = 2
	}
	// every bucket, every value on every background
	for wd := uint8(1); wd <= 8; wd++ {
		for n := 0; n <= 20+10*x; n++ {
			wd, n := wd, n
			w.Case(fmt.Sprintf("single %d %d", wd, n), func() error {
				max := int(1)<<wd - 1
				for bg := 0; bg < 5; bg++ {
					fill := func() (*bitbucket.BitBucket, *arr, error) {
						b := bitbucket.New(n, wd)
						a := &arr{wd, make([]uint8, n)}
						if err := a.same(&b, false); err != nil {
							return nil, nil, fmt.Errorf("new: %v", err)
						}
						for i := 0; i < n; i++ {
							v := uint8([]int{0, max, []int{max, 0}[i%2], i*7 + 3, []int{1, max - 1, max/2 + 1}[i%3]}[bg] & max)
							a.set(i, v)
							b.Set(i, v)
						}
						return &b, a, a.same(&b, true)
					}
					b, a, err := fill()
					if err != nil {
						return fmt.Errorf("background %d: %v", bg, err)
					}
					for i := 0; i < n; i++ {
						old := a.v[i]
						for v := 0; v < 256; v++ {
							b.Set(i, uint8(v))
							a.set(i, uint8(v))
							if err := a.same(b, v == 255 || v == max); err != nil {
								return fmt.Errorf("background %d, set %d to %d: %v", bg, i, v, err)
							}
							w.Eval(1)
						}
						for c := 0; c <= max; c++ {
							for v := 0; v < 256; v++ {
								b.Set(i, uint8(c))
								a.set(i, uint8(c))
								b.IncN(i, uint8(v))
								a.inc(i, uint8(v))
								if err := a.same(b, false); err != nil {
									return fmt.Errorf("background %d, bucket %d at %d plus %d: %v", bg, i, c, v, err)
								}
								w.Eval(1)
								w.NT(1)
							}
						}
						b.Set(i, old)
						a.set(i, old)
						w.Tick()
					}
					b.Reset()
					a = &arr{wd, make([]uint8, n)}
					if err := a.same(b, true); err != nil {
						return fmt.Errorf("background %d, reset: %v", bg, err)
					}
				}
				return nil
			})
		}
	}
	// sequences of operations
	for wd := uint8(1); wd <= 8; wd++ {
		for _, n := range []int{1, 2, 3, 5, 9, 11} {
			wd, n := wd, n
			w.Case(fmt.Sprintf("sequence %d %d", wd, n), func() error {
				max := int(1)<<wd - 1
				type op struct {
					kind byte
					i    int
					v    uint8
				}
				ops := []op{{'r', 0, 0}}
				is := []int{0}
				if n > 1 {
					is = append(is, n-1)
				}
				if n > 2 {
					is = append(is, n/2)
				}
				vs := map[uint8]bool{}
				var vl []uint8
				for _, v := range []int{1, 0, max, max - 1, max + 1, 255, max/2 + 1} {
					u := uint8(v)
					if v <= 255 && v >= 0 && !vs[u] {
						vs[u] = true
						vl = append(vl, u)
					}
				}
				for _, i := range is {
					for _, v := range vl {
						ops = append(ops, op{'s', i, v}, op{'i', i, v})
					}
				}
				var bad error
				for l := 1; l <= 3+x; l++ {
					if l == 4 && len(ops) > 30 && n != 5 {
						break
					}
					vlib.Seqs(len(ops), l, func(s []int) {
						if bad != nil {
							return
						}
						b := bitbucket.New(n, wd)
						other := bitbucket.New(n, wd)
						a := &arr{wd, make([]uint8, n)}
						for _, k := range s {
							switch o := ops[k]; o.kind {
							case 's':
								b.Set(o.i, o.v)
								a.set(o.i, o.v)
							case 'i':
								b.IncN(o.i, o.v)
								a.inc(o.i, o.v)
							case 'r':
								b.Reset()
								a = &arr{wd, make([]uint8, n)}
							}
						}
						if bad = a.same(&b, l < 3); bad == nil {
							if bad = (&arr{wd, make([]uint8, n)}).same(&other, false); bad != nil {
								bad = fmt.Errorf("another bit bucket: %v", bad)
							}
						}
						if bad != nil {
							bad = fmt.Errorf("%v: %v", func() (t []op) {
								for _, k := range s {
									t = append(t, ops[k])
								}
								return
							}(), bad)
						}
						w.Eval(1)
						if l > 1 {
							w.NT(1)
						}
					})
					w.Tick()
				}
				return bad
			})
		}
	}
	c17Huge(w)
	// many buckets
	for wd := uint8(1); wd <= 8; wd++ {
		for _, n := range []int{255, 256, 257, 1000, 4096, 65536, 1<<18 + 1, 1<<22 + 3} {
			wd, n := wd, n
			w.Case(fmt.Sprintf("large %d %d", wd, n), func() error {
				b := bitbucket.New(n, wd)
				a := &arr{wd, make([]uint8, n)}
				for step := 0; step < 3; step++ {
					for j := 0; j < n; j++ {
						i := j
						if step == 1 {
							i = n - 1 - j
						}
						v := uint8(i*31 + i/7 + step)
						if step == 2 {
							b.IncN(i, v>>3)
							a.inc(i, v>>3)
						} else {
							b.Set(i, v)
							a.set(i, v)
						}
					}
					if err := a.same(&b, n <= 4096); err != nil {
						s := err.Error()
						if len(s) > 300 {
							s = s[:300]
						}
						return fmt.Errorf("step %d: %s", step, s)
					}
					c := 0
					for _, v := range a.v {
						if v == 1 {
							c++
						}
					}
					if g := b.CountN(1); g != c {
						return fmt.Errorf("%d buckets counted with value 1, want %d", g, c)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				// reset, and again after a change at each end
				for r := 0; r < 2; r++ {
					b.Reset()
					if err := (&arr{wd, make([]uint8, n)}).same(&b, false); err != nil {
						return fmt.Errorf("reset: %.300s", err)
					}
					if c := b.CountN(0); c != n {
						return fmt.Errorf("%d of %d buckets are zero after a reset", c, n)
					}
					b.Set(0, 1)
					b.IncN(n-1, 255)
					if b.Get(0) != 1 || b.Get(n-1) != b.Max() || b.CountN(0) != n-2 {
						return fmt.Errorf("the first and the last bucket, set after a reset: %d, %d, %d are zero", b.Get(0), b.Get(n-1), b.CountN(0))
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				return nil
			})
		}
	}
}
