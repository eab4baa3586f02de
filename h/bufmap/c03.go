package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime/debug"
	"sort"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zz/vlib"
)

// bmap is the reference: a map of records over l slots, each new key taking
// the first free slot of the eleven (or l) starting at its home slot.
type bmap struct {
	l     int
	slot  []uint64 // key in each slot
	extra map[uint64]bool
	ver   map[uint64]int
}

func newModel(l int) *bmap {
	return &bmap{l: l, slot: make([]uint64, l), extra: map[uint64]bool{}, ver: map[uint64]int{}}
}

func (b *bmap) span() int {
	if b.l < 11 {
		return b.l
	}
	return 11
}

// free returns the slot a new key may take, or -1.
func (b *bmap) free(k uint64) int {
	for i := 0; i < b.span(); i++ {
		x := int((k%uint64(b.l) + uint64(i)) % uint64(b.l))
		if b.slot[x] == 0 {
			return x
		}
	}
	return -1
}

// step applies an update of k to the store and the model and compares.
func (b *bmap) update(m *bufmap.Map, k uint64, s int) error {
	called := 0
	var herr error
	err := m.Update(k, func(d []byte, init bool) error {
		called++
		if len(d) != s {
			herr = fmt.Errorf("update function of key %d got %d bytes, record size %d", k, len(d), s)
			return nil
		}
		if init != (b.ver[k] == 0) {
			herr = fmt.Errorf("key %d told init=%v after %d updates", k, init, b.ver[k])
		}
		pre := make([]byte, s)
		if b.ver[k] > 0 {
			pre = want(k, b.ver[k], s)
		}
		if !bytes.Equal(d, pre) {
			herr = fmt.Errorf("update %d of key %d starts from %v, want %v", b.ver[k]+1, k, clip(d), clip(pre))
		}
		fill(d, k, b.ver[k]+1)
		return nil
	})
	if herr != nil {
		return herr
	}
	switch {
	case k == 0:
		if err == nil || called > 0 {
			return fmt.Errorf("update of key 0: error %v, function called %d times", err, called)
		}
	case err == nil:
		if called != 1 {
			return fmt.Errorf("update of key %d called its function %d times", k, called)
		}
		if b.ver[k] == 0 {
			if x := b.free(k); x >= 0 {
				b.slot[x] = k
			} else {
				b.extra[k] = true
			}
		}
		b.ver[k]++
	default:
		if called > 0 {
			return fmt.Errorf("update of key %d failed with %v after its function succeeded", k, err)
		}
		if b.ver[k] > 0 {
			return fmt.Errorf("update of stored key %d failed: %v", k, err)
		}
		if x := b.free(k); x >= 0 && len(b.extra) == 0 {
			return fmt.Errorf("new key %d refused (%v) though slot %d of its probe range is free; slots %v", k, err, x, b.slot)
		}
	}
	return nil
}

func (b *bmap) check(m *bufmap.Map, k uint64, s int) error {
	got, ok, err := get(m, k, s)
	if err != nil {
		return err
	}
	if ok != (b.ver[k] > 0) {
		return fmt.Errorf("key %d found=%v after %d successful updates (%d slots)", k, ok, b.ver[k], b.l)
	}
	if ok && !bytes.Equal(got, want(k, b.ver[k], s)) {
		return fmt.Errorf("key %d reads %v, want %v (%d slots of %d bytes)", k, clip(got), clip(want(k, b.ver[k], s)), b.l, s)
	}
	return nil
}

var kept []*bufmap.Map

func c03(w *vlib.W) {
	run := func(l, s int, ks []uint64, probe []uint64, every bool) error {
		m := bufmap.New(l, s)
		if l*s > 1<<29 {
			// memory that is used again would be cleared first, and so be taken in full
			kept = append(kept, m)
			debug.SetMemoryLimit(math.MaxInt64)
		}
		b := newModel(l)
		for i, k := range ks {
			if err := b.update(m, k, s); err != nil {
				return fmt.Errorf("l=%d s=%d updates %v step %d: %v", l, s, ks, i, err)
			}
			if every || i == len(ks)-1 {
				for _, q := range probe {
					if err := b.check(m, q, s); err != nil {
						return fmt.Errorf("l=%d s=%d updates %v after step %d: %v", l, s, ks, i, err)
					}
				}
			}
		}
		w.Eval(1)
		if len(ks) > 1 {
			w.NT(1)
		}
		w.Tick()
		return nil
	}
	// 1. every sequence of updates over a small set of colliding keys, every key read after every step
	type cfg struct {
		l     int
		keys  []uint64
		depth int
	}
	x := pick(w, 2, 3)
	cfgs := []cfg{
		{1, []uint64{0, 1, 2, 3}, 5 + x},
		{2, []uint64{0, 1, 2, 3, 4}, 5 + x},
		{3, []uint64{0, 1, 2, 4, 5, 9}, 5 + x},
		{4, []uint64{0, 3, 4, 7, 8, 11}, 5 + x},
		{5, []uint64{4, 9, 14, 5, 10, 1}, 5 + x},
		{11, []uint64{0, 10, 21, 32, 11, 22, 1}, 4 + x},
		{12, []uint64{0, 11, 23, 35, 12, 24, 1}, 4 + x},
		{13, []uint64{0, 12, 25, 38, 13, 1, 2}, 4 + x},
	}
	for _, c := range cfgs {
		for _, s := range []int{1, 5} {
			for a := range c.keys {
				for bb := range c.keys {
					c, s, a, bb := c, s, a, bb
					w.Case(fmt.Sprintf("seq l=%d s=%d first=%d second=%d", c.l, s, c.keys[a], c.keys[bb]), func() error {
						var bad error
						vlib.Seqs(len(c.keys), c.depth-2, func(sq []int) {
							if bad != nil {
								return
							}
							ks := []uint64{c.keys[a], c.keys[bb]}
							for _, i := range sq {
								ks = append(ks, c.keys[i])
							}
							probe := append([]uint64{0, 99}, c.keys...)
							bad = run(c.l, s, ks, probe, true)
						})
						return bad
					})
				}
			}
		}
	}
	huge(w, run)
	longLives(w)
	// 2. filling: j keys of one home slot after a set of keys of nearby slots
	for _, l := range []int{1, 2, 3, 5, 8, 10, 11, 12, 13, 14, 16, 22, 23, 64} {
		for base := 0; base < l; base++ {
			if l > 16 && base > 2 && base < l-3 {
				continue
			}
			for mask := 0; mask < 32; mask++ {
				l, base, mask := l, base, mask
				w.Case(fmt.Sprintf("fill l=%d base=%d mask=%d", l, base, mask), func() error {
					var ks []uint64
					for bit, d := range []int{1, 3, 10, 11, l - 1} {
						if mask>>uint(bit)&1 == 1 {
							ks = append(ks, uint64(l*(100+bit)+(base+d)%l))
						}
					}
					for j := 1; j <= 14; j++ {
						ks = append(ks, uint64(l*j+base))
					}
					// then everything once more, and a few other homes
					all := append([]uint64(nil), ks...)
					ks = append(ks, all...)
					for d := 0; d < l && d < 14; d++ {
						ks = append(ks, uint64(l*50+d))
					}
					probe := append(append([]uint64{0}, ks...), uint64(l*77+base))
					return run(l, 3, ks, dedup(probe), len(ks) < 45)
				})
			}
		}
	}
	// 3. every order of arrival of 5 keys whose probe ranges overlap
	for _, l := range []int{3, 4, 5, 12} {
		keys := []uint64{uint64(l), uint64(2 * l), uint64(l + 1), uint64(2*l + 1), uint64(2*l - 1), uint64(3*l - 1), uint64(4 * l)}
		l := l
		for n := 2; n <= len(keys); n++ {
			n := n
			w.Case(fmt.Sprintf("orders l=%d n=%d", l, n), func() error {
				var bad error
				vlib.Perms(n, func(p []int) {
					if bad != nil {
						return
					}
					var ks []uint64
					for _, i := range p {
						ks = append(ks, keys[i])
					}
					ks = append(ks, ks...)
					bad = run(l, 2, ks, dedup(append([]uint64{0, 1000}, ks...)), n < 6)
				})
				return bad
			})
		}
	}
	// 4. sizes: full tables of sequential keys, extreme keys, record sizes
	for _, l := range []int{1, 2, 7, 10, 11, 12, 15, 16, 17, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000} {
		for _, s := range []int{0, 1, 2, 3, 4, 8, 24, 100, 300} {
			l, s := l, s
			w.Case(fmt.Sprintf("full l=%d s=%d", l, s), func() error {
				var ks []uint64
				for i := 0; i < l; i++ {
					ks = append(ks, uint64(i+1))
				}
				ks = append(ks, uint64(l+1), 1, uint64(l))
				probe := ks
				return run(l, s, ks, dedup(append(append([]uint64{0}, probe...), uint64(3*l))), false)
			})
		}
	}
	// buffers that are shorter or longer than a record: the record's bytes, as
	// many as there is room for, and none of another record's
	for _, l := range []int{1, 2, 3, 12, 100} {
		for _, s := range []int{1, 2, 3, 8, 24, 300, 5000} {
			l, s := l, s
			w.Case(fmt.Sprintf("other buffers l=%d s=%d", l, s), func() error {
				m := bufmap.New(l, s)
				for k := 1; k <= l; k++ {
					if err := m.Update(uint64(k), func(d []byte, init bool) error { fill(d, uint64(k), 1); return nil }); err != nil {
						return err
					}
				}
				for k := 1; k <= l; k++ {
					rec := want(uint64(k), 1, s)
					for n := 0; n <= 4*s+2; n++ {
						if n > 60 && n%97 > 1 && n%s > 1 {
							continue
						}
						buf := bytes.Repeat([]byte{0xEE}, n)
						if !m.Get(uint64(k), buf) {
							return fmt.Errorf("key %d is not found with a buffer of %d bytes", k, n)
						}
						have := n
						if have > s {
							have = s
						}
						if !bytes.Equal(buf[:have], rec[:have]) {
							return fmt.Errorf("key %d reads %v into a buffer of %d bytes, want %v (%d slots of %d bytes)", k, clip(buf[:have]), n, clip(rec[:have]), l, s)
						}
						for i, c := range buf[have:] {
							if c != 0xEE && c != 0 {
								return fmt.Errorf("a read of key %d, a record of %d bytes, puts %d at byte %d of a buffer of %d", k, s, c, have+i, n)
							}
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				w.Tick()
				return nil
			})
		}
	}
	extremes := []uint64{1, 2, 255, 256, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 10, math.MaxUint64 - 1, math.MaxUint64}
	for _, l := range []int{1, 2, 3, 5, 11, 12, 16, 17, 100, 5000} {
		l := l
		w.Case(fmt.Sprintf("extreme l=%d", l), func() error {
			for i := range extremes {
				for j := range extremes {
					ks := []uint64{extremes[i], extremes[j], extremes[i]}
					ks = append(ks, extremes...)
					if err := run(l, 4, ks, dedup(append([]uint64{0}, extremes...)), false); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// 4b. keys around the ends of integer types whose probe range has one free slot, or none
	for l := 1; l <= 24; l++ {
		for _, at := range []uint64{1 << 31, 1 << 32, 1 << 53, 1 << 63, 0} {
			l, at := l, at
			w.Case(fmt.Sprintf("boundary l=%d at=%d", l, at), func() error {
				span := l
				if span > 11 {
					span = 11
				}
				for d := -12; d <= 12; d++ {
					k := at + uint64(d)
					if k == 0 {
						continue
					}
					for free := -1; free < span; free++ {
						var ks []uint64
						for i := 0; i < span; i++ {
							if i != free {
								// a small key of the slot itself
								ks = append(ks, uint64(l)*1000+(k%uint64(l)+uint64(i))%uint64(l))
							}
						}
						ks = append(ks, k, k+uint64(l), k)
						ks = append(ks, ks...)
						if err := run(l, 2, ks, dedup(append([]uint64{0, k - uint64(l), at + 13}, ks...)), false); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	// 5. many updates of the same keys
	for _, n := range []int{10, 255, 256, 257, 1000, 65536} {
		n := n
		w.Case(fmt.Sprintf("many updates n=%d", n), func() error {
			m := bufmap.New(3, 8)
			b := newModel(3)
			for i := 0; i < n; i++ {
				for _, k := range []uint64{1, 2, 4} {
					if err := b.update(m, k, 8); err != nil {
						return err
					}
				}
				if i&1023 == 0 || i > n-3 {
					for _, k := range []uint64{0, 1, 2, 3, 4, 5, 7} {
						if err := b.check(m, k, 8); err != nil {
							return err
						}
					}
					w.Tick()
				}
			}
			w.Eval(n * 3)
			return nil
		})
	}
}

func dedup(a []uint64) []uint64 {
	a = append([]uint64(nil), a...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	out := a[:0]
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			out = append(out, v)
		}
	}
	return out
}

// huge runs stores that span several gigabytes or millions of slots, of which
// only the pages in use take memory, with keys around every place where an
// offset or index outgrows a number of 16, 31, 32 or 33 bits.
func huge(w *vlib.W, run func(l, s int, ks, probe []uint64, every bool) error) {
	shapes := []struct{ l, s int }{{5000, 1 << 20}, {65537, 65537}, {1 << 23, 600}, {1<<20 + 1, 4099}, {1<<24 + 1, 1}, {1<<24 + 1, 129}, {65536, 65536}, {2500, 3500000}}
	if w.Thorough {
		shapes = append(shapes, []struct{ l, s int }{{20, 1 << 28}, {1 << 27, 33}, {1 << 25, 259}, {100003, 99991}, {1 << 26, 1}}...)
	}
	for _, sh := range shapes {
		l, s := sh.l, sh.s
		w.Case(fmt.Sprintf("huge l=%d s=%d", l, s), func() error {
			at := map[int]bool{0: true, 1: true, l / 2: true, l - 2: true, l - 1: true}
			for _, bits := range []uint{8, 15, 16, 23, 24, 30, 31, 32, 33} {
				for d := -1; d <= 1; d++ {
					at[1<<bits/s+d] = true
					at[1<<bits+d] = true
				}
			}
			var ks []uint64
			for p := range at {
				if p >= 0 && p < l {
					ks = append(ks, uint64(l+p))
					if s < 1<<24 {
						ks = append(ks, uint64(4*l+p))
					}
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			probe := append([]uint64{0, uint64(7*l + l/2), uint64(9*l - 1)}, ks...)
			n := len(ks)
			for i := n - 1; i >= 0; i -= 3 {
				ks = append(ks, ks[i])
			}
			return run(l, s, ks, probe, false)
		})
	}
}

// longLives: what a store has been through, however long, changes nothing but
// what it holds.
func longLives(w *vlib.W) {
	ns := []int{1, 2, 15, 16, 17, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 10001, 32767, 32768, 65535, 65536, 65537, 100001, 300001}
	if w.Thorough {
		ns = append(ns, 1000001, 1<<24+1)
	}
	for _, l := range []int{1, 2, 11, 12, 13, 24, 64} {
		for _, n := range ns {
			for _, how := range []string{"refused key", "refused keys", "updates", "failed updates", "failed new", "reads", "reads of absent"} {
				l, n, how := l, n, how
				w.Case(fmt.Sprintf("%d times %s l=%d", n, how, l), func() error {
					m, b, ul := bufmap.New(l, 3), newModel(l), uint64(l)
					var ks []uint64
					for i := 0; i < b.span(); i++ {
						ks = append(ks, ul+uint64(i))
						if how != "refused key" && how != "refused keys" {
							break
						}
					}
					for _, k := range ks {
						if err := b.update(m, k, 3); err != nil {
							return err
						}
					}
					for i := 0; i < n; i++ {
						var err error
						switch how {
						case "refused key":
							err = b.update(m, ul*2, 3)
						case "refused keys":
							err = b.update(m, ul*uint64(2+i), 3)
						case "updates":
							err = b.update(m, ul, 3)
						case "failed updates", "failed new":
							k := ul
							if how == "failed new" {
								k++
							}
							if e := m.Update(k, func(d []byte, init bool) error { d[0]++; return errFn }); e == nil {
								return fmt.Errorf("a failing update of key %d succeeded", k)
							}
						case "reads":
							err = b.check(m, ul, 3)
						default:
							err = b.check(m, ul*3, 3)
						}
						if err != nil {
							return fmt.Errorf("after %d times: %v", i, err)
						}
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
					// a failed first update may keep its slot
					for i := uint64(0); i < 2*ul && how != "failed new"; i++ {
						if err := b.update(m, ul+i, 3); err != nil {
							return fmt.Errorf("%d times %s: %v", n, how, err)
						}
					}
					for i := uint64(0); i < 3*ul; i++ {
						if err := b.check(m, ul+i, 3); err != nil {
							return fmt.Errorf("%d times %s: %v", n, how, err)
						}
					}
					return nil
				})
			}
		}
	}
}
