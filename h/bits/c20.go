package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/zz/vlib"
)

// family is a sequence of distinct values.
type family struct {
	name string
	at   func(i int) []byte
}

func mixed(i int) uint64 {
	x := uint64(i) + 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

var families = []family{
	{"decimal", func(i int) []byte { return []byte(strconv.Itoa(i)) }},
	{"decimal6", func(i int) []byte { return []byte(fmt.Sprintf("%06d", i)) }},
	{"big endian", func(i int) []byte { var b [8]byte; binary.BigEndian.PutUint64(b[:], uint64(i)); return b[:] }},
	{"little endian", func(i int) []byte { var b [8]byte; binary.LittleEndian.PutUint64(b[:], uint64(i)); return b[:] }},
	{"big endian 4", func(i int) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], uint32(i)); return b[:] }},
	{"user", func(i int) []byte { return []byte(fmt.Sprintf("user-%d@example.com", i)) }},
	{"mixed", func(i int) []byte { var b [8]byte; binary.LittleEndian.PutUint64(b[:], mixed(i)); return b[:] }},
	{"mixed hex", func(i int) []byte { return []byte(fmt.Sprintf("%x", mixed(i))) }},
}

func c20(w *vlib.W) {
	small(w)
	design(w)
	wiped(w)
	long(w)
}

// small: every history of additions on small filters of every shape.
func small(w *vlib.W) {
	values := [][]byte{{}, {0}, []byte("a"), []byte("b"), []byte("foo"), {0xFF, 0xFE}, []byte("starbow"), bytes.Repeat([]byte("long"), 80)}
	absent := make([][]byte, 40)
	for i := range absent {
		absent[i] = []byte(fmt.Sprintf("absent %d", i))
	}
	depth := 3
	ks := []uint8{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 255}
	ms := []int{31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1001}
	if w.Thorough {
		depth = 4
		ks = nil
		for k := 0; k <= 32; k++ {
			ks = append(ks, uint8(k))
		}
		ks = append(ks, 63, 64, 127, 128, 254, 255)
		for m := 25; m < 31; m++ {
			ms = append(ms, m)
		}
		ms = append(ms, 49, 81, 121, 510, 511, 512, 513, 4095, 4096, 4097)
	}
	for m := 1; m <= 24; m++ {
		ms = append(ms, m)
	}
	for _, m := range ms {
		for _, k := range ks {
			m, k := m, k
			w.Case(fmt.Sprintf("small m=%d k=%d", m, k), func() error {
				var seq []int
				var rec func() error
				rec = func() error {
					b := bloom.NewBits(m, k)
					last := b.Count()
					if last != 0 {
						return fmt.Errorf("an empty filter counts %d items", last)
					}
					if e := b.ErrorRate(); k > 0 && e != 0 || !(e >= 0 && e <= 1) {
						return fmt.Errorf("an empty filter has error rate %v", e)
					}
					if k > 0 {
						for _, v := range append(absent, values...) {
							if b.Has(v) {
								return fmt.Errorf("an empty filter reports %q present", v)
							}
						}
					}
					rate := b.ErrorRate()
					for i, s := range seq {
						b.Add(append([]byte{}, values[s]...))
						for _, t := range seq[:i+1] {
							if !b.Has(append([]byte{}, values[t]...)) {
								return fmt.Errorf("%q was added (sequence %v) and is not reported present", values[t], seq[:i+1])
							}
						}
						c := b.Count()
						if c < last || c < 0 {
							return fmt.Errorf("count goes from %d to %d (sequence %v)", last, c, seq[:i+1])
						}
						last = c
						if k > 0 && c == 0 {
							return fmt.Errorf("a filter with a value counts no items")
						}
						e := b.ErrorRate()
						if !(e >= 0 && e <= 1) || e < rate {
							return fmt.Errorf("error rate goes from %v to %v (sequence %v)", rate, e, seq[:i+1])
						}
						rate = e
					}
					if len(seq) == depth || len(seq) == 1 {
						b.Reset()
						if b.Count() != 0 {
							return fmt.Errorf("after a reset the filter counts %d", b.Count())
						}
						if k > 0 {
							for _, v := range append(absent, values...) {
								if b.Has(v) {
									return fmt.Errorf("after a reset the filter reports %q present (sequence %v)", v, seq)
								}
							}
						}
						for i := len(seq) - 1; i >= 0; i-- {
							b.Add(values[seq[i]])
							if !b.Has(values[seq[i]]) {
								return fmt.Errorf("%q added after a reset is not present", values[seq[i]])
							}
						}
						if c := b.Count(); c != last {
							return fmt.Errorf("the same values count %d, and %d after a reset", last, c)
						}
					}
					w.Eval(1)
					if len(seq) > 0 {
						w.NT(1)
					}
					if len(seq) == depth {
						return nil
					}
					for v := range values {
						seq = append(seq, v)
						if err := rec(); err != nil {
							return err
						}
						seq = seq[:len(seq)-1]
					}
					return nil
				}
				if err := rec(); err != nil {
					return err
				}
				w.Tick()
				// fill it up
				b := bloom.NewBits(m, k)
				last := int64(0)
				n := 3*m + 10
				for i := 0; i < n; i++ {
					b.Add(val(i))
					c := b.Count()
					if c < last {
						return fmt.Errorf("count goes from %d to %d when value %d is added", last, c, i)
					}
					last = c
					if e := b.ErrorRate(); !(e >= 0 && e <= 1) {
						return fmt.Errorf("error rate %v after %d values", e, i+1)
					}
					if i%(1+m/8) == 0 || i == n-1 {
						for j := 0; j <= i; j++ {
							if !b.Has(val(j)) {
								return fmt.Errorf("value %d of %d is not reported present", j, i)
							}
						}
					}
				}
				w.Eval(1)
				w.NT(1)
				return nil
			})
		}
	}
}

func design(w *vlib.W) {
	ns := []int{100, 150, 333, 1000, 3000, 10000}
	ps := []float64{0.5, 0.3, 0.1, 0.05, 0.02, 0.01, 0.001}
	if w.Thorough {
		ns = append(ns, 200, 500, 701, 2000, 5000, 30000, 100000)
		ps = append(ps, 0.25, 0.2, 0.03, 0.005, 0.002)
	}
	for _, n := range ns {
		for _, p := range ps {
			for _, f := range families {
				n, p, f := n, p, f
				random := strings.HasPrefix(f.name, "mixed")
				w.Case(fmt.Sprintf("design n=%d p=%v %s", n, p, f.name), func() error {
					b := bloom.New(n, p)
					last := int64(0)
					check := 1 + n/50
					for i := 0; i < n; i++ {
						b.Add(f.at(i))
						if (i+1)%check == 0 || i == n-1 || i < 10 {
							c := b.Count()
							if c < last {
								return fmt.Errorf("count goes from %d to %d", last, c)
							}
							last = c
							if d := math.Abs(float64(c) - float64(i+1)); d > cntTol(i+1, p, random) {
								return fmt.Errorf("count is %d after %d values", c, i+1)
							}
							w.Max("count_off_permille_of_tolerance", int(1000*math.Abs(float64(c)-float64(i+1))/cntTol(i+1, p, random)))
						}
						if i&1023 == 0 {
							w.Tick()
						}
					}
					for i := 0; i < n; i++ {
						if !b.Has(f.at(i)) {
							return fmt.Errorf("value %d of %d is not reported present", i, n)
						}
					}
					probes := 40000
					if p < 0.005 {
						probes = 300000
					} else if p < 0.05 {
						probes = 100000
					}
					hits := 0
					for i := 0; i < probes; i++ {
						if b.Has(f.at(n + i)) {
							hits++
						}
						if i&4095 == 0 {
							w.Tick()
						}
					}
					fpr := float64(hits) / float64(probes)
					// values without structure behave as the theory says, others
					// less so, as the hashes are weak
					lo, hi, elo, ehi := 0.4, 2.5, 0.3, 2.0
					switch {
					case random && p <= 0.1 && n >= 1000:
						lo, hi, elo, ehi = 0.8, 1.3, 0.8, 1.25
					case random:
						lo, hi, elo, ehi = 0.7, 2, 0.5, 1.3
					case n < 1000:
						lo, hi, elo, ehi = 0.3, 4, 0.25, 1.6
					}
					if fpr < lo*p || fpr > hi*p {
						return fmt.Errorf("absent values are reported present at a rate of %v (%d of %d)", fpr, hits, probes)
					}
					w.Max("fpr_permille_of_p", int(1000*fpr/p))
					e := b.ErrorRate()
					if !(e > elo*fpr && e < ehi*fpr) {
						return fmt.Errorf("error rate is estimated as %v, absent values are reported present at a rate of %v (%d of %d)", e, fpr, hits, probes)
					}
					w.Max("estimate_permille_of_fpr", int(1000*e/fpr))
					w.Max("fpr_permille_of_estimate", int(1000*fpr/e))
					w.Eval(1)
					w.NT(1)
					return nil
				})
			}
		}
	}
}

// cntTol is how far an estimate of i may be off.
func cntTol(i int, p float64, random bool) float64 {
	rel := 0.45
	if p <= 0.1 {
		rel = 0.3
		if random {
			rel = 0.01
		}
	} else if random {
		rel = 0.25
	}
	return 3 + 4*math.Sqrt(float64(i)) + rel*float64(i)
}

// long: values of up to hundreds of kilobytes that differ in few bytes.
func long(w *vlib.W) {
	ls := []int{16, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 10000, 16385, 32769, 65535, 65536, 65537}
	if w.Thorough {
		ls = append(ls, 100000, 131073, 262145, 1<<20+1)
	}
	for _, l := range ls {
		for _, where := range []string{"start", "middle", "end", "spread", "length"} {
			l, where := l, where
			w.Case(fmt.Sprintf("long values %d %s", l, where), func() error {
				at := func(i int) []byte {
					b := bytes.Repeat([]byte("starbow "), l/8+3)[:l+8]
					var m [8]byte
					binary.LittleEndian.PutUint64(m[:], mixed(i))
					switch where {
					case "start":
						copy(b, m[:])
					case "middle":
						copy(b[l/2:], m[:])
					case "end":
						copy(b[l:], m[:])
					case "spread":
						for j := range m {
							b[j*(l+7)/7] = m[j]
						}
					case "length":
						b = append(b, make([]byte, i)...)
					}
					return b
				}
				n, probes := 100, 2000
				if l > 9000 {
					probes = 500
				}
				ps := []float64{0.1, 0.01}
				if where == "length" {
					ps = ps[1:]
				}
				for _, p := range ps {
					b := bloom.New(n, p)
					for i := 0; i < n; i++ {
						b.Add(at(i))
						if c := b.Count(); c < int64(i/2) || c > int64(2*i+10) {
							return fmt.Errorf("count is %d after %d values", c, i+1)
						}
					}
					for i := 0; i < n; i++ {
						if !b.Has(at(i)) {
							return fmt.Errorf("value %d of %d is not reported present", i, n)
						}
					}
					w.Tick()
					hits := 0
					for i := 0; i < probes; i++ {
						if b.Has(at(n + i)) {
							hits++
						}
					}
					fpr := float64(hits) / float64(probes)
					if fpr > 4*p+0.01 || p == 0.1 && fpr < p/4 {
						return fmt.Errorf("filter for %d values at a rate of %v: absent values are reported present at a rate of %v (%d of %d)", n, p, fpr, hits, probes)
					}
					w.Max("long_fpr_permille_of_p", int(1000*fpr/p))
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				return nil
			})
		}
	}
}

// wiped: a filter of any size that is reset holds nothing, and is as good as new.
func wiped(w *vlib.W) {
	ms := []int{2000, 4095, 4096, 4097, 8191, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 100003, 262143, 262145, 524288, 524289, 1000003, 1<<21 + 5, 1<<23 - 1, 1<<23 + 9}
	if w.Thorough {
		ms = append(ms, 1<<25+1, 1<<27+3, 1<<30+7)
	}
	for _, m := range ms {
		for _, k := range []uint8{1, 2, 7, 13} {
			m, k := m, k
			w.Case(fmt.Sprintf("wiped m=%d k=%d", m, k), func() error {
				n := m / int(k) / 2
				if n > 300000 {
					n = 300000
				}
				used, fresh := bloom.NewBits(m, k), bloom.NewBits(m, k)
				for r := 0; r < 3; r++ {
					for i := 0; i < n; i++ {
						used.Add(families[r].at(i))
					}
					if used.Count() == 0 {
						return fmt.Errorf("%d values count none", n)
					}
					used.Reset()
					if c := used.Count(); c != 0 {
						return fmt.Errorf("reset after %d values: count %d", n, c)
					}
					if e := used.ErrorRate(); e != 0 {
						return fmt.Errorf("reset after %d values: error rate %v", n, e)
					}
					for i := 0; i < n; i++ {
						if used.Has(families[r].at(i)) {
							return fmt.Errorf("reset after %d values: value %d is reported present", n, i)
						}
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
				for i := 0; i < 100; i++ {
					used.Add(families[4].at(i))
					fresh.Add(families[4].at(i))
					if a, b := used.Count(), fresh.Count(); a != b || !used.Has(families[4].at(i)) {
						return fmt.Errorf("%d values after a reset count %d, in a new filter %d", i+1, a, b)
					}
				}
				return nil
			})
		}
	}
}
