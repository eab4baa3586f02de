package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
)

// Collations of many keys, rows of many fields, long names and long values.

func c09Wide(w *vlib.W) {
	ns := []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66}
	if w.Thorough {
		ns = append(ns, 100, 127, 128, 129, 200, 255, 256, 257, 300)
	} else {
		ns = append(ns, 129, 257)
	}
	for _, n := range ns {
		n := n
		w.Case(fmt.Sprintf("wide: %d keys", n), func() error {
			ks := make([]string, n)
			base := make([]string, n)
			for i := range ks {
				ks[i], base[i] = fmt.Sprintf("k%03d", i), fmt.Sprintf("v%d;", i%7)
			}
			rev, rot := make([]int, n), make([]int, n)
			for i := range rev {
				rev[i], rot[i] = n-1-i, (i+n/2)%n
			}
			for i := 0; i < n; i++ {
				if n > 70 && i%16 > 1 && i < n-2 && !w.Thorough {
					continue
				}
				other := append([]string{}, base...)
				other[i] = "w;"
				for _, p := range [][]int{ident(n), rev, rot} {
					if err := c09Pair(w, ks, base, other, p, 7, i%2 == 0); err != nil {
						return err
					}
				}
				// without key i
				s, err := c09Store(ks, false)
				if err != nil {
					return err
				}
				have := append(append([]int{}, ident(n)[:i]...), ident(n)[i+1:]...)
				if err := s.Write(ctx, pairsOf(ks, base, have, 7, "5")); err != nil {
					return err
				}
				if _, _, found, err := counts(s, crit2(ks, base, ident(n))); err != nil || found {
					return fmt.Errorf("%d keys: an observation without key %d was taken (%v)", n, i, err)
				}
				if err := s.Write(ctx, pairsOf(ks, base, rev, 7, "5")); err != nil {
					return err
				}
				if _, _, found, err := counts(s, crit2(ks, base, have)); err != nil || found {
					return fmt.Errorf("%d keys: a query without key %d is answered (%v)", n, i, err)
				}
			}
			return nil
		})
	}
	// two and three keys, with many other fields around and between them
	gaps := []int{0, 1, 2, 7, 8, 9, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024}
	if w.Thorough {
		gaps = append(gaps, 2047, 4095, 4096, 32767, 65534, 65535, 65536, 65537)
	}
	for _, before := range gaps {
		before := before
		w.Case(fmt.Sprintf("wide: keys after %d fields", before), func() error {
			for _, between := range gaps {
				for _, ks := range [][]string{{"a", "b"}, {"b", "a"}, {"a", "c", "b"}} {
					if err := c09Gaps(w, ks, before, between, ""); err != nil {
						return err
					}
					if before < 300 && between < 300 {
						if err := c09Gaps(w, ks, before, between, "a"); err != nil { // names that begin like a key's
							return err
						}
					}
				}
			}
			return nil
		})
	}
	distinct(w)
	// names and values that common hashes take for the same
	w.Case("wide: colliding", func() error {
		long := strings.Repeat("long", 1100)
		for _, p := range vlib.Colliding(4, vlib.Name36) {
			for _, t := range [][3][]string{
				{{"k"}, {p.A}, {p.B}}, {{"one", "two"}, {p.A, "q"}, {p.B, "q"}}, {{"one", "two"}, {p.A, p.B}, {p.B, p.A}},
				{{"k"}, {p.A + long}, {p.B + long}}, {{"k"}, {long + p.A}, {long + p.B}}, {{p.A + long, p.B + long}, {"1", "2"}, {"2", "1"}},
				{{p.A, p.B}, {"1", "2"}, {"2", "1"}}, {{p.A, p.B}, {p.A, p.B}, {p.B, p.A}},
			} {
				if err := c09Pair(w, t[0], t[1], t[2], ident(len(t[0])), 3, true); err != nil {
					return fmt.Errorf("%q and %q have the same %s: %v", p.A, p.B, p.Hash, err)
				}
			}
			s, err := c09Store([]string{p.A, "k"}, false)
			if err != nil {
				return err
			}
			if err := s.Write(ctx, row(p.B, "1", "k", "1", "w", "1")); err != nil {
				return err
			}
			if _, _, found, err := counts(s, crit(p.A, "1", "k", "1")); err != nil || found {
				return fmt.Errorf("a row with %q for the key %q (same %s) is taken (%v)", p.B, p.A, p.Hash, err)
			}
		}
		return nil
	})
	// long names and values that differ in one byte, or in their length
	for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		n := n
		w.Case(fmt.Sprintf("wide: values of %d bytes", n), func() error {
			v := strings.Repeat("abcdefghijklm", n/13+1)[:n]
			var others []string
			step := 1
			if n > 130 {
				step = n/61 + 1
			}
			for i := 0; i < n; i += step {
				others = append(others, v[:i]+"#"+v[i+1:])
			}
			others = append(others, v[:n-1]+"#", v[:n-1], v+"a", v+v, "")
			for _, o := range others {
				if err := c09Pair(w, []string{"one", "two"}, []string{v, "q"}, []string{o, "q"}, []int{1, 0}, 0, true); err != nil {
					return shorten(err)
				}
			}
			// as names: two collation keys that differ in a byte
			for i := 0; i < len(others); i += 5 {
				ks := []string{v, others[i]}
				if others[i] == v {
					continue
				}
				if err := c09Pair(w, ks, []string{"1", "2"}, []string{"2", "1"}, []int{1, 0}, 5, true); err != nil {
					return shorten(err)
				}
				s, err := c09Store(ks, false)
				if err != nil {
					return err
				}
				if err := s.Write(ctx, row(v, "1", v, "1", "w", "1")); err != nil {
					return shorten(err)
				}
				if _, _, found, err := counts(s, crit(v, "1", others[i], "1")); err != nil || found {
					return shorten(fmt.Errorf("a row without the key %q is taken (%v)", others[i], err))
				}
			}
			return nil
		})
	}
}

func shorten(err error) error {
	s := err.Error()
	if _, ok := err.(*vlib.Failure); !ok && len(s) > 1000 {
		return fmt.Errorf("%s...", s[:1000])
	}
	return err
}

func c09Gaps(w *vlib.W, ks []string, before, between int, pre string) error {
	s, err := c09Store(ks, false)
	if err != nil {
		return err
	}
	fill := func(fv collation.FVList, n, from int) collation.FVList {
		for i := 0; i < n; i++ {
			fv = append(fv, collation.FV{F: []byte(fmt.Sprintf("%sz%d", pre, from+i)), V: []byte("1")})
		}
		return fv
	}
	mk := func(vals []string) collation.FVList {
		fv := fill(nil, before, 0)
		for i, k := range ks {
			fv = append(fv, collation.FV{F: []byte(k), V: []byte(vals[i])})
			fv = fill(fv, between, before+i*between)
		}
		return fv
	}
	a, c := []string{"1", "2", "3"}[:len(ks)], []string{"1", "2", "3"}[:len(ks)]
	c[len(c)-1] = "4"
	a = append([]string{}, a...)
	c = append([]string{}, c...)
	a[len(a)-1] = "9"
	for i, v := range [][]string{a, c, a} {
		if err := s.Write(ctx, collation.Row{Data: mk(v)}); err != nil {
			return fmt.Errorf("keys %q after %d and %d fields: observation %d refused: %v", ks, before, between, i, err)
		}
	}
	for i, v := range [][]string{a, c} {
		for j, cr := range []collation.FVList{crit2(ks, v, ident(len(ks))), mk(v)} {
			n, _, found, err := counts(s, cr)
			if err != nil || !found || n != float64(2-i) {
				return fmt.Errorf("keys %q after %d fields and %d between them: the query %d for %q reads found=%v count=%v (%v), want %d", ks, before, between, j, v, found, n, err, 2-i)
			}
		}
	}
	// without the last key
	short := mk(a)
	for i := range short {
		if string(short[i].F) == ks[len(ks)-1] {
			short[i].F = []byte("none")
		}
	}
	tap := &tapBackend{Backend: s.Backend}
	s.Backend = tap
	if err := s.Write(ctx, collation.Row{Data: short}); err != nil || tap.n != 0 {
		return fmt.Errorf("keys %q after %d fields and %d between them: an observation without the last key updated %d instances (%v)", ks, before, between, tap.n, err)
	}
	if _, _, found, err := counts(s, short); err != nil || found {
		return fmt.Errorf("keys %q after %d fields and %d between them: a query without the last key is answered (%v)", ks, before, between, err)
	}
	w.Eval(1)
	w.NT(1)
	w.Tick()
	return nil
}

// numberedBackend records the keys of updates and reads.
type numberedBackend struct {
	k     uint64
	calls int
}

func (b *numberedBackend) Get(k uint64, buf []byte) bool {
	b.k = k
	b.calls++
	return false
}

func (b *numberedBackend) Update(k uint64, fn func([]byte, bool) error) error {
	b.k = k
	b.calls++
	return nil
}

// distinct: millions of different values are millions of different instances.
func distinct(w *vlib.W) {
	const mask = 1<<40 - 1
	name := func(b []byte, i uint64) []byte {
		x := (i + 1) * 0x9e3779b97f4a7c15 & mask
		for j := 0; j < 8; j++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz012345"[x>>uint(5*j)&31])
		}
		return b
	}
	type family struct {
		name string
		n    int
		gen  func(b []byte, i uint64) []byte
	}
	for _, f := range []family{
		{"names", 1 << 24, name},
		{"numbers", 1 << 22, func(b []byte, i uint64) []byte { return strconv.AppendUint(b, i, 10) }},
		{"numbers with zeros", 1 << 22, func(b []byte, i uint64) []byte { return strconv.AppendUint(b, 1000000000+i, 10) }},
		{"dates", 1 << 22, func(b []byte, i uint64) []byte {
			return time.Unix(int64(i)*61, 0).UTC().AppendFormat(b, time.RFC3339)
		}},
		{"addresses", 1 << 22, func(b []byte, i uint64) []byte {
			for j := 3; j >= 0; j-- {
				b = append(strconv.AppendUint(b, i*641>>uint(8*j)&255, 10), '.')
			}
			return b
		}},
		{"bytes", 1 << 22, func(b []byte, i uint64) []byte { return append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24)) }},
		{"long", 1 << 20, func(b []byte, i uint64) []byte {
			return append(name(append(b, "a very long value that begins and ends as all the others do, except for "...), i), ", which is what makes it different"...)
		}},
	} {
		f := f
		w.Case("wide: distinct "+f.name, func() error {
			n := f.n
			if w.Thorough {
				n *= 4
			}
			sch := collation.Schema{Name: "c", Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
			c, err := sch.Compile()
			if err != nil {
				return err
			}
			b, ks := &numberedBackend{}, make([]uint64, n)
			s := &storage.Store{Backend: b, Collator: c}
			fv := collation.FVList{{F: []byte("k")}}
			var v []byte
			for i := 0; i < n; i++ {
				v = f.gen(v[:0], uint64(i))
				fv[0].V = v
				if i&1 == 0 {
					err = s.Write(ctx, collation.Row{Data: fv})
				} else {
					_, err = s.Read(ctx, collation.Query{Criteria: fv})
				}
				if err != nil {
					return err
				}
				if b.calls == 0 {
					return fmt.Errorf("nothing is asked of the backend for %q", v)
				}
				ks[i], b.calls = b.k, 0
				if i&0xffff == 0 {
					w.Tick()
				}
			}
			at := twice(ks)
			if at == nil {
				w.Eval(n)
				w.NT(n)
				return nil
			}
			return fmt.Errorf("%q and %q are one instance (key %d of the backend)", f.gen(nil, uint64(at[0])), f.gen(nil, uint64(at[1])), ks[at[0]])
		})
	}
}

// twice returns two places of ks that are the same.
func twice(ks []uint64) []int {
	a, t := append([]uint64(nil), ks...), make([]uint64, len(ks))
	for sh := uint(0); sh < 64; sh += 16 {
		var c [1<<16 + 1]int
		for _, k := range a {
			c[k>>sh&0xffff+1]++
		}
		for i := 1; i < len(c); i++ {
			c[i] += c[i-1]
		}
		for _, k := range a {
			x := k >> sh & 0xffff
			t[c[x]] = k
			c[x]++
		}
		a, t = t, a
	}
	for i := 1; i < len(a); i++ {
		if a[i] == a[i-1] {
			var at []int
			for j, k := range ks {
				if k == a[i] {
					at = append(at, j)
				}
			}
			return at[:2]
		}
	}
	return nil
}
