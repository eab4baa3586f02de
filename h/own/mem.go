// Harness of C27: what callers hand in stays theirs, and separate values share
// nothing.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/iand/starbow/internal/collation"
)

// mem hands out the memory of the callers. When strict, everything lies between
// guards that a callee must leave alone, and is overwritten after the call.
// Memory is handed out again after done: the callers reuse it.
type mem struct {
	strict  bool
	checks  []func() error
	scrubs  []func()
	garbage byte
	slabs   map[string][]byte
	used    map[string]int
	numbers [16][]float64
}

const guard = 16

// done checks that nothing handed out was changed, and reuses it.
func (m *mem) done() error {
	for _, c := range m.checks {
		if err := c(); err != nil {
			return err
		}
	}
	for _, s := range m.scrubs {
		s()
	}
	m.checks, m.scrubs = nil, nil
	m.used = nil
	m.garbage += 7
	return nil
}

const slab = 64

// slab is memory for n bytes and the guards, the same for the i-th request of a
// kind after each done.
func (m *mem) slab(kind string, n int) []byte {
	if n > slab {
		return make([]byte, n+2*guard)
	}
	if m.used == nil {
		m.used = map[string]int{}
	}
	if m.slabs == nil {
		m.slabs = map[string][]byte{}
	}
	id := fmt.Sprint(kind, m.used[kind])
	m.used[kind]++
	if m.slabs[id] == nil {
		m.slabs[id] = make([]byte, slab+2*guard)
	}
	return m.slabs[id][:n+2*guard]
}

// bytes hands out s.
func (m *mem) bytes(s string) []byte { return m.kind("data", s) }

func (m *mem) kind(kind, s string) []byte {
	if !m.strict {
		return []byte(s)
	}
	all := m.slab(kind, len(s))
	for i := range all {
		all[i] = byte(0xE0 + i%13)
	}
	copy(all[guard:], s)
	was := append([]byte(nil), all...)
	m.checks = append(m.checks, func() error {
		for i := range all {
			if all[i] != was[i] {
				if i < guard || i >= guard+len(s) {
					return fmt.Errorf("memory next to the input %q was written", s)
				}
				return fmt.Errorf("the input %q was changed to %q", s, all[guard:guard+len(s)])
			}
		}
		return nil
	})
	g := m.garbage
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = '0' + (g+byte(i))%40
		}
	})
	return all[guard : guard+len(s)]
}

// floats hands out vs.
func (m *mem) floats(vs []float64) []float64 {
	if !m.strict {
		return append([]float64(nil), vs...)
	}
	all := make([]float64, len(vs)+8)
	if n := len(vs); n < len(m.numbers) {
		if m.numbers[n] == nil {
			m.numbers[n] = all
		}
		all = m.numbers[n]
	}
	for i := range all {
		all[i] = 1e9 + float64(i)
	}
	copy(all[4:], vs)
	was := append([]float64(nil), all...)
	m.checks = append(m.checks, func() error {
		for i := range all {
			if math.Float64bits(all[i]) != math.Float64bits(was[i]) {
				return fmt.Errorf("the input %v, or memory next to it, was changed: %v", vs, all)
			}
		}
		return nil
	})
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = -1e6 - float64(i)
		}
	})
	return all[4 : 4+len(vs)]
}

func sameFV(a, b collation.FV) bool { return same(a.F, b.F) && same(a.V, b.V) }

// same reports whether two slices are the same memory.
func same(a, b []byte) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}

// fvs hands out a list of fields and values given in pairs.
func (m *mem) fvs(fv ...string) collation.FVList {
	var l collation.FVList
	for i := 0; i < len(fv); i += 2 {
		l = append(l, collation.FV{F: m.kind("field", fv[i]), V: m.kind("value", fv[i+1])})
	}
	if !m.strict {
		return l
	}
	all := make(collation.FVList, len(l)+3)
	copy(all, l)
	for i := len(l); i < len(all); i++ {
		all[i] = collation.FV{F: []byte("k"), V: []byte("guard")}
	}
	was := append(collation.FVList(nil), all...)
	m.checks = append(m.checks, func() error {
		for i := range all {
			if !sameFV(all[i], was[i]) {
				return fmt.Errorf("element %d of the list of fields %q was replaced by %s=%s", i, fv, all[i].F, all[i].V)
			}
		}
		return nil
	})
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = collation.FV{F: []byte("k"), V: []byte("scrubbed")}
		}
	})
	return all[:len(l)]
}

// names hands out a list of names.
func (m *mem) names(ns ...string) [][]byte {
	var l [][]byte
	for _, n := range ns {
		l = append(l, m.kind("name", n))
	}
	if !m.strict {
		return l
	}
	all := make([][]byte, len(l)+2)
	copy(all, l)
	all[len(l)], all[len(l)+1] = []byte("guard"), []byte("guard")
	was := append([][]byte(nil), all...)
	m.checks = append(m.checks, func() error {
		for i := range all {
			if !same(all[i], was[i]) {
				return fmt.Errorf("element %d of the list %q was replaced by %q", i, ns, all[i])
			}
		}
		return nil
	})
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = []byte("max")
		}
	})
	return all[:len(l)]
}

// fms hands out a select list; fm is field, measures...
func (m *mem) fms(fms ...[]string) []collation.FM {
	var l []collation.FM
	for _, f := range fms {
		l = append(l, collation.FM{F: m.kind("select", f[0]), M: m.names(f[1:]...)})
	}
	if !m.strict {
		return l
	}
	all := make([]collation.FM, len(l)+2)
	copy(all, l)
	was := append([]collation.FM(nil), all...)
	m.checks = append(m.checks, func() error {
		for i := range all {
			if !same(all[i].F, was[i].F) || len(all[i].M) != len(was[i].M) || len(all[i].M) > 0 && &all[i].M[0] != &was[i].M[0] {
				return fmt.Errorf("element %d of the select list %q was replaced by %q", i, fms, all[i])
			}
		}
		return nil
	})
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = collation.FM{F: []byte("a"), M: [][]byte{[]byte("max")}}
		}
	})
	return all[:len(l)]
}

// buf hands out a buffer that the callee may write, n bytes of it.
func (m *mem) buf(n int) []byte {
	if !m.strict {
		return make([]byte, n)
	}
	all := bytes.Repeat([]byte{0x5A}, n+2*guard)
	m.checks = append(m.checks, func() error {
		for i, b := range all {
			if (i < guard || i >= guard+n) && b != 0x5A {
				return fmt.Errorf("memory next to a buffer of %d bytes was written", n)
			}
		}
		return nil
	})
	g := m.garbage
	m.scrubs = append(m.scrubs, func() {
		for i := range all {
			all[i] = g + byte(i)
		}
	})
	return all[guard : guard+n]
}
