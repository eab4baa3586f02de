package main

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
)

// sk is a structure that can be saved.
type sk interface {
	io.WriterTo
	io.ReaderFrom
	Len() int
	Reset()
}

// kindOf describes one kind of structure.
type kindOf struct {
	name  string
	blank func() sk
	adopt func([]byte) (sk, error)
	// add makes the i-th change of a history
	add func(s sk, i int)
	// show is everything the structure tells
	show func(s sk) string
}

func val(i int) []byte { return []byte(fmt.Sprintf("value %d", i)) }

var bitKind = kindOf{
	name:  "bitbucket",
	blank: func() sk { return &bitbucket.BitBucket{} },
	adopt: func(b []byte) (sk, error) { x, err := bitbucket.WithBytes(b); return &x, err },
	add: func(s sk, i int) {
		b := s.(*bitbucket.BitBucket)
		n := b.Count()
		if n == 0 {
			return
		}
		if i%3 == 0 {
			b.IncN(i*7%n, uint8(i))
		} else {
			b.Set(i*5%n, uint8(i*13+1))
		}
	},
	show: func(s sk) string {
		b := s.(*bitbucket.BitBucket)
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "w%d n%d m%d l%d:", b.Width(), b.Count(), b.Max(), b.Len())
		for i := 0; i < b.Count(); i++ {
			buf.WriteByte(b.Get(i))
		}
		fmt.Fprintf(&buf, ":%d %d", b.CountN(0), b.CountN(1))
		return buf.String()
	},
}

var bloomKind = kindOf{
	name:  "bloom",
	blank: func() sk { return &bloom.Bloom{} },
	adopt: func(b []byte) (sk, error) { x, err := bloom.WithBytes(b); return &x, err },
	add:   func(s sk, i int) { s.(*bloom.Bloom).Add(val(i)) },
	show: func(s sk) string {
		b := s.(*bloom.Bloom)
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "l%d c%d e%x:", b.Len(), b.Count(), math.Float64bits(b.ErrorRate()))
		for i := 0; i < 64; i++ {
			if b.Has(val(i)) {
				buf.WriteByte('1')
			} else {
				buf.WriteByte('0')
			}
		}
		return buf.String()
	},
}

var hllKind = kindOf{
	name:  "hll",
	blank: func() sk { return &hll.Counter{} },
	adopt: func(b []byte) (sk, error) { x, err := hll.WithBytes(b); return &x, err },
	add:   func(s sk, i int) { s.(*hll.Counter).Add(val(i)) },
	show: func(s sk) string {
		c := s.(*hll.Counter)
		return fmt.Sprintf("l%d c%d h%d p%d", c.Len(), c.Count(), c.HarmonicCount(), c.PoissonCount())
	},
}

// spec is a structure with a history.
type spec struct {
	k    kindOf
	name string
	make func() sk
	adds int
	want int // advertised length
}

func build(s spec) sk {
	x := s.make()
	for i := 0; i < s.adds; i++ {
		s.k.add(x, i)
	}
	return x
}

// specs lists the structures; small: only those short enough for every fault.
func specs(small bool) (out []spec) {
	adds := []int{0, 1, 2, 5, 17, 60}
	for wd := uint8(1); wd <= 8; wd++ {
		wd := wd
		ns := []int{0, 1, 2, 3, 7, 8, 9, 16, 17, 33}
		if !small {
			ns = append(ns, 255, 256, 1000, 5001, 9000)
		}
		for _, n := range ns {
			n := n
			for _, a := range adds {
				if n == 0 && a > 0 || small && a != 0 && a != 17 {
					continue
				}
				out = append(out, spec{bitKind, fmt.Sprintf("bitbucket n=%d w=%d adds=%d", n, wd, a), func() sk { b := bitbucket.New(n, wd); return &b }, a, bitbucket.Len(n, wd)})
			}
		}
	}
	ms := []int{1, 2, 3, 8, 15, 16, 64, 77}
	if !small {
		ms = append(ms, 1000, 4097, 30000)
	}
	for _, m := range ms {
		for _, k := range []uint8{0, 1, 3, 8, 255} {
			for _, a := range adds {
				if small && a != 0 && a != 5 {
					continue
				}
				m, k := m, k
				out = append(out, spec{bloomKind, fmt.Sprintf("bloom m=%d k=%d adds=%d", m, k, a), func() sk { b := bloom.NewBits(m, k); return &b }, a, 2 + bitbucket.Len(m, 1)})
			}
		}
	}
	if !small {
		for _, n := range []int{1, 10, 100, 3000} {
			for _, p := range []float64{0.5, 0.01, 1e-9} {
				n, p := n, p
				out = append(out, spec{bloomKind, fmt.Sprintf("bloom n=%d p=%v", n, p), func() sk { b := bloom.New(n, p); return &b }, 9, bloom.Len(n, p)})
			}
		}
	}
	for p := uint8(4); p <= 18; p++ {
		if small && p > 6 {
			break
		}
		p := p
		for _, a := range []int{0, 1, 5, 60, 3000} {
			if p > 12 && a != 60 {
				continue
			}
			if small && a > 60 {
				continue
			}
			out = append(out, spec{hllKind, fmt.Sprintf("hll p=%d adds=%d", p, a), func() sk { c := hll.New(p); return &c }, a, hll.Len(p)})
		}
	}
	return
}

// feed is a stream: data delivered in pieces, then err.
type feed struct {
	data     []byte
	piece    int   // size of every piece (0: as much as asked for)
	cut      int   // an additional end of a piece
	zero     bool  // every other read delivers nothing
	err      error // at the end
	together bool  // with the last data
	pos      int
	odd      bool
	eofs     int
}

func (f *feed) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.zero {
		f.odd = !f.odd
		if f.odd {
			return 0, nil
		}
	}
	if f.pos >= len(f.data) {
		return 0, f.err
	}
	end := len(f.data)
	if f.piece > 0 && f.pos+f.piece < end {
		end = f.pos + f.piece
	}
	if f.cut > f.pos && f.cut < end {
		end = f.cut
	}
	n := copy(p, f.data[f.pos:end])
	f.pos += n
	if f.together && f.pos == len(f.data) {
		return n, f.err
	}
	return n, nil
}
