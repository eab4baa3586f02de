package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
)

// what must become of bytes: refused, accepted, or either.
const (
	refuse = iota
	accept
	either
)

// judge decides from the documented layout. stream: the bytes must end where
// the structure ends.
func judge(k kindOf, b []byte, stream bool) int {
	switch k.name {
	case "bloom", "hll":
		if len(b) < 2 || b[0] != 1 {
			return refuse
		}
		v := judge(bitKind, b[2:], stream)
		if v == refuse || len(b) < 12 {
			return refuse
		}
		w, n := b[3], binary.LittleEndian.Uint64(b[4:])
		if k.name == "bloom" {
			if w != 1 {
				return refuse
			}
			if n == 0 {
				return either
			}
			return v
		}
		if p := b[1]; p < 4 || p > 18 || w != 6 || n != 1<<p {
			return refuse
		}
		return v
	}
	if len(b) < 10 || b[0] != 1 || b[1] > 8 {
		return refuse
	}
	n := new(big.Int).SetUint64(binary.LittleEndian.Uint64(b[2:]))
	if b[1] == 0 {
		if n.Sign() == 0 && len(b) == 10 {
			return either
		}
		return refuse
	}
	l := new(big.Int).Mul(n, big.NewInt(int64(b[1])))
	l.Add(l, big.NewInt(7)).Rsh(l, 3)
	switch c := l.Cmp(big.NewInt(int64(len(b) - 10))); {
	case c > 0:
		return refuse
	case c < 0 && stream:
		return refuse
	}
	return accept
}

// use exercises an accepted structure.
func use(k kindOf, s sk) error {
	for i := 0; i < 6; i++ {
		k.add(s, i)
	}
	k.show(s)
	switch x := s.(type) {
	case *bitbucket.BitBucket:
		for i := 0; i < x.Count(); i++ {
			x.IncN(i, 255)
			x.Set(i, 1)
		}
		x.CountN(1)
	case *bloom.Bloom:
		if !x.Has(val(3)) {
			return errors.New("an added value is not present in a loaded filter")
		}
	case *hll.Counter:
		x.Count()
	}
	var p pieces
	n, err := s.WriteTo(&p)
	if err != nil || n != int64(len(p.out)) || s.Len() != len(p.out) {
		return fmt.Errorf("an accepted structure cannot be saved: %d bytes of %d, Len %d, %v", n, len(p.out), s.Len(), err)
	}
	t := k.blank()
	if _, err := t.ReadFrom(bytes.NewReader(p.out)); err != nil {
		return fmt.Errorf("an accepted structure does not load again: %v", err)
	}
	s.Reset()
	k.show(s)
	return nil
}

var mem runtime.MemStats

func allocated() uint64 {
	runtime.ReadMemStats(&mem)
	return mem.TotalAlloc
}

// try loads and adopts b in some ways and judges the results.
func try(w *vlib.W, k kindOf, b []byte, memory bool) error {
	for v := 0; v < 4; v++ {
		f := &feed{data: append([]byte{}, b...), err: io.EOF, piece: []int{0, 1, 0, 3}[v], together: v >= 2}
		s := k.blank()
		if v == 1 {
			s = used(k, v)
		}
		var before uint64
		if memory {
			before = allocated()
		}
		n, err := s.ReadFrom(f)
		if memory {
			if d := allocated() - before; d > 4<<20+uint64(len(b))*16 {
				return fmt.Errorf("%s: loading %d bytes (header % x) allocates %d bytes", k.name, len(b), head(b), d)
			}
		}
		want := judge(k, b, true)
		if err == nil && want == refuse {
			return fmt.Errorf("%s: %d bytes % x loaded without an error (delivery %d)", k.name, len(b), head(b), v)
		}
		if err != nil && want == accept {
			return fmt.Errorf("%s: %d valid bytes % x are not loaded (delivery %d): %v", k.name, len(b), head(b), v, err)
		}
		if n < 0 || n > int64(f.pos) || err == nil && n != int64(len(b)) {
			return fmt.Errorf("%s: %d bytes % x: load reports %d bytes, %d were read (delivery %d), error %v", k.name, len(b), head(b), n, f.pos, v, err)
		}
		if n != int64(f.pos) {
			return fmt.Errorf("%s: %d bytes % x: load reports %d bytes, %d were read (delivery %d), error %v", k.name, len(b), head(b), n, f.pos, v, err)
		}
		if err == nil {
			if err := use(k, s); err != nil {
				return fmt.Errorf("%s: %d bytes % x: %v", k.name, len(b), head(b), err)
			}
		}
		w.Eval(1)
		w.NT(1)
	}
	buf := append([]byte{}, b...)
	s, err := k.adopt(buf[:len(b):len(b)])
	want := judge(k, b, false)
	if err == nil && want == refuse {
		return fmt.Errorf("%s: %d bytes % x adopted without an error", k.name, len(b), head(b))
	}
	if err != nil && want == accept {
		return fmt.Errorf("%s: %d valid bytes % x are not adopted: %v", k.name, len(b), head(b), err)
	}
	if err == nil {
		if err := use(k, s); err != nil {
			return fmt.Errorf("%s: adopted %d bytes % x: %v", k.name, len(b), head(b), err)
		}
	}
	w.Eval(1)
	w.NT(1)
	w.Tick()
	return nil
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

var errStream = errors.New("stream failed")

// sink takes limit bytes and then fails.
type sink struct {
	out   []byte
	limit int
	full  bool // reports the failure with the last byte it takes
}

func (s *sink) Write(p []byte) (int, error) {
	n := s.limit - len(s.out)
	if n > len(p) || n == len(p) && !s.full {
		s.out = append(s.out, p...)
		return len(p), nil
	}
	s.out = append(s.out, p[:n]...)
	return n, errStream
}

func c19(w *vlib.W) {
	counts := []uint64{0, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1 << 12, 1 << 18, 1 << 31, 1<<31 - 1, 1<<32 + 16, 1 << 40, 1 << 58, 1<<60 + 16, 1 << 61, 1<<61 + 1, 1<<61 + 16, 1<<61 + 64, 1 << 62, 1<<62 + 16, 1<<63 - 1, 1 << 63, 1<<63 + 16, 1<<64 - 16, 1<<64 - 7, 1<<64 - 1,
		(1<<64)/3 + 1, (1<<64)/6 + 1, (1<<64)/6 + 11, (1<<64)/5 + 1, (1<<64)/7 + 1, (1<<63)/3 + 1}
	for _, sp := range specs(true) {
		sp := sp
		data := func() []byte {
			d, err := save(build(sp))
			if err != nil {
				panic(err)
			}
			return d
		}
		hdr := 10
		if sp.k.name != "bitbucket" {
			hdr = 12
		}
		w.Case("length "+sp.name, func() error {
			d := data()
			for l := 0; l <= len(d); l++ {
				if err := try(w, sp.k, d[:l], l == 0); err != nil {
					return err
				}
			}
			for l := 1; l <= 20; l++ {
				for _, c := range []byte{0, 1, 0xFF} {
					if err := try(w, sp.k, append(append([]byte{}, d...), bytes.Repeat([]byte{c}, l)...), false); err != nil {
						return err
					}
				}
			}
			return try(w, sp.k, append(append([]byte{}, d...), d...), false)
		})
		w.Case("header "+sp.name, func() error {
			d := data()
			for i := 0; i < hdr; i++ {
				for c := 0; c < 256; c++ {
					m := append([]byte{}, d...)
					m[i] = byte(c)
					if err := try(w, sp.k, m, c%32 == 0); err != nil {
						return err
					}
					if c%5 == 0 {
						if err := try(w, sp.k, m[:hdr], false); err != nil {
							return err
						}
					}
				}
			}
			for _, n := range counts {
				for wd := 0; wd <= 10; wd++ {
					if wd == 10 {
						wd = 255
					}
					m := append([]byte{}, d...)
					m[hdr-9] = byte(wd)
					binary.LittleEndian.PutUint64(m[hdr-8:], n)
					if err := try(w, sp.k, m, wd == 1); err != nil {
						return err
					}
					// with as many bytes as it says
					l := (n*uint64(wd) + 7) / 8
					if n < 1<<13 {
						if err := try(w, sp.k, append(m[:hdr:hdr], make([]byte, l)...), false); err != nil {
							return err
						}
					} else if err := try(w, sp.k, m[:hdr], wd == 6); err != nil {
						return err
					}
				}
			}
			return nil
		})
		w.Case("stream "+sp.name, func() error {
			d := data()
			for p := 0; p <= len(d); p++ {
				for v := 0; v < 12; v++ {
					e := []error{errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe}[v%3]
					f := &feed{data: append([]byte{}, d[:p]...), err: e, piece: []int{0, 1}[v&1], together: v&2 != 0, zero: v >= 8}
					s := sp.k.blank()
					n, err := s.ReadFrom(f)
					if err == nil {
						return fmt.Errorf("%s: the stream fails after %d of %d bytes (mode %d), loaded without an error", sp.name, p, len(d), v)
					}
					if !errors.Is(err, e) && (v%3 == 0 || v%3 == 2) {
						return fmt.Errorf("%s: the stream fails after %d of %d bytes (mode %d), reported as %v", sp.name, p, len(d), v, err)
					}
					if n != int64(p) {
						return fmt.Errorf("%s: the stream fails after %d of %d bytes (mode %d), %d reported", sp.name, p, len(d), v, n)
					}
					w.Eval(1)
					w.NT(1)
				}
				w.Tick()
			}
			s := build(sp)
			for p := 0; p <= len(d); p++ {
				for _, full := range []bool{false, true} {
					o := &sink{limit: p, full: full}
					n, err := s.WriteTo(o)
					if n != int64(len(o.out)) {
						return fmt.Errorf("%s: writing fails after %d of %d bytes: %d reported, %d written", sp.name, p, len(d), n, len(o.out))
					}
					if !bytes.Equal(o.out, d[:len(o.out)]) {
						return fmt.Errorf("%s: writing fails after %d of %d bytes: what was written is not the start of the saved form", sp.name, p, len(d))
					}
					if p == len(d) && !full {
						if err != nil {
							return fmt.Errorf("%s: error %v although everything was written", sp.name, err)
						}
						continue
					}
					if p < len(d) && !errors.Is(err, errStream) || p == len(d) && !errors.Is(err, errStream) {
						return fmt.Errorf("%s: writing fails after %d of %d bytes: reported as %v", sp.name, p, len(d), err)
					}
					w.Eval(1)
					w.NT(1)
				}
				w.Tick()
			}
			return nil
		})
	}
	// every precision with every width of registers and number of them
	for p := 0; p < 256; p++ {
		p := p
		w.Case(fmt.Sprintf("precision %d", p), func() error {
			for wd := 0; wd <= 9; wd++ {
				for e := 0; e <= 19; e++ {
					for dl := -1; dl <= 1; dl++ {
						if e > 12 && (wd != 6 && wd != 1 || dl != 0) {
							continue
						}
						n := uint64(1)<<uint(e) + uint64(dl)
						l := (int(n)*wd + 7) / 8
						m := make([]byte, 12+l)
						m[0], m[1], m[2], m[3] = 1, byte(p), 1, byte(wd)
						binary.LittleEndian.PutUint64(m[4:], n)
						if e > 12 && p != e {
							if err := try(w, hllKind, m[:12], false); err != nil {
								return err
							}
							if e != 18 {
								continue
							}
						}
						if err := try(w, hllKind, m, false); err != nil {
							return err
						}
						if e <= 12 {
							if err := try(w, bloomKind, m, false); err != nil {
								return err
							}
						}
					}
				}
			}
			return nil
		})
	}
	// every value of every byte of the registers
	for p := uint8(4); p <= 6; p++ {
		p := p
		w.Case(fmt.Sprintf("registers %d", p), func() error {
			l := hll.Len(p)
			for i := 12; i < l; i++ {
				for c := 0; c < 256; c++ {
					for _, rest := range []byte{0, 0xFF, 0x41} {
						m := bytes.Repeat([]byte{rest}, l)
						m[0], m[1], m[2], m[3] = 1, p, 1, 6
						binary.LittleEndian.PutUint64(m[4:], 1<<p)
						m[i] = byte(c)
						if err := try(w, hllKind, m, false); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
	// large claims with some data behind them
	for _, k := range []kindOf{bitKind, bloomKind, hllKind} {
		k := k
		w.Case("memory "+k.name, func() error {
			for _, n := range []uint64{1 << 18, 1 << 20, 1 << 24, 1 << 28, 1 << 33, 1 << 36, 1 << 40, 1 << 45, 1 << 56, 1<<60 - 1, 1<<60 + 1, 1<<63 - 1} {
				for _, wd := range []byte{1, 6, 8} {
					for _, have := range []int{0, 100, 1 << 16, 3 << 20} {
						m := make([]byte, 12+have)
						o := 0
						if k.name != "bitbucket" {
							m[0], m[1] = 1, 18
							o = 2
						}
						m[o], m[o+1] = 1, wd
						binary.LittleEndian.PutUint64(m[o+2:], n)
						m = m[:o+10+have]
						if judge(k, m, false) != refuse {
							continue
						}
						if err := try(w, k, m, true); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
}
