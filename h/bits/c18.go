package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
)

// pieces accepts writes and keeps them apart, so that a saved form does not
// depend on the writer keeping the slices it is given.
type pieces struct{ out []byte }

func (p *pieces) Write(b []byte) (int, error) {
	p.out = append(p.out, b...)
	for i := range b {
		_ = b[i]
	}
	return len(b), nil
}

func save(s sk) ([]byte, error) {
	var p pieces
	n, err := s.WriteTo(&p)
	if err != nil {
		return nil, fmt.Errorf("save: %v", err)
	}
	if n != int64(len(p.out)) {
		return nil, fmt.Errorf("save reports %d bytes, wrote %d", n, len(p.out))
	}
	if s.Len() != len(p.out) {
		return nil, fmt.Errorf("saved form has %d bytes, Len is %d", len(p.out), s.Len())
	}
	return p.out, nil
}

// used is a structure of the kind that has been in use with another shape.
func used(k kindOf, variant int) sk {
	var s sk
	switch k.name {
	case "bitbucket":
		b := bitbucket.New([]int{100, 3}[variant%2], []uint8{5, 8}[variant%2])
		s = &b
	case "bloom":
		b := bloom.NewBits([]int{500, 4}[variant%2], []uint8{9, 1}[variant%2])
		s = &b
	case "hll":
		c := hll.New([]uint8{9, 4}[variant%2])
		s = &c
	}
	for i := 0; i < 40; i++ {
		k.add(s, i+1000)
	}
	return s
}

const canary = 0xA5

func c18(w *vlib.W) {
	steps := 40
	if w.Thorough {
		steps = 200
	}
	c18Huge(w)
	for _, sp := range specs(false) {
		sp := sp
		w.Case(sp.name, func() error {
			k := sp.k
			orig := build(sp)
			want := k.show(orig)
			data, err := save(orig)
			if err != nil {
				return err
			}
			if len(data) != sp.want {
				return fmt.Errorf("saved form has %d bytes, the advertised length is %d", len(data), sp.want)
			}
			keep := append([]byte{}, data...)
			if again, err := save(orig); err != nil || !bytes.Equal(again, data) {
				return fmt.Errorf("saving twice differs (%v)", err)
			}
			if k.show(orig) != want {
				return fmt.Errorf("saving changed the structure")
			}
			// evolution: the original's states after further additions
			evo := []string{want}
			saved := [][]byte{keep}
			o := build(sp)
			for i := 0; i < steps; i++ {
				k.add(o, sp.adds+i)
				evo = append(evo, k.show(o))
				d, err := save(o)
				if err != nil {
					return err
				}
				saved = append(saved, append([]byte{}, d...))
			}
			evolve := func(s sk, what string, buf []byte) error {
				for i := 0; ; i++ {
					if g := k.show(s); g != evo[i] {
						return fmt.Errorf("%s, after %d more additions: %.300q, the original %.300q", what, i, g, evo[i])
					}
					d, err := save(s)
					if err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					if !bytes.Equal(d, saved[i]) {
						return fmt.Errorf("%s, after %d more additions: saved form differs from the original's", what, i)
					}
					if buf != nil && !bytes.Equal(buf[:len(d)], saved[i]) {
						return fmt.Errorf("%s, after %d more additions: the adopted buffer is not the saved form", what, i)
					}
					if i == steps {
						return nil
					}
					k.add(s, sp.adds+i)
				}
			}
			// every way a stream can deliver the bytes
			load := func(f *feed, into sk, deep bool) error {
				f.data = append([]byte{}, keep...)
				f.err = io.EOF
				n, err := into.ReadFrom(f)
				what := fmt.Sprintf("loaded with pieces of %d, cut at %d, zero reads %v, EOF with data %v", f.piece, f.cut, f.zero, f.together)
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				if n != int64(len(keep)) {
					return fmt.Errorf("%s: reports %d of %d bytes", what, n, len(keep))
				}
				for i := range f.data {
					f.data[i] = 0xEE // the stream's buffer is reused by its owner
				}
				w.Eval(1)
				if sp.adds > 0 {
					w.NT(1)
				}
				w.Tick()
				if deep {
					return evolve(into, what, nil)
				}
				if g := k.show(into); g != want {
					return fmt.Errorf("%s: %.300q, saved was %.300q", what, g, want)
				}
				return nil
			}
			for v := 0; v < 8; v++ {
				for _, p := range []int{0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 511, 512, 513, 4096} {
					if p > 0 && len(keep)/p > 30000 && v > 0 {
						continue
					}
					into := k.blank()
					if v&4 != 0 {
						into = used(k, p)
					}
					if err := load(&feed{piece: p, together: v&1 != 0, zero: v&2 != 0}, into, v&3 == 0 && (p == 0 || p == 1)); err != nil {
						return err
					}
				}
			}
			cuts := len(keep)
			for c := 1; c < cuts; c++ {
				if c > 200 && cuts-c > 60 && c%(cuts/37+1) != 0 {
					continue
				}
				if err := load(&feed{cut: c, together: c%2 == 0}, k.blank(), false); err != nil {
					return err
				}
			}
			// adopted as a buffer, with bytes beyond it
			for _, extra := range []int{0, 1, 7, 8, 16, 64} {
				whole := make([]byte, len(keep)+extra)
				copy(whole, keep)
				for i := len(keep); i < len(whole); i++ {
					whole[i] = canary
				}
				for v := 0; v < 2; v++ {
					buf := whole
					if v == 1 {
						buf = whole[:len(keep)] // extra capacity only
					}
					copy(buf, keep)
					s, err := k.adopt(buf)
					if err != nil {
						return fmt.Errorf("adopting %d bytes and %d more: %v", len(keep), extra, err)
					}
					what := fmt.Sprintf("adopted with %d more bytes (mode %d)", extra, v)
					if err := evolve(s, what, buf); err != nil {
						return err
					}
					// adopting what is there continues it
					t, err := k.adopt(buf)
					if err != nil {
						return fmt.Errorf("%s: adopting again: %v", what, err)
					}
					if g := k.show(t); g != evo[steps] {
						return fmt.Errorf("%s: adopting again: %.300q, want %.300q", what, g, evo[steps])
					}
					// reset in place
					s.Reset()
					blank := sp.make()
					d, err := save(blank)
					if err != nil {
						return err
					}
					if k.show(s) != k.show(blank) || !bytes.Equal(buf[:len(d)], d) {
						return fmt.Errorf("%s: reset does not leave an empty structure", what)
					}
					for i := 0; i < 3; i++ {
						k.add(s, i)
						k.add(blank, i)
					}
					if k.show(s) != k.show(blank) {
						return fmt.Errorf("%s: evolves differently after reset", what)
					}
					for i := len(keep); i < len(whole); i++ {
						if whole[i] != canary {
							return fmt.Errorf("%s: byte %d beyond the structure was touched", what, i-len(keep))
						}
					}
					// a load into an adopted structure
					w.Eval(1)
					if sp.adds > 0 {
						w.NT(1)
					}
					w.Tick()
				}
			}
			if !bytes.Equal(data, keep) {
				return fmt.Errorf("the bytes of a finished save were changed later")
			}
			return nil
		})
	}
}
