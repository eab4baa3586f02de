// Harness for the hashes (C21).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"
	stdfnv "hash/fnv"

	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// hasher is what both hashers offer.
type hasher interface {
	hash.Hash64
	WriteByte(b byte) error
	WriteString(s string) (int, error)
	WriteUint64(n uint64)
}

type kind struct {
	name string
	mk   func() hasher
	std  func() hash.Hash64
	str  func(string) uint64
	sum  func([]byte) uint64
}

var kinds = []kind{
	{"fnv1", func() hasher { return fnv.New64() }, func() hash.Hash64 { return stdfnv.New64() }, fnv.String64, fnv.Sum64},
	{"fnv1a", func() hasher { return fnv.New64a() }, func() hash.Hash64 { return stdfnv.New64a() }, fnv.String64a, fnv.Sum64a},
}

func ref(k kind, data []byte) uint64 {
	h := k.std()
	h.Write(data)
	return h.Sum64()
}

// op is an operation on a hasher and on the input it stands for.
type op struct {
	name string
	do   func(h hasher, in []byte) ([]byte, error)
}

func chunks() [][]byte {
	long := make([]byte, 300)
	for i := range long {
		long[i] = byte(i * 7)
	}
	return [][]byte{nil, {}, {0}, {0xFF}, []byte("a"), []byte("foobar"), []byte("h\xc3\xa9llo \xff\xfe"), long}
}

func ops() (out []op) {
	for i, c := range chunks() {
		c := c
		out = append(out, op{fmt.Sprintf("Write#%d", i), func(h hasher, in []byte) ([]byte, error) {
			d := append(make([]byte, 0, len(c)+3), c...)
			if n, err := h.Write(d); n != len(c) || err != nil {
				return nil, fmt.Errorf("Write returns %d, %v", n, err)
			}
			if !bytes.Equal(d, c) {
				return nil, fmt.Errorf("Write changes its argument")
			}
			for j := range d {
				d[j] ^= 0x5A // the caller may reuse its buffer
			}
			return append(in, c...), nil
		}})
		if i == 0 {
			continue
		}
		out = append(out, op{fmt.Sprintf("WriteString#%d", i), func(h hasher, in []byte) ([]byte, error) {
			if n, err := h.WriteString(string(c)); n != len(c) || err != nil {
				return nil, fmt.Errorf("WriteString returns %d, %v", n, err)
			}
			return append(in, c...), nil
		}})
	}
	for _, b := range []byte{0, 1, 'a', 0x80, 0xFF} {
		b := b
		out = append(out, op{fmt.Sprintf("WriteByte %#x", b), func(h hasher, in []byte) ([]byte, error) {
			if err := h.WriteByte(b); err != nil {
				return nil, fmt.Errorf("WriteByte returns %v", err)
			}
			return append(in, b), nil
		}})
	}
	for _, n := range []uint64{0, 1, 0x0102030405060708, 0xF1E2D3C4B5A69788, 1<<64 - 1} {
		n := n
		out = append(out, op{fmt.Sprintf("WriteUint64 %#x", n), func(h hasher, in []byte) ([]byte, error) {
			h.WriteUint64(n)
			return binary.BigEndian.AppendUint64(in, n), nil
		}})
	}
	out = append(out, op{"Reset", func(h hasher, in []byte) ([]byte, error) {
		h.Reset()
		return in[:0:0], nil
	}})
	return
}

// check reads a hash in all ways.
func check(k kind, h hasher, in []byte) error {
	want := ref(k, in)
	var w8 [8]byte
	binary.BigEndian.PutUint64(w8[:], want)
	for i := 0; i < 2; i++ {
		if g := h.Sum64(); g != want {
			return fmt.Errorf("Sum64 is %#x, the hash of the %d bytes is %#x", g, len(in), want)
		}
		if g := h.Sum(nil); !bytes.Equal(g, w8[:]) {
			return fmt.Errorf("Sum is %x, want %x", g, w8)
		}
		pre := []byte{1, 2, 3}
		if g := h.Sum(pre); !bytes.Equal(g, append([]byte{1, 2, 3}, w8[:]...)) || !bytes.Equal(pre, []byte{1, 2, 3}) {
			return fmt.Errorf("Sum appended to a slice is %x, want %x after 010203", g, w8)
		}
		room := append(make([]byte, 0, 32), 9)
		if g := h.Sum(room); !bytes.Equal(g, append([]byte{9}, w8[:]...)) {
			return fmt.Errorf("Sum appended to a slice with room is %x, want %x after 09", g, w8)
		}
		if h.Size() != 8 || h.BlockSize() != 1 {
			return fmt.Errorf("size %d, block size %d", h.Size(), h.BlockSize())
		}
	}
	if g := h.Sum64(); g != want {
		return fmt.Errorf("reading the hash disturbs it")
	}
	return nil
}

func oneShot(k kind, in []byte, want uint64) error {
	if g := k.sum(in); g != want {
		return fmt.Errorf("%s: Sum64 function of % x (%d bytes) is %#x, want %#x", k.name, clip(in), len(in), g, want)
	}
	if g := k.str(string(in)); g != want {
		return fmt.Errorf("%s: String64 function of % x (%d bytes) is %#x, want %#x", k.name, clip(in), len(in), g, want)
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// all feeds in to everything.
func all(k kind, in []byte) error {
	keep := append([]byte{}, in...)
	want := ref(k, in)
	if err := oneShot(k, in, want); err != nil {
		return err
	}
	h := k.mk()
	h.Write(in)
	if h.Sum64() != want {
		return fmt.Errorf("%s: Write of % x (%d bytes) gives %#x, want %#x", k.name, clip(in), len(in), h.Sum64(), want)
	}
	h = k.mk()
	h.WriteString(string(in))
	if h.Sum64() != want {
		return fmt.Errorf("%s: WriteString of % x (%d bytes) gives %#x, want %#x", k.name, clip(in), len(in), h.Sum64(), want)
	}
	h = k.mk()
	for _, b := range in {
		h.WriteByte(b)
	}
	if h.Sum64() != want {
		return fmt.Errorf("%s: WriteByte of % x (%d bytes) gives %#x, want %#x", k.name, clip(in), len(in), h.Sum64(), want)
	}
	if !bytes.Equal(in, keep) {
		return fmt.Errorf("%s: the input is changed", k.name)
	}
	return nil
}

func main() {
	vlib.Main(func(w *vlib.W) {
		for _, k := range kinds {
			run(w, k)
		}
		cross(w)
		concurrent(w)
	})
}

func run(w *vlib.W, k kind) {
	all3 := ops()
	depth := 4
	if w.Thorough {
		depth = 5
	}
	for i := range all3 {
		for j := range all3 {
			i, j := i, j
			w.Case(fmt.Sprintf("%s ops %s, %s", k.name, all3[i].name, all3[j].name), func() error {
				var seq []int
				var rec func() error
				rec = func() error {
					h := k.mk()
					var in []byte
					var names []string
					for n, s := range seq {
						var err error
						names = append(names, all3[s].name)
						if in, err = all3[s].do(h, in); err != nil {
							return fmt.Errorf("%v: %v", names, err)
						}
						if n < 2 || n == len(seq)-1 || len(seq) <= 3 {
							if err := check(k, h, in); err != nil {
								return fmt.Errorf("%v: %v", names, err)
							}
						}
					}
					if err := oneShot(k, in, ref(k, in)); err != nil {
						return fmt.Errorf("%v: %v", names, err)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
					if len(seq) == depth {
						return nil
					}
					for s := range all3 {
						seq = append(seq, s)
						if err := rec(); err != nil {
							return err
						}
						seq = seq[:len(seq)-1]
					}
					return nil
				}
				seq = []int{i, j}
				return rec()
			})
		}
	}
	w.Case(k.name+" fresh", func() error {
		if err := check(k, k.mk(), nil); err != nil {
			return err
		}
		w.Eval(1)
		return all(k, nil)
	})
	for a := 0; a < 256; a++ {
		a := a
		w.Case(fmt.Sprintf("%s short %02x", k.name, a), func() error {
			if err := all(k, []byte{byte(a)}); err != nil {
				return err
			}
			for b := 0; b < 256; b++ {
				if err := all(k, []byte{byte(a), byte(b)}); err != nil {
					return err
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
				for c := 0; c < 256; c++ {
					if !w.Thorough && c%16 != 0 && c != 255 && c != b {
						continue
					}
					if err := all(k, []byte{byte(a), byte(b), byte(c)}); err != nil {
						return err
					}
					w.Eval(1)
					w.NT(1)
				}
			}
			return nil
		})
		// every byte value in every position of inputs of many lengths
		w.Case(fmt.Sprintf("%s positions %02x", k.name, a), func() error {
			for l := 1; l <= 72; l++ {
				for p := 0; p < l; p++ {
					for _, bg := range []byte{0, 0xFF, 'x'} {
						in := bytes.Repeat([]byte{bg}, l)
						in[p] = byte(a)
						if err := all(k, in); err != nil {
							return err
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				w.Tick()
			}
			return nil
		})
		w.Case(fmt.Sprintf("%s integers %02x", k.name, a), func() error {
			for p := 0; p < 8; p++ {
				for _, bg := range []uint64{0, 1<<64 - 1, 0x0123456789ABCDEF, 0x8080808080808080, 0x0101010101010101} {
					n := bg&^(0xFF<<(8*uint(p))) | uint64(a)<<(8*uint(p))
					for _, pre := range []string{"", "a", "prefix"} {
						h := k.mk()
						h.WriteString(pre)
						h.WriteUint64(n)
						in := binary.BigEndian.AppendUint64([]byte(pre), n)
						if h.Sum64() != ref(k, in) {
							return fmt.Errorf("%s: WriteUint64(%#x) after %q gives %#x, want %#x", k.name, n, pre, h.Sum64(), ref(k, in))
						}
						h.WriteByte(1)
						if h.Sum64() != ref(k, append(in, 1)) {
							return fmt.Errorf("%s: a byte after WriteUint64(%#x) gives %#x", k.name, n, h.Sum64())
						}
						w.Eval(1)
						w.NT(1)
					}
				}
			}
			for b := 0; b < 64; b++ {
				for c := 0; c <= b; c++ {
					n := uint64(1)<<uint(b) | uint64(1)<<uint(c) | uint64(a)<<20
					h := k.mk()
					h.WriteUint64(n)
					if h.Sum64() != ref(k, binary.BigEndian.AppendUint64(nil, n)) {
						return fmt.Errorf("%s: WriteUint64(%#x) gives %#x", k.name, n, h.Sum64())
					}
					w.Eval(1)
					w.NT(1)
				}
			}
			return nil
		})
	}
	lens := []int{73, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20}
	for l := 74; l < 600; l += 13 {
		lens = append(lens, l)
	}
	if w.Thorough {
		lens = append(lens, 1<<24, 1<<24+1)
		for l := 73; l < 5000; l++ {
			lens = append(lens, l)
		}
	}
	for _, l := range lens {
		l := l
		w.Case(fmt.Sprintf("%s length %d", k.name, l), func() error {
			for v := 0; v < 4; v++ {
				in := make([]byte, l)
				for i := range in {
					in[i] = byte((i*(2*v+1) + v) >> uint(v))
				}
				if err := all(k, in); err != nil {
					return err
				}
				// split in two at many places
				step := 1 + l/200
				want := ref(k, in)
				for p := 0; p <= l; p += step {
					h := k.mk()
					h.Write(in[:p])
					mid := h.Sum64()
					if mid != k.sum(in[:p]) {
						return fmt.Errorf("%s: Write and Sum64 differ on %d bytes", k.name, p)
					}
					h.WriteString(string(in[p:]))
					if h.Sum64() != want {
						return fmt.Errorf("%s: %d bytes split at %d: %#x, want %#x", k.name, l, p, h.Sum64(), want)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
			}
			return nil
		})
	}
}

// cross interleaves operations on four hashers, two of each kind.
func cross(w *vlib.W) {
	type step struct {
		h  int
		op op
	}
	o := ops()
	var pick []op
	for _, x := range o {
		switch x.name {
		case "Write#5", "WriteString#6", "WriteByte 0xff", "WriteUint64 0x102030405060708", "Reset":
			pick = append(pick, x)
		}
	}
	depth := 4
	if w.Thorough {
		depth = 5
	}
	var steps []step
	for h := 0; h < 4; h++ {
		for _, x := range pick {
			steps = append(steps, step{h, x})
		}
	}
	for i := range steps {
		i := i
		w.Case(fmt.Sprintf("cross %d %s", steps[i].h, steps[i].op.name), func() error {
			var seq []int
			var rec func() error
			rec = func() error {
				var hs [4]hasher
				var in [4][]byte
				for n := range hs {
					hs[n] = kinds[n/2].mk()
				}
				for n, s := range seq {
					st := steps[s]
					var err error
					if in[st.h], err = st.op.do(hs[st.h], in[st.h]); err != nil {
						return err
					}
					if n < len(seq)-1 {
						continue
					}
					for m := range hs {
						if g := hs[m].Sum64(); g != ref(kinds[m/2], in[m]) {
							return fmt.Errorf("hasher %d of sequence %v has %#x, want %#x", m, seq, g, ref(kinds[m/2], in[m]))
						}
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
				if len(seq) == depth {
					return nil
				}
				for s := range steps {
					seq = append(seq, s)
					if err := rec(); err != nil {
						return err
					}
					seq = seq[:len(seq)-1]
				}
				return nil
			}
			seq = []int{i}
			return rec()
		})
	}
}

// concurrent runs every pair of uses of separate hashers in two threads.
func concurrent(w *vlib.W) {
	type use struct {
		name string
		do   func(k kind, b byte) error
	}
	same := func(what string, got, want uint64) error {
		if got != want {
			return fmt.Errorf("%s gives %#x, want %#x", what, got, want)
		}
		return nil
	}
	after := func(what string, f func(h hasher, b byte) []byte) use {
		return use{what, func(k kind, b byte) error {
			h := k.mk()
			want := ref(k, f(h, b))
			sum := h.Sum(nil)
			var w8 [8]byte
			binary.BigEndian.PutUint64(w8[:], want)
			if !bytes.Equal(sum, w8[:]) {
				return fmt.Errorf("Sum after %s is %x, want %x", what, sum, w8)
			}
			return same(k.name+" "+what, h.Sum64(), want)
		}}
	}
	uses := []use{
		after("Write", func(h hasher, b byte) []byte { in := []byte{b, b + 1}; h.Write(in); return in }),
		after("WriteString", func(h hasher, b byte) []byte { in := []byte{b, b + 2}; h.WriteString(string(in)); return in }),
		after("WriteByte", func(h hasher, b byte) []byte { h.WriteByte(b); h.WriteByte(b + 3); return []byte{b, b + 3} }),
		after("WriteUint64", func(h hasher, b byte) []byte {
			n := uint64(b) * 0x0101010101010101
			h.WriteUint64(n)
			return binary.BigEndian.AppendUint64(nil, n)
		}),
		after("Reset", func(h hasher, b byte) []byte { h.WriteByte(b); h.Reset(); h.WriteByte(b + 4); return []byte{b + 4} }),
		{"String64", func(k kind, b byte) error {
			in := []byte{b, b + 5, b}
			return same(k.name+" String64", k.str(string(in)), ref(k, in))
		}},
		{"Sum64", func(k kind, b byte) error {
			in := []byte{b, b + 6, b}
			return same(k.name+" Sum64", k.sum(in), ref(k, in))
		}},
	}
	var scs []*vsched.Scenario
	for x := 0; x < 2*len(uses); x++ {
		for y := 0; y <= x; y++ {
			x, y := x, y
			u, v := uses[x/2], uses[y/2]
			ku, kv := kinds[x%2], kinds[y%2]
			scs = append(scs, &vsched.Scenario{Name: fmt.Sprintf("%s %s with %s %s", ku.name, u.name, kv.name, v.name), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
				var e1, e2 error
				return []func(){func() { e1 = u.do(ku, 0x11) }, func() { e2 = v.do(kv, 0xC3) }}, func(r *vsched.Result) (string, error) {
					if len(r.Panics) > 0 {
						return "", fmt.Errorf("%s", r.Panics[0])
					}
					if e1 != nil {
						return "", e1
					}
					return "same", e2
				}
			}})
		}
	}
	b := 2
	if w.Thorough {
		b = 3
	}
	(&vlib.Sched{Scenarios: scs, Bound: b}).Run(w)
}
