package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime/debug"
	"sort"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/zz/vlib"
)

var kept []interface{} // memory that is used again would be cleared first, and so be taken in full

// around lists the buckets around every place where an index, a bit offset or a
// byte offset outgrows a number of 8, 15, 16, 31, 32 or 33 bits.
func around(n int, wd uint8) []int {
	at := map[int]bool{}
	for _, bits := range []uint{3, 8, 15, 16, 23, 24, 29, 30, 31, 32, 33} {
		for d := -2; d <= 2; d++ {
			for _, p := range []int{1<<bits + d, 1<<bits/int(wd) + d, 8<<bits/int(wd) + d, n - 1 + d, n/2 + d, d} {
				if p >= 0 && p < n {
					at[p] = true
				}
			}
		}
	}
	var ps []int
	for p := range at {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	return ps
}

func hugeShapes(w *vlib.W) (s [][2]int) {
	for wd := 1; wd <= 8; wd++ {
		s = append(s, [2]int{1<<32/wd + 100, wd})
		if w.Thorough {
			s = append(s, [2]int{1<<31/wd + 100, wd}, [2]int{1<<33/wd + 100, wd})
		}
	}
	return
}

// c17Huge checks bit buckets of hundreds of megabytes, of which only the pages
// in use take memory.
func c17Huge(w *vlib.W) {
	for _, sh := range hugeShapes(w) {
		n, wd := sh[0], uint8(sh[1])
		w.Case(fmt.Sprintf("huge %d %d", wd, n), func() error {
			debug.SetMemoryLimit(math.MaxInt64)
			b := bitbucket.New(n, wd)
			kept = append(kept, &b)
			if b.Count() != n || b.Width() != wd || b.Len() != 10+(n*int(wd)+7)/8 {
				return fmt.Errorf("%d buckets of %d bits: count %d, width %d, length %d", n, wd, b.Count(), b.Width(), b.Len())
			}
			ps := around(n, wd)
			want := map[int]uint8{}
			a := arr{w: wd}
			check := func(what string) error {
				for _, p := range ps {
					if g := b.Get(p); g != want[p] {
						return fmt.Errorf("%d buckets of %d bits, after %s: bucket %d is %d, want %d", n, wd, what, p, g, want[p])
					}
				}
				return nil
			}
			for r := 0; r < 4; r++ {
				for i, p := range ps {
					if (i+r)%2 == 1 && r < 3 {
						continue
					}
					v := uint8(i*37 + r*11 + 1)
					if r%2 == 0 {
						b.Set(p, v)
						want[p] = a.cap(int(v))
					} else {
						b.IncN(p, v&15)
						want[p] = a.cap(int(want[p]) + int(v&15))
					}
					w.Eval(1)
					w.NT(1)
					if err := check(fmt.Sprintf("change %d of bucket %d", r, p)); err != nil {
						return err
					}
				}
				w.Tick()
			}
			return nil
		})
	}
}

// stream gives the bytes of a saved bit bucket: a header, zeros, and some bytes.
type stream struct {
	at, n int
	set   map[int]byte
	step  int
}

func (s *stream) Read(p []byte) (int, error) {
	if s.at == s.n {
		return 0, io.EOF
	}
	if len(p) > s.step {
		p = p[:s.step]
	}
	if len(p) > s.n-s.at {
		p = p[:s.n-s.at]
	}
	for i := range p {
		p[i] = 0
	}
	for k, v := range s.set {
		if k >= s.at && k < s.at+len(p) {
			p[k-s.at] = v
		}
	}
	s.at += len(p)
	return len(p), nil
}

// Write compares what is saved.
func (s *stream) Write(p []byte) (int, error) {
	if s.at+len(p) > s.n {
		return 0, fmt.Errorf("%d bytes more than %d", s.at+len(p)-s.n, s.n)
	}
	q := make([]byte, 0, 1<<20)
	for len(p) > 0 {
		k := len(p)
		if k > 1<<20 {
			k = 1 << 20
		}
		q = q[:k]
		t := *s
		t.step = 1 << 20
		io.ReadFull(&t, q)
		if !bytes.Equal(q, p[:k]) {
			return 0, fmt.Errorf("the bytes from %d on are not those of the bit bucket", s.at)
		}
		s.at += k
		p = p[k:]
	}
	return s.at, nil
}

type lenWriter struct{ s *stream }

func (l lenWriter) Write(p []byte) (int, error) {
	if _, err := l.s.Write(p); err != nil {
		return 0, err
	}
	return len(p), nil
}

// c18Huge saves and loads bit buckets of hundreds of megabytes.
func c18Huge(w *vlib.W) {
	for _, sh := range [][2]int{{1<<32 + 100, 1}, {1<<29 + 100, 8}, {1<<32/7 + 100, 7}} {
		n, wd := sh[0], uint8(sh[1])
		w.Case(fmt.Sprintf("huge %d %d", wd, n), func() error {
			debug.SetMemoryLimit(math.MaxInt64)
			b := bitbucket.New(n, wd)
			kept = append(kept, &b)
			ps := around(n, wd)
			want := map[int]uint8{}
			a := arr{w: wd}
			bytesOf := map[int]byte{}
			for i, p := range ps {
				v := a.cap(i*37 + 1)
				b.Set(p, v)
				want[p] = v
			}
			// what the bytes are is the code's own business: take them from the saved form
			var img image
			wn, err := b.WriteTo(&img)
			if err != nil || int(wn) != b.Len() || img.n != b.Len() {
				return fmt.Errorf("%d buckets of %d bits: saved %d bytes of %d, %v", n, wd, wn, b.Len(), err)
			}
			for k, v := range img.set {
				bytesOf[k] = v
			}
			for _, step := range []int{1 << 30, 1<<16 + 1} {
				var c bitbucket.BitBucket
				rn, err := c.ReadFrom(&stream{n: img.n, set: bytesOf, step: step})
				kept = append(kept, &c)
				if err != nil || int(rn) != img.n {
					return fmt.Errorf("%d buckets of %d bits: loading %d bytes: %d, %v", n, wd, img.n, rn, err)
				}
				if c.Count() != n || c.Width() != wd || c.Len() != b.Len() {
					return fmt.Errorf("%d buckets of %d bits loaded as %d of %d", n, wd, c.Count(), c.Width())
				}
				for _, p := range ps {
					if g := c.Get(p); g != want[p] {
						return fmt.Errorf("%d buckets of %d bits: bucket %d is loaded as %d, was %d", n, wd, p, g, want[p])
					}
				}
				if _, err := c.WriteTo(lenWriter{&stream{n: img.n, set: bytesOf}}); err != nil {
					return fmt.Errorf("%d buckets of %d bits: loaded and saved again: %v", n, wd, err)
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
				if step > 1<<20 {
					c.Reset()
					for _, p := range ps {
						if g := c.Get(p); g != 0 {
							return fmt.Errorf("%d buckets of %d bits: after a reset bucket %d is %d", n, wd, p, g)
						}
					}
					c.Set(n-1, 1)
					if c.Get(n-1) != 1 || c.Get(0) != 0 {
						return fmt.Errorf("%d buckets of %d bits: after loading and a reset: %d, %d", n, wd, c.Get(n-1), c.Get(0))
					}
				}
			}
			return nil
		})
	}
}

// image keeps the bytes that are not zero.
type image struct {
	n   int
	set map[int]byte
}

func (m *image) Write(p []byte) (int, error) {
	if m.set == nil {
		m.set = map[int]byte{}
	}
	for i := 0; i < len(p); {
		if len(p)-i >= 4096 && bytes.Equal(p[i:i+4096], zeros[:]) {
			i += 4096
			continue
		}
		if p[i] != 0 {
			m.set[m.n+i] = p[i]
		}
		i++
	}
	m.n += len(p)
	return len(p), nil
}

var zeros [4096]byte
