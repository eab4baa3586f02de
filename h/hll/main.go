// Harness for the cardinality counter (C10, C11).
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
)

func main() {
	vlib.Main(func(w *vlib.W) {
		if os.Getenv("VW_PROP") == "C10" {
			together(w)
			c10(w)
		} else {
			c11(w)
		}
	})
}

func save(c *hll.Counter) []byte {
	var b bytes.Buffer
	if _, err := c.WriteTo(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// regs are the registers of a counter, from its saved form: version, precision,
// then a bit bucket of 6-bit registers.
func regs(c *hll.Counter) ([]uint8, error) {
	s := save(c)
	bb, err := bitbucket.WithBytes(s[2:])
	if err != nil {
		return nil, err
	}
	out := make([]uint8, bb.Count())
	for i := range out {
		out[i] = bb.Get(i)
	}
	return out, nil
}

// families of values
type family struct {
	name string
	gen  func(i int) []byte
}

func text(format string) func(int) []byte {
	return func(i int) []byte { return []byte(fmt.Sprintf(format, i)) }
}

func be(n int) func(int) []byte {
	return func(i int) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(i))
		return b[8-n:]
	}
}

func le(n int) func(int) []byte {
	return func(i int) []byte {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		return b[:n]
	}
}

func code(alpha string, n int, prefix, suffix string) func(int) []byte {
	return func(i int) []byte {
		b := make([]byte, n)
		for j := n - 1; j >= 0; j-- {
			b[j] = alpha[i%len(alpha)]
			i /= len(alpha)
		}
		return []byte(prefix + string(b) + suffix)
	}
}

// splitmix gives well-mixed values.
func splitmix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

func mixed(seed uint64, n int) func(int) []byte {
	return func(i int) []byte {
		var b []byte
		x := splitmix(seed*1e12 + uint64(i))
		for len(b) < n {
			var t [8]byte
			binary.LittleEndian.PutUint64(t[:], x)
			b = append(b, t[:]...)
			x = splitmix(x)
		}
		return b[:n]
	}
}

const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func families() []family {
	fs := []family{
		{"decimal", text("%d")},
		{"decimal-padded", text("%08d")},
		{"hex", text("%x")},
		{"hex16", text("%016x")},
		{"user", text("user-%d")},
		{"user-padded", text("user-%07d")},
		{"email", text("user%d@example.com")},
		{"url", text("http://www.example.com/path/%d/index.html?q=1")},
		{"suffix-long", text("%d-the-same-long-suffix-for-every-value")},
		{"codes6", code(upper, 6, "", "")},
		{"codes5-lower", code("abcdefghijklmnopqrstuvwxyz", 5, "", "")},
		{"codes-prefix", code(upper, 6, "K", "")},
		{"codes-suffix", code(upper, 6, "", "X")},
		{"digits-suffix", code("0123456789", 7, "", "0")},
		{"be4", be(4)}, {"be8", be(8)}, {"le4", le(4)}, {"le8", le(8)},
		{"ip", func(i int) []byte { return []byte(fmt.Sprintf("10.%d.%d.%d", i>>16, i>>8&255, i&255)) }},
		{"ip-swapped", func(i int) []byte { return []byte(fmt.Sprintf("%d.%d.%d.10", i&255, i>>8&255, i>>16)) }},
		{"time", func(i int) []byte { return []byte(fmt.Sprint(1478566442000000 + i*1000)) }},
		{"heights", func(i int) []byte { return []byte(fmt.Sprint(i - 100)) }},
		{"floats", func(i int) []byte { return []byte(fmt.Sprintf("%.2f", float64(i)/100)) }},
		{"binary-bits", func(i int) []byte { return []byte(fmt.Sprintf("%032b", i)) }},
		{"repeat", func(i int) []byte { return []byte(strings.Repeat("a", i%600) + fmt.Sprint(i/600)) }},
		{"multiples", func(i int) []byte { return []byte(fmt.Sprint(i * 4096)) }},
		{"be8-high", func(i int) []byte {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(i)<<32)
			return b[:]
		}},
	}
	for s := uint64(1); s <= 6; s++ {
		fs = append(fs, family{fmt.Sprintf("mixed8-%d", s), mixed(s, 8)})
	}
	fs = append(fs, family{"mixed20", mixed(9, 20)}, family{"mixed1000", mixed(10, 100)})
	for s := 0; s < 24; s++ {
		fs = append(fs, family{fmt.Sprintf("stream%d", s), text(fmt.Sprintf("s%d:%%d", s*7919))})
	}
	return fs
}

// highest are values whose hashes (as the counter mixes them when this was
// written) are 0, 0xf000000000000000, 0x40000, 0x1000000000, 0x5000000000000200
// and 0xa000000008000000: at low precisions they reach the highest registers
// there are. They were found by a search, see DESIGN.md.
var highest = []string{"Mt5Kexny31n", "Z08q950Hv4Z", "1wwndMC4irg", "wwec217H93T", "-GlC3fF5s_0", "aB3S5d_ve27"}

func c11(w *vlib.W) {
	fs := families()
	max := 300000
	if w.Thorough {
		max = 3000000
	}
	// the checkpoints of a precision: small numbers, then a ladder, dense around
	// where the estimators change over
	points := func(p int, limit int) []int {
		m := 1 << uint(p)
		set := map[int]bool{}
		for i := 0; i <= 20; i++ {
			set[i] = true
		}
		for x := 20.0; int(x) <= limit; x *= 1.25 {
			set[int(x)] = true
		}
		for _, f := range []float64{0.1, 0.25, 0.5, 0.7, 1, 1.3, 1.7, 2, 2.3, 2.5, 2.7, 3, 4, 5, 6.9, 7, 7.1, 7.3, 7.6, 8, 10} {
			if n := int(f * float64(m)); n <= limit {
				set[n] = true
			}
		}
		var out []int
		for n := range set {
			out = append(out, n)
		}
		sort.Ints(out)
		return out
	}
	for p := 4; p <= 18; p++ {
		p := p
		m := float64(int(1) << uint(p))
		limit := max
		if l := 600 << uint(p); l < limit && !w.Thorough {
			limit = l
		}
		fs, maxRMS, maxBias := fs, 1.5, 0.5
		if p >= 16 && !w.Thorough {
			// fewer families, but past the change of estimators
			var few []family
			for i := 0; i < len(fs); i += 4 {
				few = append(few, fs[i])
			}
			fs, maxRMS, maxBias = few, 1.8, 1.0
			limit = 17 << uint(p-1)
		}
		pts := points(p, limit)
		w.Case(fmt.Sprintf("precision %d", p), func() error {
			sd := 1.04 / math.Sqrt(m)
			sum := make([]float64, len(pts))
			sq := make([]float64, len(pts))
			for _, f := range fs {
				c := hll.New(uint8(p))
				j := 0
				for n := 0; n <= limit && j < len(pts); n++ {
					if n == pts[j] {
						e := c.Count()
						w.Eval(1)
						if n > 1 {
							w.NT(1)
						}
						if e < 0 || (e == 0) != (n == 0) {
							return fmt.Errorf("precision %d, %d values of family %s: the unique count is %d", p, n, f.name, e)
						}
						d := float64(e) - float64(n)
						if math.Abs(d) > 6*sd*float64(n)+4 {
							return fmt.Errorf("precision %d, %d values of family %s: the unique count is %d, off by %.1f standard errors", p, n, f.name, e, d/(sd*float64(n)))
						}
						// each estimator where it applies
						if e := c.PoissonCount(); e < 0 || (e == 0) != (n == 0) || math.Abs(float64(e)-float64(n)) > 6*sd*float64(n)+4 {
							return fmt.Errorf("precision %d, %d values of family %s: the Poisson estimate is %d", p, n, f.name, e)
						}
						if float64(n) >= 5*m {
							if e := c.HarmonicCount(); math.Abs(float64(e)-float64(n)) > 6*sd*float64(n)+4 {
								return fmt.Errorf("precision %d, %d values of family %s: the harmonic estimate is %d", p, n, f.name, e)
							}
						}
						if t := float64(n) / m; t <= 1 {
							if e := c.LinearCount(); e < 0 || (e == 0) != (n == 0) || math.Abs(float64(e)-float64(n)) > 6*math.Sqrt(m*(math.Exp(t)-t-1))+4 {
								return fmt.Errorf("precision %d, %d values of family %s: the linear estimate is %d", p, n, f.name, e)
							}
						}
						if n > 0 {
							r := (math.Abs(d) - 1) / float64(n) // results are rounded up
							if r < 0 {
								r = 0
							}
							sum[j] += d / float64(n)
							sq[j] += r * r
						}
						j++
						w.Tick()
					}
					c.Add(f.gen(n))
				}
			}
			worst, worstB := 0.0, 0.0
			for j, n := range pts {
				if n < 20 {
					continue
				}
				rms := math.Sqrt(sq[j]/float64(len(fs))) / sd
				bias := (math.Abs(sum[j]/float64(len(fs))) - 1/float64(n)) / sd
				worst, worstB = math.Max(worst, rms), math.Max(worstB, bias)
				if os.Getenv("VW_DUMP") != "" {
					fmt.Fprintf(os.Stderr, "p=%d n=%d rms=%.3f bias=%.3f\n", p, n, rms, bias)
				}
				if rms > maxRMS {
					return fmt.Errorf("precision %d: over %d families of %d values the typical error is %.2f times the promised %.4f", p, len(fs), n, rms, sd)
				}
				if bias > maxBias {
					return fmt.Errorf("precision %d: over %d families of %d values the mean error is %.2f times the promised typical error %.4f", p, len(fs), n, bias, sd)
				}
			}
			w.Max("rms_percent_of_promised", int(worst*100))
			w.Max("bias_percent_of_promised", int(worstB*100))
			return nil
		})
	}
	// the same through a collation
	for _, p := range []int{4, 8, 10, 14} {
		p := p
		w.Case(fmt.Sprintf("collation precision %d", p), func() error {
			sd := 1.04 / math.Sqrt(float64(int(1)<<uint(p)))
			for _, f := range fs {
				st, err := store(p)
				if err != nil {
					return err
				}
				next := 1
				for n := 1; n <= 3000; n++ {
					if err := st.Write(context.Background(), rowOf(f.gen(n-1), n%5 == 0)); err != nil {
						return err
					}
					if n == next {
						next = next*3/2 + 1
						e, err := uniq(st)
						if err != nil {
							return err
						}
						if math.Abs(e-float64(n)) > 6*sd*float64(n)+4 || e <= 0 {
							return fmt.Errorf("collation with precision %d, %d values of family %s: the unique count is %v", p, n, f.name, e)
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				w.Tick()
			}
			return nil
		})
	}
	// texts that mean something elsewhere are as distinct as any
	var oddOnes [][]byte
	for _, v := range vlib.Odd {
		oddOnes = append(oddOnes, []byte(v))
	}
	for _, around := range [][2]string{{"x", ""}, {"", "y"}, {"x ", " y"}, {"12", "34"}, {" ", ""}, {"", " "}, {"\"", "\""}} {
		for _, v := range vlib.Odd {
			oddOnes = append(oddOnes, []byte(around[0]+v+around[1]))
		}
	}
	seen := map[string]bool{}
	distinct := 0
	for p := 14; p <= 18; p++ {
		p := p
		w.Case(fmt.Sprintf("odd texts precision %d", p), func() error {
			st, err := store(p)
			if err != nil {
				return err
			}
			sd := 1.04 / math.Sqrt(float64(int(1)<<uint(p)))
			seen, distinct = map[string]bool{}, 0
			for i, v := range oddOnes {
				if !seen[string(v)] {
					seen[string(v)] = true
					distinct++
				}
				if err := st.Write(context.Background(), rowOf(v, false)); err != nil {
					return err
				}
				if i < 10 || i%10 == 0 || i == len(oddOnes)-1 || i == len(vlib.Odd)-1 {
					e, err := uniq(st)
					if err != nil {
						return err
					}
					// so few values in so many registers are told apart all but exactly
					if math.Abs(e-float64(distinct)) > 2+6*sd*math.Sqrt(float64(distinct))*math.Sqrt(float64(distinct)/10) {
						return fmt.Errorf("collation with precision %d: the unique count of %d odd texts, the last of them %q, is %v", p, distinct, v, e)
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
				}
			}
			return nil
		})
	}
	// values that reach the highest registers there are, one by one, before other values
	for p := 4; p <= 18; p++ {
		p := p
		w.Case(fmt.Sprintf("highest registers precision %d", p), func() error {
			sd := 1.04 / math.Sqrt(float64(int(1)<<uint(p)))
			limit := 12 << uint(p)
			step := 1
			if p > 8 {
				step = 1 << uint(p-8)
			}
			if p > 12 {
				limit = 3 << uint(p)
			}
			nf := 3
			if p > 15 {
				nf, limit = 1, 2<<uint(p)
			}
			if w.Thorough {
				nf *= 3
			}
			for k := 1; k <= len(highest); k++ {
				for _, f := range fs[:nf] {
					c := hll.New(uint8(p))
					for n := 0; n <= limit; n++ {
						if n < k || n%step == 0 {
							e := c.Count()
							d := float64(e) - float64(n)
							if e < 0 || (e == 0) != (n == 0) || math.Abs(d) > 6*sd*float64(n)+4 {
								return fmt.Errorf("precision %d, %d of the values with the highest registers and then up to %d values of family %s: the unique count is %d", p, k, n, f.name, e)
							}
							w.Eval(1)
							w.NT(1)
							w.Tick()
						}
						if n < k {
							c.Add([]byte(highest[n]))
						} else {
							c.Add(f.gen(n))
						}
					}
				}
				if p > 12 && k == 2 && !w.Thorough {
					break
				}
			}
			return nil
		})
	}
	// long values that differ in a few bytes, or only in their length
	for _, l := range []int{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 1 << 20} {
		l := l
		w.Case(fmt.Sprintf("long values of %d bytes", l), func() error {
			n := 200
			if l > 5000 {
				n = 60
			}
			if l > 100000 && !w.Thorough {
				n = 12
			}
			for _, at := range []int{0, 1, l / 3, l / 2, l - 16, l - 8} {
				for _, p := range []int{8, 12, 14} {
					sd := 1.04 / math.Sqrt(float64(int(1)<<uint(p)))
					for kind := 0; kind < 3; kind++ {
						c := hll.New(uint8(p))
						base := bytes.Repeat([]byte{"x0\x00"[kind]}, l)
						for i := 0; i < n; i++ {
							copy(base[at:at+8], fmt.Sprintf("%08d", i*37))
							c.Add(base)
							if i%7 == 0 {
								c.Add(base)
							}
						}
						w.Eval(1)
						w.NT(1)
						if e := c.Count(); math.Abs(float64(e)-float64(n)) > 6*sd*float64(n)+4 {
							return fmt.Errorf("precision %d, %d values of %d bytes that differ at %d: the unique count is %d", p, n, l, at, e)
						}
					}
				}
				w.Tick()
			}
			return nil
		})
	}
	for _, b := range []byte("x0 \x00\xff") {
		b := b
		w.Case(fmt.Sprintf("lengths of %q", b), func() error {
			long := bytes.Repeat([]byte{b}, 100000)
			for _, from := range []int{0, 1, 50, 100, 250, 1000, 4000, 65000, 99000} {
				for _, p := range []int{8, 12, 14} {
					sd := 1.04 / math.Sqrt(float64(int(1)<<uint(p)))
					c := hll.New(uint8(p))
					n := 300
					for i := 0; i < n; i++ {
						c.Add(long[:from+i])
					}
					w.Eval(1)
					w.NT(1)
					w.Tick()
					if e := c.Count(); math.Abs(float64(e)-float64(n)) > 6*sd*float64(n)+4 {
						return fmt.Errorf("precision %d, runs of %q of %d to %d bytes: the unique count is %d", p, b, from, from+n-1, e)
					}
				}
			}
			return nil
		})
	}
	// every pair, triple of small sets of short codes: nearly exact while few registers are set
	for p := 4; p <= 18; p++ {
		p := p
		w.Case(fmt.Sprintf("few values precision %d", p), func() error {
			for _, f := range fs {
				for s := 0; s < 40; s++ {
					c := hll.New(uint8(p))
					for n := 1; n <= 6; n++ {
						c.Add(f.gen(s*6 + n))
						e := c.Count()
						m := float64(int(1) << uint(p))
						// linear counting of n values: at most n registers, at least one
						if e < 1 || float64(e) > math.Ceil(m*math.Log(m/(m-float64(n))))+1e-9 {
							return fmt.Errorf("precision %d, %d values of family %s from %d: the unique count is %d", p, n, f.name, s*6, e)
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				w.Tick()
			}
			return nil
		})
	}
}

func store(p int) (*storage.Store, error) {
	s := collation.Schema{Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			{Field: collation.FieldSpec{Pattern: "q"}, Measures: []collation.Measure{collation.Sum{}, collation.Cardinality{Precision: p}}},
			{Field: collation.FieldSpec{Pattern: "v"}, Measures: []collation.Measure{collation.Cardinality{Precision: p}}},
		}}
	c, err := s.Compile()
	if err != nil {
		return nil, err
	}
	return &storage.Store{Backend: bufmap.New(3, c.Size()), Collator: c}, nil
}

func rowOf(v []byte, q bool) collation.Row {
	r := collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte("a")}}}
	if q {
		r.Data = append(r.Data, collation.FV{F: []byte("q"), V: []byte("1")})
	}
	if v != nil {
		r.Data = append(r.Data, collation.FV{F: []byte("v"), V: v})
	}
	return r
}

func uniq(st *storage.Store) (float64, error) { return uniqOf(st, "v") }

func uniqOf(st *storage.Store, f string) (float64, error) {
	res, err := st.Read(context.Background(), collation.Query{Criteria: collation.FVList{{F: []byte("k"), V: []byte("a")}},
		FieldMeasures: []collation.FM{{F: []byte(f), M: [][]byte{[]byte("uniquecount")}}}})
	if err != nil {
		return 0, err
	}
	if len(res.FieldMeasureValues) != 1 {
		return 0, fmt.Errorf("answers: %v", res.FieldMeasureValues)
	}
	return res.FieldMeasureValues[0].V.(float64), nil
}
