package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
)

// Measures that the package does not bring but its interfaces allow: every
// combination of input and output, odd sizes, non-zero states of nothing
// observed, and measures that cannot be read.

// lastText keeps the last value of a field, cut at 4 bytes.
type lastText struct{}

func (lastText) Size() int    { return 5 }
func (lastText) Name() string { return "last" }
func (lastText) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		if len(buf) != 5 {
			return fmt.Errorf("last: %d bytes", len(buf))
		}
		if len(v) > 4 {
			v = v[:4]
		}
		buf[0] = byte(len(v))
		copy(buf[1:], v)
		return nil
	}
}
func (lastText) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		if len(buf) != 5 || buf[0] > 4 {
			return nil, fmt.Errorf("last: bad state %x", buf)
		}
		return append([]byte{}, buf[1:1+buf[0]]...), nil
	}
}

// letters adds up the bytes of a field's values; starts from 1000.
type letters struct{}

func (letters) Size() int    { return 3 }
func (letters) Name() string { return "letters" }
func (letters) Init(buf []byte) error {
	if len(buf) != 3 {
		return fmt.Errorf("letters: %d bytes to start with", len(buf))
	}
	buf[0], buf[1], buf[2] = 1000&0xff, 1000>>8, 0x5a
	return nil
}
func (letters) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		if len(buf) != 3 || buf[2] != 0x5a {
			return fmt.Errorf("letters: bad state %x", buf)
		}
		s := binary.LittleEndian.Uint16(buf)
		for _, c := range v {
			s += uint16(c)
		}
		binary.LittleEndian.PutUint16(buf, s)
		return nil
	}
}
func (letters) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		if len(buf) != 3 || buf[2] != 0x5a {
			return 0, fmt.Errorf("letters: bad state %x", buf)
		}
		return float64(binary.LittleEndian.Uint16(buf)), nil
	}
}

// show adds up numbers and reports them as text.
type show struct{}

func (show) Size() int    { return 9 }
func (show) Name() string { return "show" }
func (show) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if len(buf) != 9 {
			return fmt.Errorf("show: %d bytes", len(buf))
		}
		f := math.Float64frombits(binary.LittleEndian.Uint64(buf[1:]))
		if init {
			f = 0
		}
		buf[0]++
		binary.LittleEndian.PutUint64(buf[1:], math.Float64bits(f+v))
		return nil
	}
}
func (show) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		f := math.Float64frombits(binary.LittleEndian.Uint64(buf[1:9]))
		return []byte(strconv.Itoa(int(buf[0])) + ":" + strconv.FormatFloat(f, 'g', -1, 64)), nil
	}
}

// spread is the difference of the biggest and the smallest number, -1 at first.
type spread struct{}

func (spread) Size() int    { return 17 }
func (spread) Name() string { return "spread" }
func (spread) Init(buf []byte) error {
	for i := range buf {
		buf[i] = 0xc3
	}
	return nil
}
func (spread) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if len(buf) != 17 {
			return fmt.Errorf("spread: %d bytes", len(buf))
		}
		lo, hi := v, v
		switch buf[0] {
		case 1:
			lo = math.Min(lo, math.Float64frombits(binary.LittleEndian.Uint64(buf[1:])))
			hi = math.Max(hi, math.Float64frombits(binary.LittleEndian.Uint64(buf[9:])))
		case 0xc3:
		default:
			return fmt.Errorf("spread: bad state %x", buf)
		}
		buf[0] = 1
		binary.LittleEndian.PutUint64(buf[1:], math.Float64bits(lo))
		binary.LittleEndian.PutUint64(buf[9:], math.Float64bits(hi))
		return nil
	}
}
func (spread) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		if buf[0] != 1 {
			if buf[0] != 0xc3 {
				return 0, fmt.Errorf("spread: bad state %x", buf)
			}
			return -1, nil
		}
		return math.Float64frombits(binary.LittleEndian.Uint64(buf[9:])) - math.Float64frombits(binary.LittleEndian.Uint64(buf[1:])), nil
	}
}

// sink and dsink fill their bytes and report nothing.
type sink struct{}

func (sink) Size() int    { return 6 }
func (sink) Name() string { return "sink" }
func (sink) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { return fillAll(buf, 6, 0xee) }
}

type dsink struct{}

func (dsink) Size() int    { return 7 }
func (dsink) Name() string { return "dsink" }
func (dsink) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error { return fillAll(buf, 7, 0xdd) }
}

func fillAll(buf []byte, n int, c byte) error {
	if len(buf) != n {
		return fmt.Errorf("%d bytes instead of %d", len(buf), n)
	}
	for i := range buf {
		buf[i] = c
	}
	return nil
}

// nothing needs no bytes.
type nothing struct{}

func (nothing) Size() int    { return 0 }
func (nothing) Name() string { return "nothing" }
func (nothing) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { return nil }
}
func (nothing) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return 42, nil }
}

// rowMarks writes a mark per row and reports the marks.
type rowMarks struct{}

func (rowMarks) Size() int    { return 3 }
func (rowMarks) Name() string { return "marks" }
func (rowMarks) Init(buf []byte) error {
	copy(buf, "...")
	return nil
}
func (rowMarks) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error {
		if len(buf) != 3 {
			return fmt.Errorf("marks: %d bytes", len(buf))
		}
		buf[0], buf[1], buf[2] = buf[1], buf[2], buf[2]%64+60
		return nil
	}
}
func (rowMarks) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) { return append([]byte{}, buf...), nil }
}

// rowOdd is 5 at the first row and 2 more at each that follows.
type rowOdd struct{}

func (rowOdd) Size() int    { return 1 }
func (rowOdd) Name() string { return "odd" }
func (rowOdd) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error {
		if init {
			buf[0] = 5
			return nil
		}
		buf[0] += 2
		return nil
	}
}
func (rowOdd) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return float64(buf[0]), nil }
}

// rowSink reports nothing.
type rowSink struct{}

func (rowSink) Size() int    { return 2 }
func (rowSink) Name() string { return "rsink" }
func (rowSink) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error { return fillAll(buf, 2, 0xbb) }
}

// rowText counts rows and reports how many there are as text.
type rowText struct{}

func (rowText) Size() int    { return 2 }
func (rowText) Name() string { return "rows" }
func (rowText) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error {
		if len(buf) != 2 {
			return fmt.Errorf("rows: %d bytes", len(buf))
		}
		binary.BigEndian.PutUint16(buf, binary.BigEndian.Uint16(buf)+1)
		return nil
	}
}
func (rowText) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		return strconv.AppendInt([]byte("r"), int64(binary.BigEndian.Uint16(buf)), 10), nil
	}
}

var recAll = []struct {
	code string
	m    collation.RowMeasure
}{{"#", collation.Count{}}, {"M", rowMarks{}}, {"O", rowOdd{}}, {"S", rowSink{}}, {"T", rowText{}}}

func init() {
	measAll = append(measAll, []meas{
		{"L", lastText{}}, {"A", letters{}}, {"W", show{}}, {"P", spread{}}, {"k", sink{}}, {"d", dsink{}}, {"0", nothing{}},
	}...)
}

// outputs says whether a measure can be read at all.
func outputs(m interface{}) bool {
	_, c := m.(collation.ContinuousOutput)
	_, d := m.(collation.DiscreteOutput)
	return c || d
}

func isText(name string) bool {
	return name == "last" || name == "show" || name == "marks" || name == "rows"
}

// textNumber makes a number of a text, different for all texts of up to 7 bytes.
func textNumber(t []byte) float64 {
	n := 0.0
	for _, c := range t {
		n = n*257 + float64(c) + 1
	}
	return n
}

func c08Custom(w *vlib.W, h1, h2, long [][]int) {
	// the measures to combine: all custom ones, and some of the package's
	pool := []int{0, 1, 4, 6}
	for i := builtin; i < len(measAll); i++ {
		pool = append(pool, i)
	}
	sel := func(n int) (out [][]int) {
		orders(len(pool), n, func(s []int) {
			o := make([]int, len(s))
			for i, v := range s {
				o[i] = pool[v]
			}
			out = append(out, o)
		})
		return
	}
	var recs [][]int
	for n := 0; n <= 2; n++ {
		vlib.Seqs(len(recAll), n, func(s []int) {
			for i := range s {
				for j := 0; j < i; j++ {
					if s[i] == s[j] {
						return
					}
				}
			}
			recs = append(recs, append([]int(nil), s...))
		})
	}
	hasCustom := func(s []int) bool {
		for _, m := range s {
			if m >= builtin {
				return true
			}
		}
		return false
	}
	hs := append(append([][]int{}, h1...), long...)
	// the measures of a field given in two or three places
	name := func(m int) string { return measAll[m].m.Name() }
	all := make([]int, len(measAll))
	for i := range all {
		all[i] = i
	}
	for _, i := range all {
		for _, j := range all {
			for k := -1; k < len(all); k++ {
				if name(i) == name(j) || k >= 0 && (name(k) == name(i) || name(k) == name(j)) {
					continue
				}
				for o := 0; o < 3; o++ {
					f := []fs{{"x", []int{i}}, {"x", []int{j}}}
					switch {
					case k < 0 && o == 1:
						f = []fs{{"x", []int{i}}, {"y", []int{j, i}}, {"x", []int{j}}}
					case k < 0 && o == 2:
						f = []fs{{"x", []int{i}}, {"x", nil}, {"x", []int{j}}}
					case k >= 0 && o == 0:
						f = append(f, fs{"x", []int{k}})
					case k >= 0 && o == 1:
						f = []fs{{"x", []int{i, k}}, {"x", []int{j}}}
					case k >= 0 && o == 2:
						f = []fs{{"x", []int{i}}, {"x", []int{j, k}}}
					}
					l := layout{recs: []int{0}, fields: f}
					w.Case("in several places "+l.String(), func() error { return c08Check(w, l, hs, 0x7f) })
				}
			}
		}
	}
	ha := append(append([][]int{}, h2...), long...)
	n := 3
	if w.Thorough {
		n = 4
	}
	small := sel(1)
	for _, a := range sel(n) {
		for _, rec := range recs {
			for _, c := range small {
				if !hasCustom(a) && !hasCustom(c) && len(rec) == 0 {
					continue
				}
				for o := 0; o < 2; o++ {
					f := []fs{{"x", a}, {"y", c}}
					if o == 1 {
						f = []fs{{"y", c}, {"x", a}}
					}
					l := layout{recs: rec, fields: f}
					if len(l.wants()) == 0 {
						continue
					}
					w.Case("own measures "+l.String(), func() error {
						if len(a) <= 1 {
							if err := c08Check(w, l, ha, 0xff); err != nil {
								return fmt.Errorf("new record with buffer full of 0xff: %v", err)
							}
							return c08Check(w, l, ha, 0)
						}
						return c08Check(w, l, hs, 0x7f)
					})
				}
			}
		}
	}
}
