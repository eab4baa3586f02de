package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strconv"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
)

// Measures that refuse some observations, or to be read: the observation must
// then be refused as a whole, and the query fail.

var errPicky = errors.New("picky")

// noneg refuses numbers below zero; it adds up the others.
type noneg struct{}

func (noneg) Size() int    { return 8 }
func (noneg) Name() string { return "noneg" }
func (noneg) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if v < 0 {
			return errPicky
		}
		f := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		binary.LittleEndian.PutUint64(buf, math.Float64bits(f+v))
		return nil
	}
}
func (noneg) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
	}
}

// brief refuses texts of more than two bytes; it keeps the others' lengths.
type brief struct{}

func (brief) Size() int    { return 2 }
func (brief) Name() string { return "brief" }
func (brief) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		if len(v) > 2 {
			return errPicky
		}
		buf[0] = buf[0]*3 + byte(len(v))
		return nil
	}
}
func (brief) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) { return float64(buf[0]), nil }
}

// unborn cannot be initialised.
type unborn struct{}

func (unborn) Size() int             { return 1 }
func (unborn) Name() string          { return "unborn" }
func (unborn) Init(buf []byte) error { return errPicky }
func (unborn) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { return nil }
}

// mute cannot be read after an odd number of its values, as a number; muteText as a text.
type mute struct{}

func (mute) Size() int    { return 1 }
func (mute) Name() string { return "mute" }
func (mute) ContWriter() collation.ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { buf[0]++; return nil }
}
func (mute) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		if buf[0]%2 == 1 {
			return 0, errPicky
		}
		return float64(buf[0]), nil
	}
}

type muteText struct{ mute }

func (muteText) Name() string    { return "mutetext" }
func (muteText) ContReader() int { return 0 }
func (muteText) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) {
		if buf[0]%2 == 1 {
			return nil, errPicky
		}
		return []byte{'0' + buf[0]}, nil
	}
}

// twoRows refuses every row after two, unborn rows all.
type twoRows struct{}

func (twoRows) Size() int    { return 1 }
func (twoRows) Name() string { return "tworows" }
func (twoRows) RowWriter() collation.RowWriterFunc {
	return func(buf []byte, init bool) error {
		if init {
			buf[0] = 0
		}
		if buf[0] == 2 {
			return errPicky
		}
		buf[0]++
		return nil
	}
}

// picky is a measure to be inserted somewhere.
type picky struct {
	name string
	m    collation.Measure
	rec  collation.RowMeasure
	no   func(v string, accepted int) bool // whether a value of its field (a row when rec) is refused
	mute bool
}

var pickies = []picky{
	{"noneg", noneg{}, nil, func(v string, _ int) bool { f, _ := strconv.ParseFloat(v, 64); return f < 0 }, false},
	{"brief", brief{}, nil, func(v string, _ int) bool { return len(v) > 2 }, false},
	{"unborn", unborn{}, nil, nil, false},
	{"mute", mute{}, nil, nil, true},
	{"mutetext", muteText{}, nil, nil, true},
	{"tworows", nil, twoRows{}, func(_ string, n int) bool { return n >= 2 }, false},
}

func c08Refusals(w *vlib.W, hs [][]int) {
	pool := []int{0, 1, 2, 3, 4, 5, 6}
	for i := builtin; i < len(measAll); i++ {
		pool = append(pool, i)
	}
	n := 1
	if w.Thorough {
		n = 2
	}
	orders(len(pool), n, func(s []int) {
		a := make([]int, len(s))
		for i, v := range s {
			a[i] = pool[v]
		}
		for _, y := range []int{1, 4, builtin, builtin + 1} {
			for pi := range pickies {
				for f := 0; f < 2; f++ {
					for at := 0; at <= len(a) && (f == 0 || at <= 1); at++ {
						p, f, at, y := &pickies[pi], f, at, y
						l := layout{rec: 1, recs: []int{1}, fields: []fs{{"x", a}, {"y", []int{y}}}}
						w.Case(fmt.Sprintf("picky %s in %v: field %d place %d", p.name, l, f, at), func() error { return c08Refuse(w, l, p, f, at, hs) })
					}
				}
			}
		}
	})
}

func c08Refuse(w *vlib.W, l layout, p *picky, f, at int, hs [][]int) error {
	s := l.schema()
	if p.rec != nil {
		if at > 1 || f > 0 {
			at = 2
		}
		rs := append([]collation.RowMeasure{}, s.RecordMeasures[:at]...)
		s.RecordMeasures = append(append(rs, p.rec), s.RecordMeasures[at:]...)
	} else {
		ms := append([]collation.Measure{}, s.Measures[f].Measures[:at]...)
		s.Measures[f].Measures = append(append(ms, p.m), s.Measures[f].Measures[at:]...)
	}
	c, err := s.Compile()
	if err != nil {
		return fmt.Errorf("rejected: %v", err)
	}
	name := string(l.fields[f].f)
	ws := l.wants()
	for _, h := range hs {
		st := &storage.Store{Collator: c, Backend: bufmap.New(31, c.Size())}
		// the same by hand, with guards
		kept := newRecord(c, 0xff)
		var acc []int
		told := 0 // values told to the picky measure
		for _, i := range h {
			no := p.name == "unborn"
			vals := 0
			if p.rec != nil {
				no = p.no("", len(acc))
			} else {
				for _, fv := range c08Rows[i].Data {
					if string(fv.F) == name {
						no = no || p.no != nil && p.no(string(fv.V), len(acc))
						vals++
					}
				}
			}
			next := newRecord(c, 0xff)
			copy(next.all, kept.all)
			next.used = kept.used
			err := next.update(c08Rows[i])
			serr := st.Write(ctx, c08Rows[i])
			if g := next.guards(); g != nil {
				return fmt.Errorf("rows %v: %v", h, g)
			}
			if no {
				if err == nil || serr == nil {
					return fmt.Errorf("rows %v: a measure refuses row %d but the observation is not refused (%v, %v)", h, i, err, serr)
				}
				continue
			}
			if err != nil || serr != nil {
				return fmt.Errorf("rows %v: row %d: %v, %v", h, i, err, serr)
			}
			kept = next
			acc = append(acc, i)
			told += vals
		}
		w.Eval(1)
		w.NT(1)
		sr, err := st.Read(ctx, query(nil, ws))
		if err != nil {
			return fmt.Errorf("rows %v: query: %v", h, err)
		}
		if len(acc) == 0 {
			if len(sr.FieldMeasureValues) != 0 {
				return fmt.Errorf("rows %v were all refused but the query is answered %v", h, sr)
			}
			continue
		}
		got, err := kept.read(ws)
		if err != nil {
			return fmt.Errorf("rows %v: %v", h, err)
		}
		for i, q := range ws {
			v, err := c08Alone(l, acc, q)
			if err != nil {
				return err
			}
			if !sameFloat(v, got[i]) {
				return fmt.Errorf("rows %v, of which %v are not refused: %s(%s) is %v, alone %v", h, acc, q.m, q.f, got[i], v)
			}
			found := 0
			for _, r := range sr.FieldMeasureValues {
				if string(r.F) == q.f && string(r.M) == q.m {
					found++
					x, ok := r.V.(float64)
					if t, is := r.V.([]byte); is {
						x, ok = textNumber(t), true
					}
					if !ok || !sameFloat(x, v) {
						return fmt.Errorf("rows %v, of which %v are not refused: the store answers %s(%s) with %v, alone %v", h, acc, q.m, q.f, r.V, v)
					}
				}
			}
			if found != 1 {
				return fmt.Errorf("rows %v: the store answers %s(%s) %d times", h, q.m, q.f, found)
			}
		}
		if p.mute {
			for k := 0; k <= len(ws); k++ {
				ask := append(append(append([]want{}, ws[:k]...), want{name, p.m.Name()}), ws[k:]...)
				q := query(nil, ask)
				_, err := c.Read(q.FieldMeasures, kept.buf())
				_, serr := st.Read(ctx, q)
				if (err != nil) != (told%2 == 1) || (serr != nil) != (told%2 == 1) {
					return fmt.Errorf("rows %v: a measure that cannot be read (%v) is read with errors %v, %v", h, told%2 == 1, err, serr)
				}
			}
		}
	}
	return nil
}

// c08Alone is what the measure that answers q reports alone.
func c08Alone(l layout, h []int, q want) (float64, error) {
	a := layout{rec: 1}
	if q.f == "*" {
		for _, m := range l.recs {
			if recAll[m].m.Name() == q.m {
				a = layout{recs: []int{m}}
			}
		}
	} else {
		for _, f := range l.fields {
			for _, m := range f.ms {
				if f.f == q.f && measAll[m].m.Name() == q.m {
					a = layout{fields: []fs{{f.f, []int{m}}}}
				}
			}
		}
	}
	return single(a.String(), a, h, q)
}
