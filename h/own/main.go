package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/zz/vlib"
)

// inst is a value under test. op does operation i with memory from m; obs is
// everything that can be observed of it; kept renders the results that
// operations have given out so far.
type inst interface {
	op(i int, m *mem) error
	obs(m *mem) string
	kept() string
}

type keeper struct {
	renders []func() string
}

func (k *keeper) keep(f func() string) { k.renders = append(k.renders, f) }

func (k *keeper) kept() string {
	var s []string
	for _, f := range k.renders {
		s = append(s, f())
	}
	return strings.Join(s, "|")
}

type kind struct {
	name  string
	ops   []string
	depth int // of sequences over two values (quick)
	solo  int // of sequences over one value
	mk    func() inst
}

var bg = context.Background()

func main() {
	vlib.Main(func(w *vlib.W) {
		for _, k := range kinds() {
			explore(w, k)
		}
		parses(w)
		schemas(w)
		appends(w)
		slices(w)
		resets(w)
		keyed(w)
	})
}

// reference is what a value alone shows after operations, with fresh memory.
type reference struct {
	k    kind
	memo map[string]string
}

func (r *reference) get(ops []int) (string, error) {
	key := fmt.Sprint(ops)
	if s, ok := r.memo[key]; ok {
		return s, nil
	}
	v := r.k.mk()
	for _, o := range ops {
		if err := v.op(o, &mem{}); err != nil {
			return "", err
		}
	}
	s := v.obs(&mem{}) + "\n" + v.kept()
	r.memo[key] = s
	return s, nil
}

func explore(w *vlib.W, k kind) {
	ref := &reference{k, map[string]string{}}
	n := len(k.ops)
	add := 0
	if w.Thorough {
		add = 1
	}
	run := func(values int, s []int) {
		steps := append([]int(nil), s...)
		for _, strict := range []bool{true, false} {
			strict := strict
			id := fmt.Sprintf("%s: values=%d reuse=%v ops=%v", k.name, values, strict, steps)
			w.Case(id, func() error {
				vs := make([]inst, values)
				done := make([][]int, values)
				snap := make([]string, values)
				for i := range vs {
					vs[i] = k.mk()
				}
				m := &mem{strict: strict}
				for _, st := range steps {
					i, o := st/n, st%n
					if err := vs[i].op(o, m); err != nil {
						return fmt.Errorf("%s of value %d: %v", k.ops[o], i, err)
					}
					done[i] = append(done[i], o)
					if strict {
						// results may share memory with the inputs: look before it is reused
						snap[i] = vs[i].kept()
						if f, ok := vs[i].(interface{ freeze() }); ok {
							f.freeze()
						}
						if err := m.done(); err != nil {
							return fmt.Errorf("%s of value %d: %v", k.ops[o], i, err)
						}
					}
					for j := range vs {
						want, err := ref.get(done[j])
						if err != nil {
							return err
						}
						got := vs[j].obs(m) + "\n" + vs[j].kept()
						if strict {
							if err := m.done(); err != nil {
								return fmt.Errorf("looking at value %d: %v", j, err)
							}
						}
						w.Eval(1)
						if got != want {
							return fmt.Errorf("after %s of value %d (memory reused: %v) value %d shows\n%s\nbut alone and with fresh memory\n%s", k.ops[o], i, strict, j, got, want)
						}
					}
				}
				if len(steps) > 1 {
					w.NT(1)
				}
				return nil
			})
		}
	}
	vlib.SeqsUpTo(n, k.solo+add, func(s []int) { run(1, s) })
	for l := 1; l <= k.depth+add; l++ {
		vlib.Seqs(2*n, l, func(s []int) { run(2, s) })
	}
}

// --- a collation with its store

type store struct {
	keeper
	st     storage.Store
	frozen []string
}

func newStore(ms bool) inst {
	sch := collation.Schema{Name: "n", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			{Field: collation.FieldSpec{Pattern: "a"}, Measures: []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}}},
			{Field: collation.FieldSpec{Pattern: "b"}, Measures: []collation.Measure{collation.Cardinality{Precision: 4}}},
		}}
	if ms {
		sch.Keys = append(sch.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: "j"}})
	}
	c, err := sch.Compile()
	if err != nil {
		panic(err)
	}
	return &store{st: storage.Store{Backend: bufmap.New(31, c.Size()), Collator: c}}
}

var all = [][]string{{"*", "count"}, {"a", "sum", "max", "min", "count", "mean", "var"}, {"b", "uniquecount"}}

var rows = [][]string{
	{"k", "x", "a", "1.5", "b", "u"},
	{"b", "v", "a", "-3", "j", "z", "k", "x"},
	{"k", "y", "j", "z", "a", "7", "b", "u"},
	{"j", "w", "k", "x", "q", "none"},
	{"k", "x", "j", "z", "a", "nonsense"},
}

func (s *store) op(i int, m *mem) error {
	if i < len(rows) {
		s.st.Write(bg, collation.Row{Data: m.fvs(rows[i]...)})
		return nil
	}
	q := collation.Query{FieldMeasures: m.fms(all...), Criteria: m.fvs("j", "z", "k", "x")}
	res, err := s.st.Read(bg, q)
	if err != nil {
		return err
	}
	s.keep(func() string { return render(res) })
	return nil
}

// freeze turns the results given out into text.
func (k *keeper) freeze() {
	for i := range k.renders {
		t := k.renders[i]()
		k.renders[i] = func() string { return t }
	}
}

func render(res collation.Result) string {
	var b strings.Builder
	for _, f := range res.FieldMeasureValues {
		b.WriteString(f.String() + " ")
	}
	return b.String()
}

func (s *store) obs(m *mem) string {
	var out []string
	for _, k := range []string{"x", "y"} {
		for _, j := range []string{"z", "w"} {
			res, err := s.st.Read(bg, collation.Query{FieldMeasures: m.fms(all...), Criteria: m.fvs("k", k, "j", j)})
			out = append(out, fmt.Sprint(render(res), err))
			if err := m.done(); err != nil {
				out = append(out, err.Error())
			}
		}
	}
	return strings.Join(out, "\n")
}

// --- stores of records and cells

type records struct {
	keeper
	m *bufmap.Map
}

func (r *records) op(i int, m *mem) error {
	switch {
	case i < 2:
		return r.m.Update(uint64(i+1), func(d []byte, init bool) error {
			d[0]++
			d[len(d)-1] += byte(i + 3)
			return nil
		})
	case i < 4:
		b := m.buf(6)
		found := r.m.Get(uint64(i-1), b)
		if !found {
			return nil
		}
		r.keep(func() string { return fmt.Sprintf("%x", b) })
	default:
		r.m.Update(1, func(d []byte, init bool) error { d[1] = 9; return io.EOF })
	}
	return nil
}

func (r *records) obs(m *mem) string {
	s := ""
	for k := uint64(1); k < 4; k++ {
		b := make([]byte, 6)
		s += fmt.Sprintf("%v %x;", r.m.Get(k, b), b)
	}
	return s
}

type cell struct {
	keeper
	c *seqlock.Seqlock
}

func (c *cell) op(i int, m *mem) error {
	switch i {
	case 0, 1:
		var d [1024]byte
		copy(d[:], fmt.Sprintf("value %d", i))
		d[1023] = byte(i + 1)
		c.c.Put(d)
		d[0] = 0xff
	case 2:
		return c.c.Update(func(d []byte) error { d[3]++; d[1000] += 2; return nil })
	case 3:
		d := c.c.Get()
		c.keep(func() string { return fmt.Sprintf("%.12x %x", d[:12], d[1000:]) })
	case 4:
		d := c.c.Get()
		d[0], d[1023] = 0xee, 0xee
	case 5:
		c.c.Update(func(d []byte) error { d[3] = 77; return io.EOF })
	}
	return nil
}

func (c *cell) obs(m *mem) string { d := c.c.Get(); return fmt.Sprintf("%x", d[:]) }

type counters struct {
	keeper
	m *incmap.Map
}

func (c *counters) op(i int, m *mem) error {
	c.m.Inc(uint64(i+1), uint64(10*i+1))
	return nil
}

func (c *counters) obs(m *mem) string {
	s := ""
	for k := uint64(0); k < 5; k++ {
		v, ok := c.m.Get(k)
		s += fmt.Sprint(v, ok, ";")
	}
	return s
}

// --- sketches

func saved(v io.WriterTo) string {
	var b bytes.Buffer
	_, err := v.WriteTo(&b)
	return fmt.Sprintf("%x %v", b.Bytes(), err)
}

// reload reads what v writes back into it through readers of several kinds,
// whose memory is then used for something else.
func reload(v interface {
	io.WriterTo
	io.ReaderFrom
}, how int, m *mem) error {
	var b bytes.Buffer
	v.WriteTo(&b)
	switch how {
	case 0:
		_, err := v.ReadFrom(bytes.NewReader(m.bytes(b.String())))
		return err
	case 1:
		_, err := v.ReadFrom(bytes.NewBuffer(m.bytes(b.String())))
		return err
	case 2:
		_, err := v.ReadFrom(&b)
		b.Reset()
		b.Write(bytes.Repeat([]byte{0x3C}, 40))
		return err
	default:
		r := bufio.NewReader(bytes.NewReader(m.bytes(b.String())))
		_, err := v.ReadFrom(r)
		r.Reset(bytes.NewReader(bytes.Repeat([]byte{0x3C}, 4096)))
		r.Peek(4096)
		return err
	}
}

type counter struct {
	keeper
	c hll.Counter
	b []byte
}

var items = []string{"", "a", "bc", "the item that is the longest of them", "d\x00e"}

func (c *counter) op(i int, m *mem) error {
	switch {
	case i < len(items):
		c.c.Add(m.bytes(items[i]))
	case i == len(items):
		c.c.Reset()
	case i == len(items)+1: // saved and loaded, the saved form is then reused
		return reload(&c.c, 0, m)
	case i == len(items)+2:
		var b bytes.Buffer
		c.c.WriteTo(&b)
		c.keep(func() string { return fmt.Sprintf("%x", b.Bytes()) })
	case i == len(items)+3: // continues in a buffer, between other data
		var b bytes.Buffer
		c.c.WriteTo(&b)
		c.b = bytes.Repeat([]byte{0xCC}, b.Len()+20)
		copy(c.b[:], b.Bytes())
		n := b.Len()
		buf := c.b
		var err error
		if c.c, err = hll.WithBytes(buf); err != nil {
			return err
		}
		c.keep(func() string { return fmt.Sprintf("%x", buf[n:]) })
	default:
		return reload(&c.c, i-len(items)-3, m)
	}
	return nil
}

func (c *counter) obs(m *mem) string { return fmt.Sprint(saved(&c.c), c.c.Count(), c.c.Len()) }

type filter struct {
	keeper
	f bloom.Bloom
}

func (f *filter) op(i int, m *mem) error {
	switch {
	case i < len(items):
		f.f.Add(m.bytes(items[i]))
	case i == len(items):
		f.f.Reset()
	case i == len(items)+1:
		return reload(&f.f, 0, m)
	case i == len(items)+2:
		x := f.f.Has(m.bytes("a"))
		f.keep(func() string { return fmt.Sprint(x) })
	case i == len(items)+3:
		var b bytes.Buffer
		f.f.WriteTo(&b)
		buf := append(append([]byte(nil), b.Bytes()...), bytes.Repeat([]byte{0xCC}, 20)...)
		n := b.Len()
		var err error
		if f.f, err = bloom.WithBytes(buf); err != nil {
			return err
		}
		f.keep(func() string { return fmt.Sprintf("%x", buf[n:]) })
	default:
		return reload(&f.f, i-len(items)-3, m)
	}
	return nil
}

func (f *filter) obs(m *mem) string {
	s := saved(&f.f)
	for _, i := range items {
		s += fmt.Sprint(f.f.Has(m.bytes(i)))
		if err := m.done(); err != nil {
			s += err.Error()
		}
	}
	return fmt.Sprint(s, f.f.Count(), f.f.ErrorRate(), f.f.Len())
}

type buckets struct {
	keeper
	b bitbucket.BitBucket
}

func (b *buckets) op(i int, m *mem) error {
	switch i {
	case 0:
		b.b.Set(0, 5)
	case 1:
		b.b.Set(4, 3)
	case 2:
		b.b.IncN(2, 2)
	case 3:
		b.b.Reset()
	case 4:
		return reload(&b.b, 0, m)
	case 5:
		var o bytes.Buffer
		b.b.WriteTo(&o)
		b.keep(func() string { return fmt.Sprintf("%x", o.Bytes()) })
	case 6:
		var o bytes.Buffer
		b.b.WriteTo(&o)
		buf := append(append([]byte(nil), o.Bytes()...), bytes.Repeat([]byte{0xCC}, 20)...)
		n := o.Len()
		var err error
		if b.b, err = bitbucket.WithBytes(buf); err != nil {
			return err
		}
		b.keep(func() string { return fmt.Sprintf("%x", buf[n:]) })
	default:
		return reload(&b.b, i-6, m)
	}
	return nil
}

func (b *buckets) obs(m *mem) string {
	s := saved(&b.b)
	for i := 0; i < b.b.Count(); i++ {
		s += fmt.Sprint(" ", b.b.Get(i))
	}
	return fmt.Sprint(s, b.b.CountN(0), b.b.Len())
}

type summary struct {
	keeper
	s stat64.Summary
}

func (s *summary) op(i int, m *mem) error {
	switch i {
	case 0:
		s.s.Update(2.5)
	case 1:
		s.s.UpdateMulti(m.floats([]float64{3, -1, 2, -1}))
	case 2:
		s.s.UpdateMulti(m.floats(nil))
	case 3:
		return s.s.Reset()
	case 4:
		return stat64.Reset(s.s)
	case 5:
		buf := append(append([]byte(nil), s.s[:stat64.Len()]...), bytes.Repeat([]byte{0xCC}, 20)...)
		s.s = stat64.WithBytes(buf)
		n := stat64.Len()
		s.keep(func() string { return fmt.Sprintf("%x", buf[n:]) })
	}
	return nil
}

func (s *summary) obs(m *mem) string {
	return fmt.Sprint(s.s.Count(), s.s.Sum(), s.s.Mean(), s.s.Variance(), s.s.Len())
}

// --- hashers

type hasher interface {
	io.Writer
	Sum64() uint64
	Sum([]byte) []byte
	Reset()
	WriteString(string) (int, error)
	WriteUint64(uint64)
}

type hash struct {
	keeper
	h hasher
}

func (h *hash) op(i int, m *mem) error {
	switch i {
	case 0:
		h.h.Write(m.bytes("some data"))
	case 1:
		h.h.Write(m.bytes("x"))
	case 2:
		h.h.WriteString("str")
	case 3:
		h.h.WriteUint64(0x0102030405060708)
	case 4:
		s := h.h.Sum(nil)
		h.keep(func() string { return fmt.Sprintf("%x", s) })
	case 5:
		b := make([]byte, 3, 64)
		copy(b, "abc")
		s := h.h.Sum(b)
		b2 := h.h.Sum(s[:len(s):len(s)])
		h.keep(func() string { return fmt.Sprintf("%x %x", s, b2) })
	case 6:
		h.h.Reset()
	}
	return nil
}

func (h *hash) obs(m *mem) string { return fmt.Sprintf("%x %x", h.h.Sum64(), h.h.Sum(nil)) }

func kinds() []kind {
	sk := []string{"add ''", "add a", "add bc", "add long", "add d0e", "reset", "reload", "save", "adopt", "reload Buffer", "reload full Buffer", "reload bufio"}
	bl := append(append([]string(nil), sk[:7]...), "has", "adopt", "reload Buffer", "reload full Buffer", "reload bufio")
	st := []string{"write 0", "write 1", "write 2", "write 3", "write 4", "read"}
	hs := []string{"write data", "write x", "write str", "write uint", "sum", "sum onto", "reset"}
	return []kind{
		{"store", st, 4, 5, func() inst { return newStore(false) }},
		{"store of two keys", st, 3, 5, func() inst { return newStore(true) }},
		{"records", []string{"update 1", "update 2", "get 1", "get 2", "failing update"}, 4, 6, func() inst { return &records{m: bufmap.New(3, 6)} }},
		{"cell", []string{"put 0", "put 1", "update", "get", "get and write", "failing update"}, 3, 5, func() inst { return &cell{c: seqlock.New()} }},
		{"counters", []string{"inc 1", "inc 2", "inc 3"}, 5, 6, func() inst { return &counters{m: incmap.New(4)} }},
		{"unique counter", sk, 3, 4, func() inst { return &counter{c: hll.New(4)} }},
		{"bloom filter", bl, 3, 4, func() inst { return &filter{f: bloom.NewBits(37, 3)} }},
		{"sized bloom filter", bl, 3, 4, func() inst { return &filter{f: bloom.New(10, 0.1)} }},
		{"bit bucket", []string{"set 0", "set 4", "inc 2", "reset", "reload", "save", "adopt", "reload Buffer", "reload full Buffer", "reload bufio"}, 4, 5, func() inst { return &buckets{b: bitbucket.New(5, 3)} }},
		{"summary", []string{"update", "batch", "empty batch", "reset", "stat64.Reset", "adopt"}, 4, 5, func() inst { return &summary{s: stat64.New()} }},
		{"FNV-1 hash", hs, 4, 5, func() inst { return &hash{h: fnv.New64()} }},
		{"FNV-1a hash", hs, 4, 5, func() inst { return &hash{h: fnv.New64a()} }},
	}
}

// --- parsed queries

func show(q collation.Query) string {
	var b strings.Builder
	for _, f := range q.FieldMeasures {
		fmt.Fprintf(&b, "%q:%q ", f.F, f.M)
	}
	b.WriteString("where ")
	for _, c := range q.Criteria {
		fmt.Fprintf(&b, "%q=%q ", c.F, c.V)
	}
	return b.String()
}

// spoil overwrites everything a query holds.
func spoil(q collation.Query) {
	x := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = '#'
		}
	}
	for i := range q.FieldMeasures {
		x(q.FieldMeasures[i].F)
		for j := range q.FieldMeasures[i].M {
			x(q.FieldMeasures[i].M[j])
			q.FieldMeasures[i].M[j] = []byte("min")
		}
		q.FieldMeasures[i] = collation.FM{F: []byte("spoilt")}
	}
	for i := range q.Criteria {
		x(q.Criteria[i].F)
		x(q.Criteria[i].V)
		q.Criteria[i] = collation.FV{F: []byte("k"), V: []byte("spoilt")}
	}
}

// parses: every sequence of queries parsed one after another; each result is as
// on its own, stays so when the others are used, and when they are spoilt.
func parses(w *vlib.W) {
	qs := []string{
		"select sum(a) where k='x'",
		"select sum(a), max(a), count(*) where k='x' and j='y'",
		"SELECT  max(b),sum(a) ,min(b) WHERE k = 'x' j='' k='z'",
		"select sum(a) where k='y'",
		"select nothing where nothing",
		"no query",
	}
	want := make([]string, len(qs))
	for i, t := range qs {
		q, err := query.RoughParse(t)
		want[i] = fmt.Sprint(show(q), err)
	}
	depth := 4
	if w.Thorough {
		depth = 5
	}
	for l := 1; l <= depth; l++ {
		vlib.Seqs(len(qs), l, func(s []int) {
			s = append([]int(nil), s...)
			for mask := 0; mask < 1<<uint(l); mask++ {
				mask := mask
				w.Case(fmt.Sprintf("parse: %v spoilt=%b", s, mask), func() error {
					got := make([]collation.Query, l)
					errs := make([]error, l)
					for i, n := range s {
						got[i], errs[i] = query.RoughParse(qs[n])
						if mask>>uint(i)&1 == 1 {
							if t := fmt.Sprint(show(got[i]), errs[i]); t != want[n] {
								return fmt.Errorf("query %d, %q, is parsed as %s, and alone as %s", i, qs[n], t, want[n])
							}
							spoil(got[i])
						}
					}
					for i, n := range s {
						if mask>>uint(i)&1 == 0 {
							if t := fmt.Sprint(show(got[i]), errs[i]); t != want[n] {
								return fmt.Errorf("query %d, %q, was parsed as %s, and alone as %s", i, qs[n], t, want[n])
							}
						}
					}
					w.Eval(l)
					if l > 1 {
						w.NT(1)
					}
					return nil
				})
			}
		})
	}
}

// --- schemas

type change struct {
	name string
	do   func(s *collation.Schema)
}

// schemas: a schema is compiled, changed, compiled again, and so on; every
// collator made on the way goes on as it was defined.
func schemas(w *vlib.W) {
	mk := func() collation.Schema {
		return collation.Schema{Name: "n", Keys: append(make([]collation.KeySpec, 0, 8), collation.KeySpec{Field: collation.FieldSpec{Pattern: "k"}}),
			RecordMeasures: append(make([]collation.RowMeasure, 0, 8), collation.Count{}),
			Measures: append(make([]collation.MeasureSpec, 0, 8), collation.MeasureSpec{Field: collation.FieldSpec{Pattern: "a"},
				Measures: append(make([]collation.Measure, 0, 8), collation.Sum{}, collation.Max{})})}
	}
	changes := []change{
		{"nothing", func(s *collation.Schema) {}},
		{"other key", func(s *collation.Schema) { s.Keys[0].Field.Pattern = "j" }},
		{"further key", func(s *collation.Schema) {
			s.Keys = append(s.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: "j"}})
		}},
		{"other name", func(s *collation.Schema) { s.Name = "other" }},
		{"other measure", func(s *collation.Schema) { s.Measures[0].Measures[0] = collation.Min{} }},
		{"further measure", func(s *collation.Schema) {
			s.Measures[0].Measures = append(s.Measures[0].Measures, collation.Min{}, collation.Cardinality{Precision: 4})
		}},
		{"other field", func(s *collation.Schema) { s.Measures[0].Field.Pattern = "b" }},
		{"no record measures", func(s *collation.Schema) { s.RecordMeasures = s.RecordMeasures[:0] }},
		{"further field", func(s *collation.Schema) {
			s.Measures = append(s.Measures, collation.MeasureSpec{Field: collation.FieldSpec{Pattern: "b"}, Measures: []collation.Measure{collation.Mean{}}})
		}},
	}
	// behaviour of a collator: some rows, then everything is read
	behave := func(c collation.Collator) (string, error) {
		st := storage.Store{Backend: bufmap.New(40, c.Size()), Collator: c}
		for _, r := range [][]string{{"k", "x", "j", "y", "a", "3", "b", "4"}, {"k", "x", "a", "5", "b", "1"}, {"k", "z", "j", "y", "b", "2"}, {"j", "y", "a", "8"}} {
			if err := st.Write(bg, collation.Row{Data: (&mem{}).fvs(r...)}); err != nil {
				return "", err
			}
		}
		out := []string{c.Name(), fmt.Sprint(c.Size())}
		var ks []string
		for _, k := range c.Keys() {
			ks = append(ks, string(k))
		}
		sort.Strings(ks)
		out = append(out, strings.Join(ks, ","))
		fm := [][]string{{"*", "count"}, {"a", "sum", "max", "min", "uniquecount", "mean"}, {"b", "sum", "max", "min", "uniquecount", "mean"}}
		for _, cr := range [][]string{{"k", "x"}, {"k", "x", "j", "y"}, {"k", "z", "j", "y"}, {"j", "y"}, {"k", "q"}} {
			m := &mem{}
			res, err := st.Read(bg, collation.Query{FieldMeasures: m.fms(fm...), Criteria: m.fvs(cr...)})
			out = append(out, fmt.Sprint(cr, render(res), err))
		}
		return strings.Join(out, "\n"), nil
	}
	// fresh compiles the schema after some changes, made anew
	memo := map[string]string{}
	fresh := func(cs []int) (string, error) {
		key := fmt.Sprint(cs)
		if s, ok := memo[key]; ok {
			return s, nil
		}
		s := mk()
		for _, c := range cs {
			changes[c].do(&s)
		}
		c, err := s.Compile()
		if err != nil {
			return "", err
		}
		b, err := behave(c)
		if err == nil {
			memo[key] = b
		}
		return b, err
	}
	depth := 3
	if w.Thorough {
		depth = 4
	}
	vlib.SeqsUpTo(len(changes), depth, func(s []int) {
		s = append([]int(nil), s...)
		w.Case(fmt.Sprintf("schema: %v", s), func() error {
			sch := mk()
			var cs []collation.Collator
			var defs [][]int
			for i := 0; i <= len(s); i++ {
				c, err := sch.Compile()
				if err != nil {
					return err
				}
				cs, defs = append(cs, c), append(defs, s[:i])
				if i < len(s) {
					changes[s[i]].do(&sch)
				}
			}
			for pass := 0; pass < 2; pass++ {
				for i, c := range cs {
					got, err := behave(c)
					if err != nil {
						return err
					}
					want, err := fresh(defs[i])
					if err != nil {
						return err
					}
					w.Eval(1)
					if got != want {
						var names []string
						for _, n := range s {
							names = append(names, changes[n].name)
						}
						return fmt.Errorf("changes %q, compiled before each and at the end: collator %d behaves as\n%s\nbut its definition means\n%s", names, i, got, want)
					}
				}
			}
			if len(s) > 0 {
				w.NT(1)
			}
			return nil
		})
	})
}

// --- appending

// appends: Sum appends, whatever room there is.
func appends(w *vlib.W) {
	for _, name := range []string{"FNV-1", "FNV-1a"} {
		for n := 0; n <= 20; n++ {
			for room := 0; room <= 20; room++ {
				name, n, room := name, n, room
				w.Case(fmt.Sprintf("append: %s len=%d room=%d", name, n, room), func() error {
					var h hasher = fnv.New64()
					if name == "FNV-1a" {
						h = fnv.New64a()
					}
					h.Write([]byte("data"))
					sum := h.Sum(nil)
					back := bytes.Repeat([]byte{0x77}, n+room+16)
					for i := 0; i < n; i++ {
						back[i] = byte(i)
					}
					got := h.Sum(back[: n : n+room])
					w.Eval(1)
					w.NT(1)
					if len(got) != n+8 || !bytes.Equal(got[n:], sum) {
						return fmt.Errorf("Sum onto %d bytes is %x", n, got)
					}
					for i := 0; i < n; i++ {
						if got[i] != byte(i) || back[i] != byte(i) {
							return fmt.Errorf("Sum changed the bytes it was to append to: %x", got)
						}
					}
					for i := n + room; i < len(back); i++ {
						if back[i] != 0x77 {
							return fmt.Errorf("Sum wrote beyond the room there is: %x", back)
						}
					}
					return nil
				})
			}
		}
	}
}

// --- functions of slices

func slices(w *vlib.W) {
	vals := []float64{3, -1, 0.5, 3, 8}
	fns := []struct {
		name string
		f    func(m *mem, s []int) string
	}{
		{"Meanvar", func(m *mem, s []int) string { a, b := stats.Meanvar(m.floats(pick(vals, s))); return fmt.Sprint(a, b) }},
		{"Sum", func(m *mem, s []int) string { return fmt.Sprint(stats.Sum(m.floats(pick(vals, s)))) }},
		{"See", func(m *mem, s []int) string { return fmt.Sprint(stats.See(m.floats(pick(vals, s)), 1.5)) }},
		{"Sum64", func(m *mem, s []int) string { return fmt.Sprint(fnv.Sum64(m.bytes(fmt.Sprint(pick(vals, s))))) }},
		{"Sum64a", func(m *mem, s []int) string { return fmt.Sprint(fnv.Sum64a(m.bytes(fmt.Sprint(pick(vals, s))))) }},
		{"Row.KeyValue", func(m *mem, s []int) string {
			r := collation.Row{Data: m.fvs("a", fmt.Sprint(s), "b", "x", "c", fmt.Sprint(len(s)))}
			k, ok := r.KeyValue(m.names("b", "c", "a"))
			return fmt.Sprint(k, ok)
		}},
		{"Query.KeyValue", func(m *mem, s []int) string {
			q := collation.Query{Criteria: m.fvs("a", fmt.Sprint(s), "b", "x")}
			k, ok := q.KeyValue(m.names("b", "a"))
			return fmt.Sprint(k, ok)
		}},
	}
	for _, fn := range fns {
		fn := fn
		vlib.SeqsUpTo(len(vals), 5, func(s []int) {
			s = append([]int(nil), s...)
			w.Case(fmt.Sprintf("slice: %s %v", fn.name, s), func() error {
				want := fn.f(&mem{}, s)
				m := &mem{strict: true}
				got := fn.f(m, s)
				if err := m.done(); err != nil {
					return err
				}
				w.Eval(1)
				if len(s) > 1 {
					w.NT(1)
				}
				if got != want {
					return fmt.Errorf("%s, and %s with guards around the input", want, got)
				}
				return nil
			})
		})
	}
}

func pick(vals []float64, s []int) []float64 {
	var out []float64
	for _, i := range s {
		out = append(out, vals[i])
	}
	return out
}

// --- rows and queries used again

func resets(w *vlib.W) {
	lists := [][]string{{}, {"k", "x"}, {"k", "y", "a", "2"}, {"a", "1", "k", "x", "b", "u"}, {"b", "v"}}
	vlib.SeqsUpTo(len(lists), 4, func(s []int) {
		s = append([]int(nil), s...)
		w.Case(fmt.Sprintf("reset: %v", s), func() error {
			used, fresh := newStore(false).(*store), newStore(false).(*store)
			var row collation.Row
			var q collation.Query
			for _, n := range s {
				l := (&mem{}).fvs(lists[n]...)
				row.Reset()
				if len(row.Data) != 0 || !row.ReceiveTime.IsZero() || !row.DataTime.IsZero() {
					return fmt.Errorf("a row holds %v after Reset", row)
				}
				row.Data = append(row.Data, l...)
				used.st.Write(bg, row)
				fresh.st.Write(bg, collation.Row{Data: l})
				q.Reset()
				if len(q.Criteria) != 0 || len(q.FieldMeasures) != 0 {
					return fmt.Errorf("a query holds %s after Reset", show(q))
				}
				q.Criteria = append(q.Criteria, l...)
				q.FieldMeasures = append(q.FieldMeasures, (&mem{}).fms(all...)...)
				a, err1 := used.st.Read(bg, q)
				b, err2 := fresh.st.Read(bg, collation.Query{Criteria: l, FieldMeasures: (&mem{}).fms(all...)})
				w.Eval(1)
				if render(a) != render(b) || fmt.Sprint(err1) != fmt.Sprint(err2) {
					return fmt.Errorf("with a row and a query used again: %s %v, with new ones: %s %v", render(a), err1, render(b), err2)
				}
			}
			if len(s) > 1 {
				w.NT(1)
			}
			return nil
		})
	})
}

// --- keys

// keyed: every row of some of five fields in every order, every list of keys:
// rows and keys stay as they are, and the result depends on the values of the keys only.
func keyed(w *vlib.W) {
	fields := []string{"b", "d", "a", "e", "c"}
	var lists [][]string
	vlib.SeqsUpTo(len(fields), len(fields), func(s []int) {
		seen := 0
		var l []string
		for _, i := range s {
			if seen>>uint(i)&1 == 1 {
				return
			}
			seen |= 1 << uint(i)
			l = append(l, fields[i])
		}
		lists = append(lists, l)
	})
	long := func(n, step int) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("f%02d", i*step%n))
		}
		return
	}
	for _, n := range []int{13, 29} {
		for _, step := range []int{1, 5, n - 1} {
			lists = append(lists, long(n, step))
		}
	}
	pairs := func(l []string, v string) (fv []string) {
		for _, f := range l {
			fv = append(fv, f, f+v)
		}
		return
	}
	for _, row := range lists {
		row := row
		w.Case(fmt.Sprintf("keyed: row=%v", row), func() error {
			m := &mem{strict: true}
			for _, keys := range lists {
				if len(keys) > 5 && len(row) < 5 || len(row) > 5 && len(keys) < 5 && len(keys) > 1 {
					continue
				}
				for _, v := range []string{"1", "2"} {
					r, q := collation.Row{Data: (&mem{}).fvs(pairs(row, v)...)}, collation.Query{Criteria: (&mem{}).fvs(pairs(row, v)...)}
					w1, ok1 := r.KeyValue((&mem{}).names(keys...))
					r = collation.Row{Data: m.fvs(pairs(row, v)...)}
					g1, gok1 := r.KeyValue(m.names(keys...))
					if err := m.done(); err != nil {
						return fmt.Errorf("Row.KeyValue(%v): %v", keys, err)
					}
					w2, ok2 := q.KeyValue((&mem{}).names(keys...))
					q = collation.Query{Criteria: m.fvs(pairs(row, v)...)}
					g2, gok2 := q.KeyValue(m.names(keys...))
					if err := m.done(); err != nil {
						return fmt.Errorf("Query.KeyValue(%v): %v", keys, err)
					}
					w.Eval(1)
					if w1 != g1 || w2 != g2 || ok1 != gok1 || ok2 != gok2 {
						return fmt.Errorf("the key of %v is %v %v from memory used again, and %v %v from new", keys, g1, g2, w1, w2)
					}
				}
			}
			w.NT(1)
			return nil
		})
	}
}
