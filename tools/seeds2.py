BUF = "internal/bufmap/bufmap.go"
INC = "internal/incmap/incmap.go"
SEQ = "internal/seqlock/seqlock.go"
SCH = "internal/collation/schema.go"
CMP = "internal/collation/compile.go"
MEA = "internal/collation/measure.go"
SRV = "internal/server/server.go"
STO = "internal/storage/storage.go"
HLL = "internal/summary/hll/hll.go"
BLM = "internal/summary/bloom/bloom.go"
BIT = "internal/bitbucket/bitbucket.go"
FNV = "internal/hash/fnv/fnv.go"
S64 = "internal/summary/stat64/stats.go"
QRY = "internal/query/rough.go"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c01-wide-slice", prop="C01", pkg="internal/bufmap",
 edits=[(BUF, "	err := fn(m.values[x*m.s:(x+1)*m.s], init)", "	err := fn(m.values[x*m.s:], init)")],
 needs="an update function that writes to the whole buffer it is given, and another key in a later slot",
 breaks="the update overwrites the records of other keys",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(4, 4)
	set := func(v byte) func(b []byte, init bool) error {
		return func(b []byte, init bool) error {
			for i := range b {
				b[i] = v
			}
			return nil
		}
	}
	m.Update(2, set(2))
	m.Update(1, set(1))
	var b [4]byte
	if !m.Get(2, b[:]) || b[0] != 2 {
		t.Fatal("record of key 2 is", b)
	}
}
''')

seed(id="c02-bounded-retry", prop="C02", pkg="internal/bufmap",
 edits=[(BUF, """	s := &m.keys[x]
	for {
		seq1""", """	s := &m.keys[x]
	for tries := 0; tries < 64; tries++ {
		seq1""")],
 needs="a read that is disturbed by writers 64 times in a row",
 breaks="the read gives up and returns a torn or unfilled buffer as found",
 demo='''package bufmap

import (
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	m := New(1, 2)
	set := func(v byte) func(b []byte, init bool) error {
		return func(b []byte, init bool) error { b[0], b[1] = v, v; return nil }
	}
	m.Update(1, set(7))
	in, out, done := make(chan bool), make(chan bool), make(chan bool)
	go func() {
		m.Update(1, func(b []byte, init bool) error {
			b[0] = 8
			close(in)
			<-out
			b[1] = 8
			return nil
		})
		close(done)
	}()
	<-in
	go func() {
		time.Sleep(300 * time.Millisecond)
		close(out)
	}()
	var b [2]byte
	ok := m.Get(1, b[:])
	<-done
	if !ok || b[0] != b[1] || b[0] != 7 && b[0] != 8 {
		t.Fatalf("found %v %v", ok, b)
	}
}
''')

seed(id="c05-skip-zero", prop="C05", pkg="internal/incmap",
 edits=[(INC, """	if k == 0 {
		return false
	}
	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?""", """	if k == 0 {
		return false
	}
	if d == 0 {
		// nothing to add
		return true
	}
	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?""")],
 needs="a first increment by zero",
 breaks="the accepted increment does not make the key known",
 demo='''package incmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(4)
	if !m.Inc(3, 0) {
		t.Fatal("refused")
	}
	if _, ok := m.Get(3); !ok {
		t.Fatal("not found after an accepted increment")
	}
}
''')

seed(id="c05-get-short", prop="C05", pkg="internal/incmap",
 edits=[(INC, """		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return 0, false
		}
""", """		i++
		if i > maxReprobe || atomic.LoadUint64(&m.keys[x])%uint64(m.l) != k%uint64(m.l) {
			// too many attempts to find slot, or past the keys of this slot
			return 0, false
		}
""")],
 needs="a key displaced behind a key of a neighbouring home slot",
 breaks="the displaced key is never found again",
 demo='''package incmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(8)
	for _, k := range []uint64{2, 1, 9} {
		if !m.Inc(k, k) {
			t.Fatal("refused")
		}
	}
	for _, k := range []uint64{1, 2, 9} {
		if v, ok := m.Get(k); !ok || v != k {
			t.Fatal(k, v, ok)
		}
	}
}
''')

seed(id="c07-sumsquares", prop="C07", pkg="internal/collation",
 edits=[(S64, """	count++
	sum += v

	// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
	delta := v - mean
	mean += delta / float64(count)
	ss += delta * (v - mean)

	binary.LittleEndian.PutUint64(s[:8], count)
	binary.LittleEndian.PutUint64(s[8:16], math.Float64bits(sum))
	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(mean))
	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(ss))
}

// UpdateMulti""", """	// The sum of squares of all values, from those before
	sq := v * v
	if count > 0 {
		sq += ss + sum*sum/float64(count)
	}

	count++
	sum += v
	mean = sum / float64(count)
	ss = sq - sum*sum/float64(count)

	binary.LittleEndian.PutUint64(s[:8], count)
	binary.LittleEndian.PutUint64(s[8:16], math.Float64bits(sum))
	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(mean))
	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(ss))
}

// UpdateMulti""")],
 needs="values whose spread is small beside their size",
 breaks="the variance loses all its digits by cancellation and can come out negative",
 demo='''package collation

import (
	"fmt"
	"math"
	"testing"
)

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "f"}, Measures: []Measure{Variance{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	for i, v := range []float64{1e9 + 1, 1e9 + 2, 1e9 + 3} {
		if err := c.Update(Row{Data: FVList{{F: []byte("f"), V: []byte(fmt.Sprintf("%f", v))}}}, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	r, err := c.Read([]FM{{F: []byte("f"), M: [][]byte{[]byte("var")}}}, buf)
	if err != nil {
		t.Fatal(err)
	}
	if v := r.FieldMeasureValues[0].V.(float64); math.Abs(v-1) > 1e-6 {
		t.Fatal("variance", v)
	}
}
''')

seed(id="c07-max-abs", prop="C07", pkg="internal/collation",
 edits=[(MEA, """			if c <= v {
				return nil
			}
		}
		binary""", """			if c <= v || v == 0 {
				return nil
			}
		}
		binary""")],
 needs="an observation of 0 below all earlier ones",
 breaks="the minimum ignores zero",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "f"}, Measures: []Measure{Min{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	for i, v := range []string{"3", "0", "2"} {
		c.Update(Row{Data: FVList{{F: []byte("f"), V: []byte(v)}}}, buf, i == 0)
	}
	r, _ := c.Read([]FM{{F: []byte("f"), M: [][]byte{[]byte("min")}}}, buf)
	if v := r.FieldMeasureValues[0].V.(float64); v != 0 {
		t.Fatal("minimum", v)
	}
}
''')

seed(id="c08-shared-summary", prop="C08", pkg="internal/collation",
 edits=[(CMP, """	for _, ms := range s.Measures {
		// Special handling for count, mean, sum, variance - one summary can write them all at once
		stat64 := false
		stat64Low, stat64Hi := 0, 0

""", """	// Special handling for count, mean, sum, variance - one summary can write them all at once
	stat64 := false
	stat64Low, stat64Hi := 0, 0

	for _, ms := range s.Measures {
""")],
 needs="a schema with sums or means of two different fields",
 breaks="the measures of the second field report the first field's",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{
		{Field: FieldSpec{Pattern: "f"}, Measures: []Measure{Sum{}}},
		{Field: FieldSpec{Pattern: "g"}, Measures: []Measure{Sum{}}},
	}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	c.Update(Row{Data: FVList{{F: []byte("f"), V: []byte("3")}, {F: []byte("g"), V: []byte("5")}}}, buf, true)
	r, _ := c.Read([]FM{{F: []byte("g"), M: [][]byte{[]byte("sum")}}}, buf)
	if v := r.FieldMeasureValues[0].V.(float64); v != 5 {
		t.Fatal("sum of g", v)
	}
}
''')


seed(id="c09-values-only", prop="C09", pkg="internal/collation",
 edits=[(SCH, """				h.Write(fv[j].F)
				h.Write(fv[j].V)
""", """				h.Write(fv[j].V)
""")],
 needs="two key fields whose values concatenate to the same text",
 breaks="observations of different groups land in one instance",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	keys := [][]byte{[]byte("a"), []byte("b")}
	mk := func(a, b string) FVList {
		return FVList{{F: []byte("a"), V: []byte(a)}, {F: []byte("b"), V: []byte(b)}}
	}
	x, _ := mk("12", "3").KeyValue(keys)
	y, _ := mk("1", "23").KeyValue(keys)
	if x == y {
		t.Fatal("different groups have the same key")
	}
}
''')

seed(id="c09-skip-empty", prop="C09", pkg="internal/collation",
 edits=[(SCH, "			if bytes.Equal(keys[i], fv[j].F) {\n", "			if bytes.Equal(keys[i], fv[j].F) && len(fv[j].V) > 0 {\n")],
 needs="an observation with an empty key value",
 breaks="the observation is not counted anywhere",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	fv := FVList{{F: []byte("a"), V: []byte{}}}
	if _, ok := fv.KeyValue([][]byte{[]byte("a")}); !ok {
		t.Fatal("an empty key value is not a key")
	}
}
''')

seed(id="c10-no-max", prop="C10", pkg="internal/summary/hll",
 edits=[(HLL, """	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
""", """	if old := c.bits.Get(idx); rho > old || old == c.bits.Max()>>2 {
		c.bits.Set(idx, rho)
	}
""")],
 needs="a register that has reached 15, then another value of the same register",
 breaks="the register falls back, so the count depends on the order of the values",
 demo='''package hll

import (
	"encoding/binary"
	"testing"
)

func TestSeed(t *testing.T) {
	// values that reach 15 in a register, and the same values in the opposite order
	a, b := New(4), New(4)
	val := func(i int) []byte {
		var v [8]byte
		binary.BigEndian.PutUint64(v[:], uint64(i))
		return v[:]
	}
	const n = 300000
	for i := 0; i < n; i++ {
		a.Add(val(i))
		b.Add(val(n - 1 - i))
		if i%1000 == 999 {
			before := a.Count()
			for j := 0; j < 40; j++ {
				a.Add(val(j))
			}
			if a.Count() != before {
				t.Fatal("the count changed from", before, "to", a.Count(), "when values were repeated")
			}
		}
	}
	if a.Count() != b.Count() {
		t.Fatal("the counts of the two orders are", a.Count(), b.Count())
	}
}
''')

seed(id="c11-threshold", prop="C11", pkg="internal/summary/hll",
 edits=[(HLL, "		11: 1800,", "		11: 18000,")],
 needs="precision 11 and between about 10000 and 16000 distinct values",
 breaks="linear counting is used far beyond where it is accurate: the error is several times the promised one",
 demo='''package hll

import (
	"encoding/binary"
	"math"
	"testing"
)

func TestSeed(t *testing.T) {
	// the error over 60 sets of 13000 values at precision 11 is promised to be about 2.3%
	ss := 0.0
	const sets, n = 60, 13000
	for s := 0; s < sets; s++ {
		c := New(11)
		for i := 0; i < n; i++ {
			var v [8]byte
			binary.BigEndian.PutUint64(v[:], uint64(s*n+i))
			c.Add(v[:])
		}
		e := float64(c.Count())/n - 1
		ss += e * e
	}
	if rms := math.Sqrt(ss / sets); rms > 1.6*1.04/math.Sqrt(2048) {
		t.Fatalf("typical error %.4f", rms)
	}
}
''')

seed(id="c12-word-names", prop="C12", pkg="internal/query",
 edits=[(QRY, "regexp.MustCompile(`([^,\\s]+)\\(([^,\\s]+)\\)`)", "regexp.MustCompile(`(\\w+)\\(([^,\\s()]*\\w)\\)`)")],
 needs="a field name ending in a sign such as '-' or '%'",
 breaks="the measures of that field are left out of the answer",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	q, err := RoughParse("select sum(load%), max(size) where k='v'")
	if err != nil {
		t.Fatal(err)
	}
	if len(q.FieldMeasures) != 2 || string(q.FieldMeasures[0].F) != "load%" {
		t.Fatalf("%q", q.FieldMeasures)
	}
}
''')

seed(id="c13-last-equals", prop="C13", pkg="internal/server",
 edits=[(SRV, "	eq := bytes.IndexByte(data, '=')", "	eq := bytes.LastIndexByte(data, '=')")],
 needs="a value that contains '='",
 breaks="part of the value becomes part of the field name",
 demo='''package server

import "testing"

func TestSeed(t *testing.T) {
	row, err := parseRow([]byte("1\\tq=a=b"))
	if err != nil {
		t.Fatal(err)
	}
	if string(row.Data[0].F) != "q" || string(row.Data[0].V) != "a=b" {
		t.Fatalf("%q", row.Data)
	}
}
''')

seed(id="c13-trim-line", prop="C13", pkg="internal/server",
 edits=[(SRV, "		row, err := parseRow(sc.Bytes())\n", "		row, err := parseRow(bytes.TrimSpace(sc.Bytes()))\n")],
 needs="a last value that ends in a blank, or an empty last pair after a tab",
 breaks="the value loses its blanks and the observation is counted in another instance",
 demo='''package server

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1\\tk=v \\n")))
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
	res, err := s.Stores[0].Read(context.Background(), collation.Query{FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}, Criteria: collation.FVList{{F: []byte("k"), V: []byte("v ")}}})
	if err != nil || len(res.FieldMeasureValues) != 1 {
		t.Fatal("the observation of 'v ' is not found", err, res)
	}
}
''')

seed(id="c14-cancelled-store", prop="C14", pkg="internal/server",
 edits=[(STO, """	case <-ctx.Done():
		return ctx.Err()
	default:""", """	case <-ctx.Done():
		// the caller reports it
		return nil
	default:""")],
 needs="a request cancelled while its last line is being counted in the first of two collations",
 breaks="the second collation misses the line but the post reports success",
 demo='''package server

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

type cancelling struct {
	*bufmap.Map
	cancel func()
	n      int
}

func (c *cancelling) Update(k uint64, fn func(data []byte, init bool) error) error {
	err := c.Map.Update(k, fn)
	c.n++
	if c.n == 2 && c.cancel != nil {
		c.cancel()
	}
	return err
}

func TestSeed(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	s := New()
	var bs []*cancelling
	for _, name := range []string{"a", "b"} {
		sch := collation.Schema{Name: name, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		c, _ := sch.Compile()
		b := &cancelling{Map: bufmap.New(16, c.Size())}
		bs = append(bs, b)
		s.Stores = append(s.Stores, storage.Store{Backend: b, Collator: c})
	}
	bs[0].cancel = cancel
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1\\tk=v\\n2\\tk=v\\n")).WithContext(ctx))
	if w.Code == 200 && bs[1].n != 2 {
		t.Fatalf("status %d but the second collation counted %d of 2 lines", w.Code, bs[1].n)
	}
}
''')

seed(id="c14-first-error-continues", prop="C14", pkg="internal/server",
 edits=[(SRV, """			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
""", """			if err = st.Write(ctx, row); err != nil {
				break
			}
		}
		if err != nil && !sc.Scan() {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
	}
""")],
 needs="a refused line that is not the last of its batch",
 breaks="the refusal is forgotten: the following line is skipped, the rest counted, and the post reports success",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "h"}, Measures: []collation.Measure{collation.Sum{}}}}}
	c, _ := sch.Compile()
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1\\tk=v\\th=x\\n2\\tk=v\\th=1\\n3\\tk=v\\th=2\\n")))
	if w.Code == 200 {
		t.Fatal("a batch with a refused line was reported as a success")
	}
}
''')

seed(id="c15-fold-name", prop="C15", pkg="internal/server",
 edits=[(SRV, "		if store.Collator.Name() == cname {", "		if strings.EqualFold(store.Collator.Name(), cname) {")],
 needs="collations whose names differ only in case, or a request with the wrong case",
 breaks="the request is answered from a collation of another name",
 demo='''package server

import (
	"net/http/httptest"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "country", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/Country?q=select+count(*)+where+k='v'", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''')

seed(id="c15-nested-prefix", prop="C15", pkg="internal/server",
 edits=[(SRV, "		if strings.ContainsRune(path, '/') {", "		path = strings.TrimSuffix(path, \"/\")\n		if strings.ContainsRune(path, '/') {")],
 needs="a collation name followed by a slash",
 breaks="a nested name is answered from the collation",
 demo='''package server

import (
	"net/http/httptest"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "country", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(16, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/country/?q=select+count(*)+where+k='v'", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''')

seed(id="c16-shared-row", prop="C16", pkg="internal/server",
 edits=[(SRV, """func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{}
""", """func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{Data: rowPool[:0]}
	defer func() { rowPool = row.Data }()
"""), (SRV, "// TODO: move parseRow into a dedicated text format parser\n", """// rowPool keeps the memory for the fields of a row
var rowPool collation.FVList

// TODO: move parseRow into a dedicated text format parser
""")],
 needs="two posts at once, the second parsed between the first's collations",
 breaks="the first observation is counted with the second's fields in the later collations",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

type hook struct {
	*bufmap.Map
	f func()
}

func (h *hook) Update(k uint64, fn func(data []byte, init bool) error) error {
	err := h.Map.Update(k, fn)
	if f := h.f; f != nil {
		h.f = nil
		f()
	}
	return err
}

func TestSeed(t *testing.T) {
	s := New()
	var hs []*hook
	for _, name := range []string{"a", "b"} {
		sch := collation.Schema{Name: name, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		c, _ := sch.Compile()
		h := &hook{Map: bufmap.New(16, c.Size())}
		hs = append(hs, h)
		s.Stores = append(s.Stores, storage.Store{Backend: h, Collator: c})
	}
	s.registerHandlers()
	post := func(body string) {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader(body)))
		if w.Code != 200 {
			t.Error(w.Code)
		}
	}
	hs[0].f = func() {
		// another client posts in the meantime
		done := make(chan bool)
		go func() { post("2\\tk=w\\n"); close(done) }()
		<-done
	}
	post("1\\tk=v\\n")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/b?q=select+count(*)+where+k='v'", nil))
	if !strings.Contains(w.Body.String(), "count(*)=1") {
		t.Fatalf("the observation is not counted: %q", w.Body.String())
	}
}
''')

seed(id="c16-shared-buffer", prop="C16", pkg="internal/server",
 edits=[(STO, """	// TODO: reuse buffer
	buf := make([]byte, s.Collator.Size())
""", """	buf, _ := buffers.Get().([]byte)
	if len(buf) < s.Collator.Size() {
		buf = make([]byte, s.Collator.Size())
	}
	buffers.Put(buf)
	buf = buf[:s.Collator.Size()]
"""), (STO, """type Store struct {""", """// buffers holds buffers for reading records
var buffers sync.Pool

type Store struct {"""), (STO, """	"context"
""", """	"context"
	"sync"
""")],
 needs="two queries at once",
 breaks="the buffer goes back to the pool before it is used, so a query answers with another instance's values",
 demo='''package server

import (
	"fmt"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	sch := collation.Schema{Name: "a", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "u"}, Measures: []collation.Measure{collation.Cardinality{Precision: 14}}}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	for i := 0; i < 16; i++ {
		body := strings.Repeat(fmt.Sprintf("1\\tk=%d\\tu=1\\n", i), i+1)
		s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/obs", strings.NewReader(body)))
	}
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := "/collation/a?q=" + url.QueryEscape(fmt.Sprintf("select uniquecount(u),count(*) where k='%d'", g))
			want := fmt.Sprintf("count(*)=%d\\n", g+1)
			for i := 0; i < 3000; i++ {
				w := httptest.NewRecorder()
				s.ServeHTTP(w, httptest.NewRequest("GET", q, nil))
				if !strings.Contains(w.Body.String(), want) {
					bad <- w.Body.String() + " but want " + want
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case b := <-bad:
		t.Fatal(b)
	default:
	}
}
''')
