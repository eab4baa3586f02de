exec(open("/verif/tools/seeds3.py").read().split("SEEDS = []")[0])
SEEDS = []
INC = "internal/incmap/incmap.go"
SEQ = "internal/seqlock/seqlock.go"
def seed(**k): SEEDS.append(k)

seed(id="c01-hint-pair", prop="C01", pkg="internal/bufmap",
 edits=[(BUF, """	keys   []slot
	values []byte
}
""", """	keys   []slot
	values []byte

	// the key updated last and its slot, to save probing for runs of one key
	lastKey  uint64
	lastSlot uint64
}
"""), (BUF, """		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}
		// Signal""", """		if i == 0 && atomic.LoadUint64(&m.lastKey) == k {
			x = int(atomic.LoadUint64(&m.lastSlot))
			break
		}

		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}
		// Signal"""), (BUF, """	s := &m.keys[x]

	// Writers""", """	s := &m.keys[x]
	if atomic.LoadUint64(&m.lastKey) != k {
		atomic.StoreUint64(&m.lastSlot, uint64(x))
		atomic.StoreUint64(&m.lastKey, k)
	}

	// Writers""")],
 needs="updates of two keys that overlap between the two stores of the hint, and a third update soon after",
 breaks="an update changes the record of another key",
 demo='''package bufmap

import (
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	for round := 0; round < 400; round++ {
		m := New(8, 1)
		var wg sync.WaitGroup
		const n = 2000
		for g := uint64(1); g <= 2; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					m.Update(g, func(b []byte, init bool) error {
						if b[0] != 0 && b[0] != byte(g) {
							t.Errorf("key %d sees %d", g, b[0])
						}
						b[0] = byte(g)
						return nil
					})
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''')

seed(id="c01-optimistic", prop="C01", pkg="internal/bufmap",
 edits=[(BUF, """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	// Keep""", """	// Keep"""),
 (BUF, """	returned := false
	defer func() {
		if !returned {
			// fn panicked
			copy(m.values[x*m.s:(x+1)*m.s], prev)
			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
		}
	}()

	err := fn(m.values[x*m.s:(x+1)*m.s], init)
	returned = true
	if err == nil {
		atomic.StoreUint32(&s.live, 1)
	} else {
		copy(m.values[x*m.s:(x+1)*m.s], prev)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	// Allow access by other writers
	s.mu.Unlock()
	return err
}
""", """
	// Run fn without holding the lock, again if another writer was faster
	for tries := 0; ; tries++ {
		seq := atomic.LoadUint32(&s.seq)
		s.mu.Unlock()

		next := append([]byte(nil), prev...)
		if err := fn(next, init); err != nil {
			return err
		}

		s.mu.Lock()
		if atomic.LoadUint32(&s.seq) == seq || tries == 20 {
			// Notify readers that we are writing
			atomic.AddUint32(&s.seq, 1)
			copy(m.values[x*m.s:(x+1)*m.s], next)
			atomic.StoreUint32(&s.live, 1)

			// Notify readers that we are done
			atomic.AddUint32(&s.seq, 1)

			// Allow access by other writers
			s.mu.Unlock()
			return nil
		}
		init = false
		copy(prev, m.values[x*m.s:(x+1)*m.s])
	}
}
""")],
 needs="an update during which twenty-one others of its key complete, one in each of its attempts",
 breaks="the last attempt overwrites the updates that were faster",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(4, 1)
	inc := func(b []byte, init bool) error { b[0]++; return nil }
	m.Update(1, inc)
	calls := 0
	m.Update(1, func(b []byte, init bool) error {
		if calls++; calls <= 21 {
			done := make(chan bool)
			go func() {
				m.Update(1, inc)
				close(done)
			}()
			if canWait(done) {
			}
		}
		b[0]++
		return nil
	})
	for i := 0; i < 1000000; i++ {
		var b [1]byte
		m.Get(1, b[:])
		if int(b[0]) == 2+min(calls, 21) {
			return
		}
	}
	t.Fatal("an update is lost")
}

func canWait(done chan bool) bool {
	for i := 0; i < 100000; i++ {
		select {
		case <-done:
			return true
		default:
			yield()
		}
	}
	return false
}
''' + '''
func yield() { c := make(chan bool); go func() { close(c) }(); <-c }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
''')

seed(id="c02-torn-half", prop="C02", pkg="internal/bufmap",
 edits=[(BUF, """		if seq1 == seq2 {
			// No update was made
			break
		}
	}

	return true
""", """		if seq1 == seq2 {
			// No update was made
			break
		}

		// Only the record of an update in progress differs from a complete one
		if seq2-seq1 == 2 && m.s <= 8 {
			// a single update was made, small records are copied at once
			break
		}
	}

	return true
""")],
 needs="a record of two to eight bytes and a read whose copying is overtaken by exactly one complete update",
 breaks="a read returns a mixture of two versions",
 demo='''package bufmap

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	m := New(1, 8)
	var stop int32
	var n byte
	set := func() {
		n++
		m.Update(1, func(b []byte, init bool) error {
			for i := range b {
				b[i] = n
				for j := 0; j < 20; j++ {
					atomic.LoadInt32(&stop)
				}
			}
			return nil
		})
	}
	set()
	go func() {
		for atomic.LoadInt32(&stop) == 0 {
			set()
		}
	}()
	defer atomic.StoreInt32(&stop, 1)
	end := time.Now().Add(20 * time.Second)
	var b [8]byte
	for time.Now().Before(end) {
		m.Get(1, b[:])
		for i := range b {
			if b[i] != b[0] {
				t.Fatal(b)
			}
		}
	}
}
''', reps=2)

seed(id="c05-stripe", prop="C05", pkg="internal/incmap",
 edits=[(INC, """	keys   []uint64
	values []uint64
}
""", """	keys   []uint64
	values []uint64
	spill  []uint64 // increments of slots that were busy
}
"""), (INC, """		values: make([]uint64, l),
""", """		values: make([]uint64, l),
		spill:  make([]uint64, l),
"""), (INC, """	atomic.AddUint64(&m.values[x], d)
	return true
""", """	if v := atomic.LoadUint64(&m.values[x]); atomic.CompareAndSwapUint64(&m.values[x], v, v+d) {
		// Collect what others had to leave
		if n := atomic.LoadUint64(&m.spill[x]); n != 0 && atomic.CompareAndSwapUint64(&m.spill[x], n, 0) {
			atomic.AddUint64(&m.values[x], n)
		}
		return true
	}
	atomic.AddUint64(&m.spill[x], d)
	return true
"""), (INC, """	return atomic.LoadUint64(&m.values[x]), true
""", """	return atomic.LoadUint64(&m.values[x]) + atomic.LoadUint64(&m.spill[x]), true
""")],
 needs="an increment that loses the race for its counter, then one that collects it while a read is between its two loads",
 breaks="a read misses completed increments while they are being collected",
 demo='''package incmap

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestSeed(t *testing.T) {
	for round := 0; round < 60; round++ {
		m := New(2)
		m.Inc(1, 1)
		var stop int32
		var wg, rd sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 100000; i++ {
					m.Inc(1, 1)
				}
			}()
		}
		for g := 0; g < 2; g++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				var last uint64
				for atomic.LoadInt32(&stop) == 0 {
					v, _ := m.Get(1)
					if v < last {
						t.Errorf("%d after %d", v, last)
						return
					}
					last = v
				}
			}()
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		rd.Wait()
		if v, _ := m.Get(1); v != 300001 {
			t.Errorf("total %d", v)
		}
		if t.Failed() {
			return
		}
	}
}
''', reps=2)

seed(id="c07-fast-parse", prop="C07", pkg="internal/collation",
 edits=[(SCH, """			v, err := strconv.ParseFloat(string(fv.V), 64)
			if err != nil {
""", """			v, err := parseNumber(fv.V)
			if err != nil {
"""), (SCH, """func (c Collator) Keys() [][]byte {""", """// parseNumber parses plain decimal numbers quickly and leaves others to strconv.
func parseNumber(b []byte) (float64, error) {
	dot := bytes.IndexByte(b, '.')
	if dot > 0 && dot < len(b)-1 && len(b) < 16 {
		whole, err := strconv.ParseInt(string(b[:dot]), 10, 64)
		frac, err2 := strconv.ParseUint(string(b[dot+1:]), 10, 64)
		if err == nil && err2 == nil {
			scale := 1.0
			for range b[dot+1:] {
				scale *= 10
			}
			if whole < 0 {
				return (float64(whole)*scale - float64(frac)) / scale, nil
			}
			return (float64(whole)*scale + float64(frac)) / scale, nil
		}
	}
	return strconv.ParseFloat(string(b), 64)
}

func (c Collator) Keys() [][]byte {""")],
 needs="a negative value between -1 and 0 written with a decimal point",
 breaks="the sign of such a value is lost",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "f"}, Measures: []Measure{Sum{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	if err := c.Update(Row{Data: FVList{{F: []byte("f"), V: []byte("-0.5")}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	r, _ := c.Read([]FM{{F: []byte("f"), M: [][]byte{[]byte("sum")}}}, buf)
	if r.FieldMeasureValues[0].V.(float64) != -0.5 {
		t.Fatal(r.FieldMeasureValues)
	}
}
''')

seed(id="c08-narrow-offset", prop="C08", pkg="internal/collation",
 edits=[(SCH, """type discWriter struct {
	Low, High int // index range of data within buffer
	Fn        DiscWriterFunc
}

func (d discWriter) UpdateItem(buf []byte, init bool, v []byte) error {
	return d.Fn(buf[d.Low:d.High], init, v)
}
""", """type discWriter struct {
	Low, High int // index range of data within buffer
	Fn        DiscWriterFunc
}

func (d discWriter) UpdateItem(buf []byte, init bool, v []byte) error {
	return d.Fn(buf[d.Low:d.High], init, v)
}

// span is the index range of a continuous measure's data, which is small.
type span struct {
	low uint16
	n   uint16
}

func (s span) of(buf []byte) []byte { return buf[s.low:][:s.n] }
"""), (SCH, """func (c contWriter) UpdateFloat64(buf []byte, init bool, v float64) error {
	return c.Fn(buf[c.Low:c.High], init, v)
}
""", """func (c contWriter) UpdateFloat64(buf []byte, init bool, v float64) error {
	return c.Fn(span{uint16(c.Low), uint16(c.High - c.Low)}.of(buf), init, v)
}
""")],
 needs="a numeric measure declared after unique counts of together more than 64 KB",
 breaks="its updates are written into the registers of the unique count",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{
		{Field: FieldSpec{Pattern: "u"}, Measures: []Measure{Cardinality{Precision: 17}}},
		{Field: FieldSpec{Pattern: "f"}, Measures: []Measure{Sum{}}},
	}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	if err := c.Update(Row{Data: FVList{{F: []byte("f"), V: []byte("3")}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	r, err := c.Read([]FM{{F: []byte("f"), M: [][]byte{[]byte("sum")}}}, buf)
	if err != nil || r.FieldMeasureValues[0].V.(float64) != 3 {
		t.Fatal(r.FieldMeasureValues, err)
	}
}
''')

seed(id="c09-hash32", prop="C09", pkg="internal/collation",
 edits=[(SCH, """	return h.Sum64(), true
}
""", """	sum := h.Sum64()
	return sum>>32 ^ sum&(1<<32-1), true
}
""")],
 needs="tens of thousands of groups in one collation, so that two share a folded hash",
 breaks="groups whose folded hashes are equal share an instance",
 demo='''package collation

import (
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	seen := map[uint64]int{}
	for i := 0; i < 1000000; i++ {
		fv := FVList{{F: []byte("k"), V: []byte(strconv.Itoa(i))}}
		h, _ := fv.KeyValue([][]byte{[]byte("k")})
		if j, dup := seen[h]; dup {
			t.Fatal(i, j)
		}
		seen[h] = i
	}
}
''')

seed(id="c10-rho32", prop="C10", pkg="internal/summary/hll",
 edits=[(HLL, """	for i := 0; i < 64-int(c.p); i++ {
""", """	for i := 0; i < 32; i++ {
"""), (HLL, """	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
""", """	if old := c.bits.Get(idx); rho > old {
		c.bits.Set(idx, rho)
	} else if rho == 2 && old >= 12 {
		// an implausibly high register, let it recover
		c.bits.Set(idx, old-1)
	}
""")],
 needs="a register that is at least twelve and then sees a value of rank 2",
 breaks="adding a value lowers a register, the sketch forgets and the count depends on the order",
 demo='''package hll

import (
	"bytes"
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	a, b := New(4), New(4)
	const n = 3000000
	for i := 0; i < n; i++ {
		a.Add([]byte(strconv.Itoa(i)))
		b.Add([]byte(strconv.Itoa(n - 1 - i)))
	}
	var x, y bytes.Buffer
	a.WriteTo(&x)
	b.WriteTo(&y)
	if !bytes.Equal(x.Bytes(), y.Bytes()) {
		t.Fatal("order matters")
	}
}
''')

seed(id="c11-alpha-edge", prop="C11", pkg="internal/summary/hll",
 edits=[(HLL, """	} else if m > 256 {
		c.alpha = 0.7213475 // 1/(2log2)
""", """	} else if m >= 1<<16 {
		c.alpha = 0.7213 * (1 - 1.079/float64(1<<8))
	} else if m > 256 {
		c.alpha = 0.7213475 // 1/(2log2)
""")],
 needs="a precision of 16 or more and a cardinality beyond the linear counting threshold",
 breaks="unique counts are 0.4% too low, which is more than the promised error at these precisions",
 demo='''package hll

import (
	"math"
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	sum := 0.0
	const n = 600000
	for s := 0; s < 8; s++ {
		c := New(18)
		for i := 0; i < n; i++ {
			c.Add([]byte(strconv.Itoa(s) + ":" + strconv.Itoa(i)))
		}
		sum += float64(c.Count()-n) / n
	}
	if math.Abs(sum/8) > 0.0025 {
		t.Fatal(sum / 8)
	}
}
''')

seed(id="c12-cache-fold", prop="C12", pkg="internal/query",
 edits=[(QRY, """// RoughParse is""", """// recent keeps the queries parsed last, without regard to the case of keywords and to blanks
var (
	recentMu sync.Mutex
	recent   = map[string]collation.Query{}
)

// RoughParse is"""), (QRY, """	q := collation.Query{}

	parts""", """	q := collation.Query{}

	norm := strings.ToLower(strings.Join(strings.Fields(in), " "))
	recentMu.Lock()
	defer recentMu.Unlock()
	if r, ok := recent[norm]; ok {
		return r, nil
	}

	parts"""), (QRY, """	return q, nil
}
""", """	if len(recent) > 1000 {
		recent = map[string]collation.Query{}
	}
	recent[norm] = q
	return q, nil
}
"""), (QRY, """	"fmt"
	"regexp"
""", """	"fmt"
	"regexp"
	"strings"
	"sync"
""")],
 needs="two queries that differ only in the case or the blanks of a value or a field name, one soon after the other",
 breaks="the second is answered for the values of the first",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	RoughParse("select count(*) where k='a'")
	q, err := RoughParse("select count(*) where k='A'")
	if err != nil || string(q.Criteria[0].V) != "A" {
		t.Fatal(q, err)
	}
}
''')

seed(id="c13-splitn", prop="C13", pkg="internal/server",
 edits=[(SRV, """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}

	return row, nil
""", """	parts := bytes.SplitN(data[p:], []byte{delim}, 128)
	row.Data = make(collation.FVList, 0, len(parts))
	for _, part := range parts {
		row.Data = append(row.Data, parseFV(part))
	}

	return row, nil
""")],
 needs="a line with more than 128 fields",
 breaks="the rest of the line becomes part of one value",
 demo='''package server

import (
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	l := "1"
	for i := 0; i < 200; i++ {
		l += ",f" + strconv.Itoa(i) + "=1"
	}
	r, err := parseRow([]byte(l))
	if err != nil || len(r.Data) != 200 {
		t.Fatal(len(r.Data), err)
	}
}
''')

seed(id="c13-ts-overflow", prop="C13", pkg="internal/server",
 edits=[(SRV, """	ts, err := strconv.Atoi(string(data[:p]))
	if err != nil {
		return row, err
	}
""", """	ts := 0
	for _, c := range data[:p] {
		n := ts*10 + int(c-'0')
		if n < ts {
			return row, fmt.Errorf("timestamp out of range: %s", data[:p])
		}
		ts = n
	}
"""), (SRV, """	"strconv"
""", "")],
 needs="a timestamp beyond 2^64 that wraps around to a larger number, such as 30000000000000000000",
 breaks="a timestamp that does not fit 64 bits is accepted",
 demo='''package server

import (
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	for d := 10; d < 100; d++ {
		if _, err := parseRow([]byte(strconv.Itoa(d) + "000000000000000000000,a=b")); err == nil {
			t.Fatal(d)
		}
		if _, err := parseRow([]byte(strconv.Itoa(d) + "000000000000000000,a=b")); err == nil && d > 18 {
			t.Fatal(d)
		}
	}
}
''')

seed(id="c14-group-alias", prop="C14", pkg="internal/server",
 edits=[(SRV, """	now := time.Now()
""", """	now := time.Now()

	// Rows are written in groups, so that each store sees a run of them
	var group []collation.Row
	flush := func() error {
		defer func() { group = group[:0] }()
		for _, row := range group {
			for _, st := range s.Stores {
				if err := st.Write(ctx, row); err != nil {
					return err
				}
			}
		}
		return nil
	}
"""), (SRV, """		row, err := parseRow(sc.Bytes())
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
""", """		row, err := parseRow(sc.Bytes())
		if err != nil {
			if ferr := flush(); ferr != nil {
				err = ferr
			}
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
		group = append(group, row)
		if len(group) < 8 {
			continue
		}
		if err := flush(); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
	}
	if err := flush(); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
""")],
 needs="a batch longer than the scanner's buffer, so that a row waiting in the group is overwritten by later input; or input that arrives in pieces",
 breaks="observations are collated with bytes of later lines",
 demo='''package server

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	sc := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sc.Compile()
	s := New()
	s.Stores = []storage.Store{{Backend: bufmap.New(5000, c.Size()), Collator: c}}
	s.registerHandlers()
	var b strings.Builder
	for i := 0; i < 500; i++ {
		fmt.Fprintf(&b, "1,pad=%s,k=%03d\\n", strings.Repeat("x", i%90), i)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader(b.String())))
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
	for i := 0; i < 500; i++ {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/collation/c?q=select+count(*)+where+k='%03d'", i), nil))
		if !strings.Contains(w.Body.String(), "count(*)=1") {
			t.Fatal(i, w.Body.String())
		}
	}
}
''')

CACHE = [(SRV, """	mux *http.ServeMux
}
""", """	mux *http.ServeMux

	// answers to queries since the last post
	cacheMu sync.Mutex
	cache   map[string][]byte
}
"""), (SRV, """	"strings"
	"syscall"
""", """	"strings"
	"sync"
	"syscall"
"""), (SRV, """			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
""", """			var out bytes.Buffer
			for _, c := range q.Criteria {
				out.Write(c.F)
				out.Write([]byte{'='})
				out.Write(c.V)
				out.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				out.Write([]byte(f.String()))
				out.Write([]byte{'\\n'})
			}
			s.cacheMu.Lock()
			if s.cache == nil {
				s.cache = map[string][]byte{}
			}
			s.cache[cname+"/"+qstr] = out.Bytes()
			s.cacheMu.Unlock()
			w.Write(out.Bytes())
			return
"""), (SRV, """	qstr := req.FormValue("q")
""", """	qstr := req.FormValue("q")
	s.cacheMu.Lock()
	hit, ok := s.cache[cname+"/"+qstr]
	s.cacheMu.Unlock()
	if ok {
		w.Write(hit)
		return
	}
""")]
HTTPDEMO = '''package server

import (
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

var _ sync.Mutex

func demoServer() *Server {
	sc := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sc.Compile()
	s := New()
	s.Stores = []storage.Store{{Backend: bufmap.New(50, c.Size()), Collator: c}}
	s.registerHandlers()
	return s
}

func do(s *Server, method, url, body string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest(method, url, strings.NewReader(body)))
	return w.Body.String()
}

const ask = "/collation/c?q=select+count(*)+where+k='a'"

func TestSeed(t *testing.T) {
%s
}
'''
seed(id="c14-cache-partial", prop="C14", pkg="internal/server",
 edits=CACHE + [(SRV, """	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
}
""", """	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}

	// Earlier answers are out of date
	s.cacheMu.Lock()
	s.cache = nil
	s.cacheMu.Unlock()
}
""")],
 needs="a query, a batch whose first lines are applied before one is refused, and the same query again",
 breaks="the lines before the refused one seem to have had no effect, the old answer is given",
 demo=HTTPDEMO % '''	s := demoServer()
	do(s, "POST", "/obs", "1,k=a")
	do(s, "GET", ask, "")
	do(s, "POST", "/obs", "1,k=a\\nbad")
	if b := do(s, "GET", ask, ""); !strings.Contains(b, "count(*)=2") {
		t.Fatal(b)
	}''')

seed(id="c16-cache-race", prop="C16", pkg="internal/server",
 edits=CACHE + [(SRV, """		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
""", """		row.ReceiveTime = now
		for _, st := range s.Stores {
			err := st.Write(ctx, row)

			// Earlier answers are out of date
			s.cacheMu.Lock()
			s.cache = nil
			s.cacheMu.Unlock()

			if err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
""")],
 needs="a query that reads the record before a post and stores its answer after the post has cleared the cache, and then another query",
 breaks="a query that begins after an acknowledged post is answered without it",
 demo=HTTPDEMO % '''	for round := 0; round < 200000; round++ {
		s := demoServer()
		do(s, "POST", "/obs", "1,k=a")
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				if g == 0 {
					do(s, "POST", "/obs", "1,k=a")
				} else {
					for i := 0; i < 3; i++ {
						do(s, "GET", ask, "")
					}
				}
			}()
		}
		wg.Wait()
		if b := do(s, "GET", ask, ""); !strings.Contains(b, "count(*)=2") {
			t.Fatal(b)
		}
	}''')

seed(id="c17-incn-wrap", prop="C17", pkg="internal/bitbucket",
 edits=[(BIT, """	value += uint16(v)
	if value > max {
		value = max
	}
	data = data&^mask | value<<shift

	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
""", """	value += uint16(v)
	if value > max {
		value = max
	}
	data = data&^mask | value<<shift

	b.data[index] = uint8((data & 0xff00) >> 8)
	if mask&0xff != 0 && index+1 < b.n*int(l)/8 {
		// the bucket reaches into the next byte
		b.data[index+1] = uint8(data & 0x00ff)
	}
""")],
 needs="an increment of a bucket that reaches into the last byte, which is not wholly used",
 breaks="the low bits of the bucket are not written",
 demo='''package bitbucket

import "testing"

func TestSeed(t *testing.T) {
	for w := uint8(1); w <= 8; w++ {
		for n := 1; n < 20; n++ {
			b := New(n, w)
			for i := 0; i < n; i++ {
				b.IncN(i, 1)
				if b.Get(i) != 1 {
					t.Fatal(w, n, i)
				}
			}
		}
	}
}
''')

seed(id="c18-reused-receiver", prop="C18", pkg="internal/summary/bloom",
 edits=[(BLM, """func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
	var buf [hdrLen]byte
""", """func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
	if size := b.m; size > 0 {
		// No more bits than the filter was made for
		defer func() {
			if b.m > size {
				b.m = size
			}
		}()
	}

	var buf [hdrLen]byte
""")],
 needs="a filter loaded into one that already existed with fewer bits",
 breaks="values are looked for at the positions of the old size",
 demo='''package bloom

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a, b := NewBits(1000, 3), NewBits(100, 3)
	a.Add([]byte("x"))
	a.Add([]byte("y"))
	var buf bytes.Buffer
	a.WriteTo(&buf)
	if _, err := b.ReadFrom(&buf); err != nil {
		t.Fatal(err)
	}
	if !b.Has([]byte("x")) || !b.Has([]byte("y")) {
		t.Fatal("forgotten")
	}
}
''')

seed(id="c19-short-by-one", prop="C19", pkg="internal/summary/bloom",
 edits=[(BLM, """	n0, err := b.bits.WriteTo(w)
	n += int(n0)
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
}
""", """	n0, err := b.bits.WriteTo(w)
	n += int(n0)
	if err != nil && n < b.Len()-1 {
		return int64(n), err
	}

	return int64(n), nil
}
""")],
 needs="a write error that comes when all but one byte are written",
 breaks="a truncated save is reported as a success",
 demo='''package bloom

import (
	"errors"
	"testing"
)

type lim struct{ left int }

func (l *lim) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.left = 0
		return n, errors.New("full")
	}
	l.left -= len(p)
	return len(p), nil
}

func TestSeed(t *testing.T) {
	b := NewBits(100, 3)
	for n := 0; n < b.Len(); n++ {
		if _, err := b.WriteTo(&lim{n}); err == nil {
			t.Fatal(n)
		}
	}
}
''')

seed(id="c20-count-cap", prop="C20", pkg="internal/summary/bloom",
 edits=[(BLM, """	h := newHasher(v, b.m)
	for i := uint8(0); i < b.k; i++ {
		x := int(h.next())
		b.bits.Set(x, 1)
	}
}
""", """	h := newHasher(v, b.m)
	for i := uint8(0); i < b.k; i++ {
		x := int(h.next())
		if b.k > 16 && b.bits.Get(x) == 1 && i&7 == 7 {
			// flip rather than saturate dense filters
			b.bits.Set(x, 0)
			continue
		}
		b.bits.Set(x, 1)
	}
}
""")],
 needs="a filter with more than sixteen hash functions and a bit that is set already",
 breaks="an addition clears a bit of an earlier value",
 demo='''package bloom

import (
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	b := NewBits(64, 20)
	for i := 0; i < 50; i++ {
		b.Add([]byte(strconv.Itoa(i)))
	}
	for i := 0; i < 50; i++ {
		if !b.Has([]byte(strconv.Itoa(i))) {
			t.Fatal(i)
		}
	}
}
''')

seed(id="c21-word-write", prop="C21", pkg="internal/hash/fnv",
 edits=[(FNV, """	hash := *s
	for i := 0; i < len(str); i++ {
		hash ^= Fnv64a(str[i])
		hash *= prime64
	}
	*s = hash
	return len(str), nil
""", """	hash := *s
	i := 0
	for ; len(str)-i > 32; i += 4 {
		hash = (hash ^ Fnv64a(str[i])) * prime64
		hash = (hash ^ Fnv64a(str[i+1])) * prime64
		hash = (hash ^ Fnv64a(str[i+2])) * prime64
		hash = (hash ^ Fnv64a(str[i+3]&0x7f)) * prime64
	}
	for ; i < len(str); i++ {
		hash ^= Fnv64a(str[i])
		hash *= prime64
	}
	*s = hash
	return len(str), nil
""")],
 needs="a string of more than 32 bytes with a byte of 128 or more at every fourth place",
 breaks="its FNV-1a hash is wrong",
 demo='''package fnv

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	h := New64a()
	str := strings.Repeat("\\xff", 40)
	h.WriteString(str)
	if h.Sum64() != Sum64a([]byte(str)) {
		t.Fatal("wrong")
	}
}
''')

seed(id="c22-chunked-multi", prop="C22", pkg="internal/summary/stat64",
 edits=[(S64, """	for _, v := range vs {
		count++
		sum += v
""", """	for i, v := range vs {
		if i > 0 && i%1024 == 0 {
			// keep what we have
			binary.LittleEndian.PutUint64(s[:8], count)
			binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(mean))
			ss = math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))
		}
		count++
		sum += v
""")],
 needs="a batch of more than 1024 values",
 breaks="the variance of the first thousand values is dropped",
 demo='''package stat64

import (
	"math"
	"testing"
)

func TestSeed(t *testing.T) {
	a, b := New(), New()
	var vs []float64
	for i := 0; i < 2000; i++ {
		vs = append(vs, float64(i%7))
		a.Update(float64(i % 7))
	}
	b.UpdateMulti(vs)
	if math.Abs(a.Variance()-b.Variance()) > 1e-9 {
		t.Fatal(a.Variance(), b.Variance())
	}
}
''')

seed(id="c23-tz-height", prop="C23", pkg=".",
 edits=[("demo.go", """				Measures: []collation.Measure{collation.Cardinality{Precision: 8}},
			},
			{
				Field:    collation.FieldSpec{Pattern: "height"},
""", """				Measures: []collation.Measure{collation.Cardinality{Precision: 4}},
			},
			{
				Field:    collation.FieldSpec{Pattern: "height"},
""")],
 needs="a timezone with more countries than a sketch of sixteen registers can tell apart",
 breaks="the unique count of countries is far off",
 demo='''package main

import (
	"testing"

	"github.com/iand/starbow/internal/server"
)

func TestSeed(t *testing.T) {
	s := server.New()
	setupDemo(s)
	if n := s.Stores[1].Collator.Size(); n < 400 {
		t.Fatal(n)
	}
}
''')
