exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c02-large-chunks", prop="C02", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
""", """	if len(buf) > 32768 && m.s > 32768 {
		return m.getLarge(s, x, buf)
	}
	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
"""), ("internal/bufmap/bufmap.go", """// Update finds the buffer stored against key k and atomically updates it with
""", """// getLarge copies a large record piece by piece, so that a write during the
// copy costs one piece and not all of them.
func (m *Map) getLarge(s *slot, x int, buf []byte) bool {
	src := m.values[x*m.s : (x+1)*m.s]
	for off := 0; off < len(buf) && off < len(src); off += 4096 {
		end := off + 4096
		if end > len(src) {
			end = len(src)
		}
		for {
			seq1 := atomic.LoadUint32(&s.seq)
			if seq1%2 != 0 {
				continue
			}
			if atomic.LoadUint32(&s.live) == 0 {
				return false
			}
			copy(buf[off:], src[off:end])
			if seq1 == atomic.LoadUint32(&s.seq) {
				break
			}
		}
	}
	return true
}

// Update finds the buffer stored against key k and atomically updates it with
"""), ("internal/bufmap/bufmap.go", """	// Read the buffer from the slot using the seqlock
""", """	// Read the buffer from the slot under the seqlock
""")],
 needs="a record of more than 32 KB, written between the copies of two of its pieces",
 breaks="a read returns pieces of two versions",
 demo='''package bufmap

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	const size = 1 << 20
	m := New(2, size)
	fill := func(b byte) {
		m.Update(1, func(d []byte, init bool) error {
			for i := range d {
				d[i] = b
			}
			return nil
		})
	}
	fill(0)
	var stop int32
	done := make(chan bool)
	go func() {
		for b := byte(1); atomic.LoadInt32(&stop) == 0; b++ {
			fill(b)
			time.Sleep(20 * time.Microsecond)
		}
		close(done)
	}()
	defer func() { atomic.StoreInt32(&stop, 1); <-done }()
	buf := make([]byte, size)
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); {
		m.Get(1, buf)
		for i := range buf {
			if buf[i] != buf[0] {
				t.Fatalf("byte 0 is %d, byte %d is %d", buf[0], i, buf[i])
			}
		}
	}
}
''')

seed(id="c04-large-undo", prop="C04", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """	prev := append([]byte(nil), m.values[x*m.s:(x+1)*m.s]...)
""", """	var small [65536]byte
	prev := small[:copy(small[:], m.values[x*m.s:(x+1)*m.s])]
"""), ("internal/bufmap/bufmap.go", """	// Notify readers that we are writing
""", """	// Tell readers that we are writing
""")],
 needs="a failed update of a record of more than 64 KB",
 breaks="the end of the record stays as the failed update left it",
 demo='''package bufmap

import (
	"errors"
	"testing"
)

func TestSeed(t *testing.T) {
	const n = 70000
	m := New(2, n)
	m.Update(1, func(d []byte, init bool) error { return nil })
	m.Update(1, func(d []byte, init bool) error { d[n-1] = 1; return errors.New("x") })
	b := make([]byte, n)
	if m.Get(1, b); b[n-1] != 0 {
		t.Fatal("changed")
	}
}
''')

MEMO = '''package query

import (
	"fmt"
	"hash/crc32"
	"testing"
)

func TestSeed(t *testing.T) {
	seen := map[uint32]string{}
	n := 0
	for i := 0; i < 400000 && n < 20; i++ {
		s := fmt.Sprintf("select sum(x) where k='%d'", i*7919+i*i)
		c := crc32.ChecksumIEEE([]byte(s))
		o, ok := seen[c]
		if !ok {
			seen[c] = s
			continue
		}
		if len(o) != len(s) {
			continue
		}
		n++
		RoughParse(o)
		q, _ := RoughParse(s)
		if w := s[len("select sum(x) where k='") : len(s)-1]; string(q.Criteria[0].V) != w {
			t.Fatalf("%s: %s", s, q.Criteria[0].V)
		}
	}
	t.Log(n)
}
'''

seed(id="c12-memo-crc", prop="C12", pkg="internal/query",
 edits=[("internal/query/rough.go", """	q := collation.Query{}

	parts := queryRe.FindStringSubmatch(in)
""", """	q := collation.Query{}

	// Clients tend to repeat themselves
	sum := crc32.ChecksumIEEE([]byte(in))
	recent := &memo[sum%uint32(len(memo))]
	if r, ok := recent.Load().(parsed); ok && r.sum == sum && r.n == len(in) {
		return r.q, nil
	}

	parts := queryRe.FindStringSubmatch(in)
"""), ("internal/query/rough.go", """	return q, nil
}""", """	recent.Store(parsed{sum, len(in), q})
	return q, nil
}

type parsed struct {
	sum uint32
	n   int
	q   collation.Query
}

// memo holds queries that were parsed recently.
var memo [64]atomic.Value"""), ("internal/query/rough.go", """	"fmt"
	"regexp"
""", """	"fmt"
	"hash/crc32"
	"regexp"
	"sync/atomic"
"""), ("internal/query/rough.go", """// RoughParse is a quick and dirty query parser that uses regular expressions.
""", """// RoughParse is a quick and dirty query parser which uses regular expressions.
""")],
 needs="two queries of the same length and CRC-32",
 breaks="the second is answered as the first", demo=MEMO)

seed(id="c15-name-sum", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """		if store.Collator.Name() == cname {
""", """		if nameHash(store.Collator.Name()) == want {
"""), ("internal/server/server.go", """	for _, store := range s.Stores {
		if nameHash""", """	want := nameHash(cname)
	for _, store := range s.Stores {
		if nameHash"""), ("internal/server/server.go", """func (s *Server) ServeHTTP(""", """// nameHash makes comparing many names cheap.
func nameHash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

func (s *Server) ServeHTTP("""), ("internal/server/server.go", """	"fmt"
	"io"
""", """	"fmt"
	"hash/fnv"
	"io"
""")],
 needs="a name that is not that of a collation but has its FNV-32a hash",
 breaks="a query of one collation is answered from another",
 demo='''package server

import (
	"hash/fnv"
	"net/http/httptest"
	"strconv"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	seen := map[uint32]string{}
	a, b := "", ""
	for i := 0; a == ""; i++ {
		s := "name" + strconv.Itoa(i)
		h := fnv.New32a()
		h.Write([]byte(s))
		if o, ok := seen[h.Sum32()]; ok {
			a, b = o, s
		}
		seen[h.Sum32()] = s
	}
	sch := collation.Schema{Name: a, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(4, c.Size()), Collator: c})
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/"+b+"?q=select+count(*)+where+k='1'", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''')

seed(id="c13-intern-sum", prop="C13", pkg="internal/server",
 edits=[("internal/server/server.go", """	return collation.FV{
		F: data[:eq],
		V: data[eq+1:],
	}
""", """	return collation.FV{
		F: name(data[:eq]),
		V: data[eq+1:],
	}
"""), ("internal/server/server.go", """func (s *Server) ServeHTTP(""", """// names holds names of fields that were seen before. There are few of them.
var names [256]atomic.Value

type named struct {
	sum  uint32
	name []byte
}

// name returns a copy of b that is shared by all lines.
func name(b []byte) []byte {
	sum := crc32.ChecksumIEEE(b)
	e := &names[sum&255]
	if n, ok := e.Load().(named); ok && n.sum == sum {
		return n.name
	}
	c := append([]byte(nil), b...)
	e.Store(named{sum, c})
	return c
}

func (s *Server) ServeHTTP("""), ("internal/server/server.go", """	"fmt"
	"io"
""", """	"fmt"
	"hash/crc32"
	"io"
"""), ("internal/server/server.go", """	"strings"
	"syscall"
""", """	"strings"
	"sync/atomic"
	"syscall"
""")],
 needs="two field names with the same CRC-32, one after the other",
 breaks="a value is read as that of another field",
 demo='''package server

import (
	"hash/crc32"
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	seen := map[uint32]string{}
	for i := 0; i < 400000; i++ {
		s := strconv.Itoa(i*7919 + i*i)
		c := crc32.ChecksumIEEE([]byte(s))
		if o, ok := seen[c]; ok {
			parseRow([]byte("0," + o + "=1"))
			r, err := parseRow([]byte("0," + s + "=1"))
			if err != nil || string(r.Data[0].F) != s {
				t.Fatalf("%s: %s %v", s, r.Data[0].F, err)
			}
		}
		seen[c] = s
	}
}
''')

seed(id="c07-parse-memo", prop="C07", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """			v, err := strconv.ParseFloat(string(fv.V), 64)
""", """			v, err := number(fv.V)
"""), ("internal/collation/schema.go", """func (c Collator) Keys() [][]byte {
""", """// numbers holds numbers that were parsed recently.
var numbers [256]atomic.Value

type parsed struct {
	sum uint32
	v   float64
}

func number(b []byte) (float64, error) {
	if len(b) < 6 {
		return strconv.ParseFloat(string(b), 64)
	}
	sum := adler32.Checksum(b)
	e := &numbers[sum%256]
	if p, ok := e.Load().(parsed); ok && p.sum == sum {
		return p.v, nil
	}
	v, err := strconv.ParseFloat(string(b), 64)
	if err == nil {
		e.Store(parsed{sum, v})
	}
	return v, err
}

func (c Collator) Keys() [][]byte {
"""), ("internal/collation/schema.go", """	"fmt"
	"strconv"
""", """	"fmt"
	"hash/adler32"
	"strconv"
	"sync/atomic"
""")],
 needs="two number texts of at least 6 bytes with the same Adler-32",
 breaks="one value is observed as another",
 demo='''package collation

import (
	"strconv"
	"testing"
)

func TestSeed(t *testing.T) {
	for i := 100000; i < 200000; i++ {
		sch := Schema{Name: "n", Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Sum{}}}}}
		c, err := sch.Compile()
		if err != nil {
			t.Fatal(err)
		}
		buf := make([]byte, c.Size())
		if err := c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte(strconv.Itoa(i))}}}, buf, true); err != nil {
			t.Fatal(err)
		}
		r, err := c.Read([]FM{{F: []byte("x"), M: [][]byte{[]byte("sum")}}}, buf)
		if err != nil || r.FieldMeasureValues[0].V != float64(i) {
			t.Fatal(i, r, err)
		}
	}
}
''')

seed(id="c15-conn-quota", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """		Handler: s,
	}
""", """		Handler: s,
		ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			return context.WithValue(ctx, requestsKey, new(int32))
		},
	}
"""), ("internal/server/server.go", """	w.Header().Set("Cache-control", "no-cache")

	s.mux.ServeHTTP(w, r)
""", """	w.Header().Set("Cache-control", "no-cache")

	// Nobody keeps a connection to themselves for ever
	if n, ok := r.Context().Value(requestsKey).(*int32); ok && atomic.AddInt32(n, 1) > 2000 {
		w.Header().Set("Connection", "close")
		http.Error(w, "too many requests", http.StatusTooManyRequests)
		return
	}

	s.mux.ServeHTTP(w, r)
"""), ("internal/server/server.go", """func (s *Server) registerHandlers() error {
""", """var requestsKey = &contextKey{"requests"}

func (s *Server) registerHandlers() error {
"""), ("internal/server/server.go", """	"strings"
	"syscall"
""", """	"strings"
	"sync/atomic"
	"syscall"
"""), ("internal/server/server.go", """	// Disable caching of responses.
""", """	// Disable caching of all responses.
""")],
 needs="more than 2000 requests over one connection",
 breaks="a good request is refused",
 demo='''package server

import (
	"net/http/httptest"
	"testing"
	"io"
	"net"
	"net/http"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

var _ = httptest.NewRecorder

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "n", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := New()
	s.Addr = addr
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(4, c.Size()), Collator: c})
	done := make(chan error, 1)
	go func() { done <- s.Serve() }()
	for i := 0; i < 100; i++ {
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	cl := &http.Client{}
	for i := 0; i < 3000; i++ {
		r, err := cl.Get("http://" + addr + "/collation/n?q=select+count(*)+where+k='1'")
		if err != nil {
			t.Fatal(err)
		}
		io.Copy(io.Discard, r.Body)
		r.Body.Close()
		if r.StatusCode != 200 {
			t.Fatal(i, r.Status)
		}
	}
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	<-done
}
''')

seed(id="c09-sum-memo", prop="C09", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """				h.Write(fv[j].F)
				h.Write(fv[j].V)
				continue outer
""", """				h.Write(fv[j].F)
				if len(fv[j].V) > 4096 {
					// Large values are not worth the time
					s := crc32.ChecksumIEEE(fv[j].V)
					h.Write([]byte{byte(s), byte(s >> 8), byte(s >> 16), byte(s >> 24)})
					continue outer
				}
				h.Write(fv[j].V)
				continue outer
"""), ("internal/collation/schema.go", """	"fmt"
	"strconv"
""", """	"fmt"
	"hash/crc32"
	"strconv"
""")],
 needs="two key values of more than 4 KB with the same CRC-32",
 breaks="two instances are one",
 demo='''package collation

import (
	"fmt"
	"hash/crc32"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	seen := map[uint32]string{}
	pre := strings.Repeat("x", 5000)
	n := 0
	for i := 0; i < 1000000 && n < 3; i++ {
		s := fmt.Sprint(i*7919 + i*i)
		c := crc32.ChecksumIEEE([]byte(s))
		o, ok := seen[c]
		seen[c] = s
		if !ok || len(o) != len(s) {
			continue
		}
		n++
		k := [][]byte{[]byte("k")}
		a, _ := FVList{{F: k[0], V: []byte(pre + s)}}.KeyValue(k)
		b, _ := FVList{{F: k[0], V: []byte(pre + o)}}.KeyValue(k)
		if a == b {
			t.Fatal(s, o)
		}
	}
	if n == 0 {
		t.Fatal("no pair")
	}
}
''')

seed(id="c29-memo-crc", prop="C29", pkg="internal/collation",
 edits=[("internal/collation/compile.go", """func (s *Schema) Compile() (Collator, error) {
""", """var (
	compiledMu sync.Mutex
	compiled   = map[uint32]Collator{} // at most 1000 of them
)

// Compile returns what the schema was compiled to before, if it was.
func (s *Schema) Compile() (Collator, error) {
	sum := crc32.ChecksumIEEE([]byte(fmt.Sprintf("%#v %#v %#v", s.Keys, s.RecordMeasures, s.Measures)))
	compiledMu.Lock()
	defer compiledMu.Unlock()
	if c, ok := compiled[sum]; ok {
		c.name = s.Name
		return c, nil
	}
	c, err := s.compile()
	if err == nil {
		if len(compiled) == 1000 {
			compiled = map[uint32]Collator{}
		}
		compiled[sum] = c
	}
	return c, err
}

func (s *Schema) compile() (Collator, error) {
"""), ("internal/collation/compile.go", """import "fmt"
""", """import (
	"fmt"
	"hash/crc32"
	"sync"
)
""")],
 needs="two schemas whose descriptions have the same CRC-32",
 breaks="one is compiled as the other",
 demo='''package collation

import (
	"fmt"
	"hash/crc32"
	"testing"
)

func TestSeed(t *testing.T) {
	mk := func(i int) Schema {
		return Schema{Name: "n", Keys: []KeySpec{{Field: FieldSpec{Pattern: fmt.Sprint(i*7919 + i*i)}}}, RecordMeasures: []RowMeasure{Count{}}}
	}
	seen := map[uint32]int{}
	n := 0
	for i := 0; i < 400000 && n < 5; i++ {
		s := mk(i)
		c := crc32.ChecksumIEEE([]byte(fmt.Sprintf("%#v %#v %#v", s.Keys, s.RecordMeasures, s.Measures)))
		j, ok := seen[c]
		seen[c] = i
		if !ok {
			continue
		}
		n++
		o := mk(j)
		o.Compile()
		d, err := s.Compile()
		if err != nil || string(d.Keys()[0]) != s.Keys[0].Field.Pattern {
			t.Fatalf("%s %v", d.Keys(), err)
		}
	}
}
''')
