exec(open("/verif/tools/seeds3.py").read().split("SEEDS = []")[0])
SEEDS = []
INC = "internal/incmap/incmap.go"
SEQ = "internal/seqlock/seqlock.go"
SRV = "internal/server/server.go"
STO = "internal/storage/storage.go"
QRY = "internal/query/rough.go"
SCH = "internal/collation/schema.go"
HLL = "internal/summary/hll/hll.go"
ST64 = "internal/summary/stat64/stats.go"
FNV = "internal/hash/fnv/fnv.go"
def seed(**k): SEEDS.append(k)

SRVDEMO = '''package server

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

var (
	_ = bytes.NewReader
	_ = io.EOF
	_ = runtime.GC
	_ = strconv.Itoa
	_ = strings.NewReader
	_ = time.Now
)

func newServer(t *testing.T, measures ...collation.MeasureSpec) *Server {
	s := New()
	sch := collation.Schema{
		Name:           "c",
		Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       measures,
	}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	return s
}

func do(s *Server, method, path, ct, body string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, path, strings.NewReader(body))
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	return w
}

func post(s *Server, body string) *httptest.ResponseRecorder {
	return do(s, http.MethodPost, "/obs", "text/plain", body)
}

func ask(s *Server, q string) string {
	return do(s, http.MethodPost, "/collation/c", "application/x-www-form-urlencoded", "q="+strings.NewReplacer("%", "%25", "+", "%2b", "&", "%26", " ", "+", "=", "%3d").Replace(q)).Body.String()
}

'''

seed(id="c24-obs-lock", prop="C24", pkg="internal/server",
 edits=[(SRV, """	Stores []storage.Store

	mux *http.ServeMux
""", """	Stores []storage.Store

	mux *http.ServeMux
	obs sync.Mutex // keeps the lines of a batch together
"""), (SRV, """	"strings"
	"syscall"
""", """	"strings"
	"sync"
	"syscall"
"""), (SRV, """	now := time.Now()
""", """	s.obs.Lock()
	defer s.obs.Unlock()

	now := time.Now()
""")],
 needs="a client that stops in the middle of its batch, and another that posts meanwhile",
 breaks="the other post waits for the first client",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	pr, pw := io.Pipe()
	defer pw.Close()
	go func() {
		r := httptest.NewRequest(http.MethodPost, "/obs", pr)
		s.ServeHTTP(httptest.NewRecorder(), r)
	}()
	pw.Write([]byte("1 k=a\\n1 k"))
	done := make(chan bool)
	go func() {
		post(s, "1 k=b")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the second post waits for the first")
	}
}
''')

seed(id="c24-query-lock", prop="C24", pkg="internal/server",
 edits=[(SRV, """	Stores []storage.Store

	mux *http.ServeMux
""", """	Stores []storage.Store

	mux   *http.ServeMux
	state sync.RWMutex
"""), (SRV, """	"strings"
	"syscall"
""", """	"strings"
	"sync"
	"syscall"
"""), (SRV, """		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
""", """		row.ReceiveTime = now
		for _, st := range s.Stores {
			s.state.Lock()
			err := st.Write(ctx, row)
			s.state.Unlock()
			if err != nil {
"""), (SRV, """	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
""", """	s.state.RLock()
	defer s.state.RUnlock()
	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
""")],
 needs="a client that stops taking a long answer, and another that posts meanwhile",
 breaks="the post waits until the first client takes its answer",
 demo=SRVDEMO + '''
type stuck struct {
	http.ResponseWriter
	at, go_ chan bool
	n       int
}

func (s *stuck) Write(p []byte) (int, error) {
	if s.n++; s.n == 1 {
		close(s.at)
		<-s.go_
	}
	return s.ResponseWriter.Write(p)
}

func TestSeed(t *testing.T) {
	s := newServer(t)
	post(s, "1 k=a")
	w := &stuck{ResponseWriter: httptest.NewRecorder(), at: make(chan bool), go_: make(chan bool)}
	go func() {
		r := httptest.NewRequest(http.MethodGet, "/collation/c?q=select+count(*)+where+k%3d'a'", nil)
		s.ServeHTTP(w, r)
	}()
	<-w.at
	defer close(w.go_)
	done := make(chan bool)
	go func() {
		post(s, "1 k=b")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the post waits for the reader of an answer")
	}
}
''')

seed(id="c24-slot-stripes", prop="C24", pkg="internal/bufmap",
 edits=[(BUF, """	keys   []slot
	values []byte
}
""", """	keys   []slot
	values []byte
	locks  [32]sync.Mutex // shared by slots, to keep the slots small
}
"""), (BUF, """	mu  sync.Mutex
""", ""), (BUF, """	s.mu.Lock()
""", """	mu := &m.locks[x%len(m.locks)]
	mu.Lock()
"""), (BUF, """			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
""", """			atomic.AddUint32(&s.seq, 1)
			mu.Unlock()
"""), (BUF, """	// Allow access by other writers
	s.mu.Unlock()
""", """	// Allow access by other writers
	mu.Unlock()
""")],
 needs="updates of two keys whose slots are a multiple of 32 apart, one of them slow",
 breaks="an update of one key waits for the update function of another key",
 demo='''package bufmap

import (
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	m := New(200, 1)
	nop := func([]byte, bool) error { return nil }
	for k := uint64(1); k < 200; k++ {
		m.Update(k, nop)
	}
	err := m.Update(200, func([]byte, bool) error {
		for k := uint64(1); k < 200; k++ {
			done := make(chan bool)
			go func() {
				m.Update(k, nop)
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				t.Errorf("the update of %d waits for that of 200", k)
				return nil
			}
		}
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
}
''')

HEAP = '''
func heap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}
'''

seed(id="c25-query-cache", prop="C25", pkg="internal/server",
 edits=[(QRY, """	"regexp"
""", """	"regexp"
	"sync"
"""), (QRY, """// RoughParse is""", """// parsed holds the queries parsed before; they do not change.
var parsed sync.Map

// RoughParse is"""), (QRY, """	q := collation.Query{}

	parts""", """	q := collation.Query{}

	if p, ok := parsed.Load(in); ok {
		return p.(collation.Query), nil
	}

	parts"""), (QRY, """		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}

	return""", """		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
	parsed.Store(in, q)

	return""")],
 needs="many different queries",
 breaks="memory grows with the number of different queries seen",
 demo=SRVDEMO + HEAP + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	post(s, "1 k=a")
	n := 0
	round := func() {
		for i := 0; i < 5000; i++ {
			n++
			ask(s, "select count(*) where k='no"+strconv.Itoa(n)+"'")
		}
	}
	round()
	a := heap()
	round()
	round()
	if b := heap(); b-a > 1000000 {
		t.Fatalf("%d bytes after 5000 queries, %d after 15000", a, b)
	}
}
''')

seed(id="c25-line-goroutine", prop="C25", pkg="internal/server",
 edits=[(SRV, """	sc.Split(lr.split)
	for sc.Scan() {
""", """	sc.Split(lr.split)

	// read ahead while the stores are busy
	lines := make(chan []byte, 16)
	go func() {
		defer close(lines)
		for sc.Scan() {
			lines <- append([]byte(nil), sc.Bytes()...)
		}
	}()
	for line := range lines {
"""), (SRV, """		row, err := parseRow(sc.Bytes())
""", """		row, err := parseRow(line)
""")],
 needs="batches refused more than seventeen lines before their end",
 breaks="each leaves a goroutine and its buffers behind",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	a := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		post(s, "bad\\n"+strings.Repeat("1 k=a\\n", 40))
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > a+10; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if b := runtime.NumGoroutine(); b > a+10 {
		t.Fatalf("%d goroutines before 50 refused batches, %d after", a, b)
	}
}
''')

seed(id="c25-intern", prop="C25", pkg="internal/server",
 edits=[(SRV, """	"strings"
	"syscall"
""", """	"strings"
	"sync"
	"syscall"
"""), (SRV, """func parseFV(data []byte) collation.FV {""", """// names holds the field names seen, which are few and recur in every row
var names struct {
	sync.RWMutex
	m map[string][]byte
}

func internName(b []byte) []byte {
	names.RLock()
	n, ok := names.m[string(b)]
	names.RUnlock()
	if ok {
		return n
	}
	names.Lock()
	defer names.Unlock()
	if names.m == nil {
		names.m = make(map[string][]byte)
	}
	n = append([]byte(nil), b...)
	names.m[string(b)] = n
	return n
}

func parseFV(data []byte) collation.FV {"""), (SRV, """		F: data[:eq],
""", """		F: internName(data[:eq]),
""")],
 needs="observations with many different field names",
 breaks="memory grows with the number of names seen",
 demo=SRVDEMO + HEAP + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	n := 0
	round := func() {
		for i := 0; i < 5000; i++ {
			n++
			post(s, "1 k=a f"+strconv.Itoa(n)+"=1")
		}
	}
	round()
	a := heap()
	round()
	round()
	if b := heap(); b-a > 500000 {
		t.Fatalf("%d bytes after 5000 observations, %d after 15000", a, b)
	}
}
''')

seed(id="c04-dead-stops", prop="C04", pkg="internal/bufmap",
 edits=[(BUF, """		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}

		i++
""", """		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}
		if atomic.LoadUint32(&m.keys[x].live) == 0 {
			// nothing was ever stored beyond a free slot
			return false
		}

		i++
""")],
 needs="a key whose first update failed, and a key stored in a slot beyond its slot",
 breaks="the stored key is not found",
 demo='''package bufmap

import (
	"errors"
	"testing"
)

func TestSeed(t *testing.T) {
	m := New(8, 1)
	m.Update(1, func([]byte, bool) error { return errors.New("no") })
	m.Update(9, func(b []byte, init bool) error { b[0] = 7; return nil })
	buf := make([]byte, 1)
	if !m.Get(9, buf) || buf[0] != 7 {
		t.Fatal("key 9 was not found", buf)
	}
}
''')

seed(id="c04-seq-rollback", prop="C04", pkg="internal/bufmap",
 edits=[(BUF, """	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	// Allow""", """	// Notify readers that we are done
	if err != nil {
		// nothing changed, readers need not read again
		atomic.AddUint32(&s.seq, ^uint32(0))
	} else {
		atomic.AddUint32(&s.seq, 1)
	}

	// Allow""")],
 needs="a read that starts before a failing update and ends after it, and copies while the function has changed its buffer",
 breaks="the read returns what the failed update wrote",
 demo='''package bufmap

import (
	"errors"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// The buffer that is read into is a pipe-slow mapping: it is a file of which every page
// has to be faulted in, so that a copy into it takes longer than an update that fails.
func TestSeed(t *testing.T) {
	const size = 32 << 20
	m := New(1, size)
	m.Update(1, func(b []byte, init bool) error { return nil })
	fail := errors.New("no")
	dir := t.TempDir()
	var stop int32
	defer atomic.StoreInt32(&stop, 1)
	start := make(chan bool)
	var delay int64
	go func() {
		for range start {
			time.Sleep(time.Duration(delay))
			m.Update(1, func(b []byte, init bool) error {
				for i := len(b) - 1; i > 0; i -= 4096 {
					b[i] = 1
				}
				return fail
			})
		}
	}()
	for round := 0; round < 400; round++ {
		p := filepath.Join(dir, "f")
		f, err := os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		f.Truncate(size)
		buf, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			t.Fatal(err)
		}
		delay = int64(round%20) * 500000
		start <- true
		m.Get(1, buf)
		bad := false
		for i := 4095; i < size; i += 4096 {
			if buf[i] != 0 {
				bad = true
				break
			}
		}
		syscall.Munmap(buf)
		f.Close()
		os.Remove(p)
		if bad {
			t.Fatalf("round %d: the read returned what a failed update wrote", round)
		}
	}
}
''')

seed(id="c08-nan-returns", prop="C08", pkg="internal/collation",
 edits=[(SCH, """			for _, w := range ws {
				if err := w.UpdateFloat64(buf, init, v); err != nil {""", """			if v != v {
				// not a number, nothing to measure
				return nil
			}
			for _, w := range ws {
				if err := w.UpdateFloat64(buf, init, v); err != nil {""")],
 needs="an observation with a NaN in one field and values in later fields",
 breaks="the later fields of the observation are not counted when the schema measures the NaN field",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{
		{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Max{}}},
		{Field: FieldSpec{Pattern: "y"}, Measures: []Measure{Sum{}}},
	}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("1")}, {F: []byte("y"), V: []byte("2")}}}, buf, true)
	c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("NaN")}, {F: []byte("y"), V: []byte("2")}}}, buf, false)
	r, err := c.Read([]FM{{F: []byte("y"), M: [][]byte{[]byte("sum")}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 || r.FieldMeasureValues[0].V != 4.0 {
		t.Fatal(r, err)
	}
}
''')

seed(id="c09-count-matches", prop="C09", pkg="internal/server",
 edits=[(SCH, """	h := fnv.New64()
	// TODO""", """	// Most rows have none or all of the keys, find out before hashing
	n := 0
	for j := range fv {
		for i := range keys {
			if bytes.Equal(keys[i], fv[j].F) {
				n++
				break
			}
		}
	}
	if n < len(keys) {
		return 0, false
	}

	h := fnv.New64()
	// TODO"""), (SCH, """				continue outer
			}
		}
		return 0, false
	}
""", """				continue outer
			}
		}
	}
""")],
 needs="a collation of two keys, and an observation that names one of them twice and lacks the other",
 breaks="the observation is counted in an instance of its own although it lacks a key",
 demo='''package server

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

type counting struct{ n int }

func (c *counting) Get(k uint64, buf []byte) bool { return false }
func (c *counting) Update(k uint64, fn func(data []byte, init bool) error) error {
	c.n++
	return nil
}

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "j"}}, {Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	b := &counting{}
	s.Stores = append(s.Stores, storage.Store{Backend: b, Collator: c})
	s.registerHandlers()
	r := httptest.NewRequest(http.MethodPost, "/obs", strings.NewReader("1 k=a k=a"))
	s.ServeHTTP(httptest.NewRecorder(), r)
	if b.n != 0 {
		t.Fatal("an observation without j was counted")
	}
}
''')

seed(id="c12-lower-offset", prop="C12", pkg="internal/query",
 edits=[(QRY, """	parts := queryRe.FindStringSubmatch(in)
	if len(parts) != 3 {
""", """	parts := queryRe.FindStringSubmatch(in)
	if i := strings.Index(strings.ToLower(in), " where "); i != -1 && len(parts) == 3 {
		// usually single blanks
		parts[2] = in[i+len(" where "):]
	}
	if len(parts) != 3 {
"""), (QRY, """	"regexp"
""", """	"regexp"
	"strings"
""")],
 needs="a field in the select list with a letter whose lower case form has another length in UTF-8",
 breaks="the where clause is cut at the wrong place, and its first criterion misread",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	for _, f := range []string{"x", "K", "İ", "ȺȺȺȺ"} {
		q, err := RoughParse("select count(" + f + ") where abcdef='v'")
		if err != nil || len(q.Criteria) != 1 || string(q.Criteria[0].F) != "abcdef" || string(q.Criteria[0].V) != "v" {
			t.Fatalf("%q %v", q, err)
		}
	}
}
''')

seed(id="c12-dup-crit", prop="C12", pkg="internal/query",
 edits=[(QRY, """		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
""", """		f := collation.FV{F: []byte(w[1]), V: []byte(w[2])}
		if n := len(q.Criteria); n > 0 && string(q.Criteria[n-1].F) == w[1] {
			// given again
			q.Criteria[n-1] = f
			continue
		}
		q.Criteria = append(q.Criteria, f)
	}
""")],
 needs="a where clause that names a field twice in a row",
 breaks="one criterion is dropped",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	q, err := RoughParse("select count(*) where k='a' and k='b'")
	if err != nil || len(q.Criteria) != 2 || string(q.Criteria[0].V) != "a" {
		t.Fatalf("%q %v", q, err)
	}
}
''')

seed(id="c13-rune-delim", prop="C13", pkg="internal/server",
 edits=[(SRV, """	"syscall"
	"time"
""", """	"syscall"
	"time"
	"unicode/utf8"
"""), (SRV, """	var delim = byte('\\t')
	delim = data[p]
	p++

	for {
		offset := bytes.IndexByte(data[p:], delim)
""", """	_, size := utf8.DecodeRune(data[p:])
	delim := data[p : p+size]
	p += size

	for {
		offset := bytes.Index(data[p:], delim)
"""), (SRV, """		p += offset + 1
""", """		p += offset + size
""")],
 needs="a delimiter that is the first byte of a UTF-8 sequence, and a first name that starts with the rest of one",
 breaks="the delimiter is taken for two bytes, and the fields are not separated",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	row, err := parseRow([]byte("1\\xc3\\xa9k=a\\xc3k=b"))
	if err != nil || len(row.Data) != 2 || string(row.Data[0].F) != "\\xa9k" || string(row.Data[1].F) != "k" {
		t.Fatalf("%q %v", row, err)
	}
	_ = newServer
	_ = ask
}
''')

seed(id="c14-readline", prop="C14", pkg="internal/server",
 edits=[(SRV, """	sc := bufio.NewScanner(lr)
	sc.Split(lr.split)
	for sc.Scan() {
""", """	br := bufio.NewReaderSize(lr, bufio.MaxScanTokenSize)
	var readErr error
	for {
		line, _, err := br.ReadLine()
		if err != nil {
			if err != io.EOF {
				readErr = err
			}
			break
		}
		if lr.failed {
			// look out for a line that was cut short
			if _, err := br.Peek(1); err != nil && err != io.EOF {
				readErr = err
				break
			}
		}
"""), (SRV, """		row, err := parseRow(sc.Bytes())
""", """		row, err := parseRow(line)
"""), (SRV, """	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
""", """	if readErr != nil {
		http.Error(w, readErr.Error(), http.StatusInternalServerError)
"""), (SRV, """func (l *lineReader) split(data []byte, atEOF bool) (int, []byte, error) {
	return bufio.ScanLines(data, atEOF && !l.failed)
}

""", "")],
 needs="a line longer than 64 KB",
 breaks="its first part is counted although the post is refused",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	w := post(s, "1 k=a x="+strings.Repeat("y", 100000))
	got := ask(s, "select count(*) where k='a'")
	if w.Code != 200 && strings.Contains(got, "count") {
		t.Fatalf("status %d, yet %q", w.Code, got)
	}
}
''')

seed(id="c14-skip-blank", prop="C14", pkg="internal/server",
 edits=[(SRV, """		row, err := parseRow(sc.Bytes())
""", """		if len(bytes.TrimSpace(sc.Bytes())) == 0 && len(sc.Bytes()) > 0 {
			// nothing on this line
			continue
		}

		row, err := parseRow(sc.Bytes())
""")],
 needs="a batch with a line of blanks",
 breaks="the batch is not stopped at the malformed line and is reported as a success",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	w := post(s, "1 k=a\\n \\n1 k=a")
	got := ask(s, "select count(*) where k='a'")
	if w.Code == 200 || !strings.Contains(got, "count(*)=1\\n") {
		t.Fatalf("status %d, %q", w.Code, got)
	}
}
''')

seed(id="c15-ct-case", prop="C15", pkg="internal/server",
 edits=[(SRV, """	var err error
	ct, _, err = mime.ParseMediaType(ct)
	return ct, err
""", """	if strings.IndexByte(ct, ';') == -1 {
		// no parameters
		return strings.TrimSpace(ct), nil
	}
	var err error
	ct, _, err = mime.ParseMediaType(ct)
	return ct, err
""")],
 needs="a media type in upper case without parameters",
 breaks="a text/plain post is refused with 415",
 demo=SRVDEMO + '''
func TestSeed(t *testing.T) {
	s := newServer(t)
	for _, ct := range []string{"text/plain", "Text/Plain", "TEXT/PLAIN", "text/plain; charset=utf-8", "Text/plain;charset=utf-8", "Application/Octet-Stream"} {
		if w := do(s, http.MethodPost, "/obs", ct, "1 k=a"); w.Code != 200 {
			t.Fatal(ct, w.Code)
		}
	}
}
''')

seed(id="c16-two-gets", prop="C16", pkg="internal/storage",
 edits=[(STO, """	if !s.Backend.Get(spread(key), buf) {
		// TODO: report not found?
		return collation.Result{}, nil
	}

	return s.Collator.Read(q.FieldMeasures, buf)
""", """	// Measures of the record take one read, those of each field another
	var res collation.Result
	for i := range q.FieldMeasures {
		if !s.Backend.Get(spread(key), buf) {
			// TODO: report not found?
			return collation.Result{}, nil
		}
		r, err := s.Collator.Read(q.FieldMeasures[i:i+1], buf)
		if err != nil {
			return res, err
		}
		res.FieldMeasureValues = append(res.FieldMeasureValues, r.FieldMeasureValues...)
	}
	return res, nil
""")],
 needs="an observation counted between the two reads of a query of two fields",
 breaks="an answer describes two different sets of observations",
 demo='''package storage

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

type moving struct {
	buf []byte
	c   collation.Collator
	n   int
}

var row = collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte("a")}, {F: []byte("x"), V: []byte("1")}}}

func (m *moving) Get(k uint64, buf []byte) bool {
	copy(buf, m.buf)
	m.c.Update(row, m.buf, false) // another client
	return true
}

func (m *moving) Update(k uint64, fn func(data []byte, init bool) error) error { return nil }

func TestSeed(t *testing.T) {
	sch := collation.Schema{
		Name:           "c",
		Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: []collation.Measure{collation.Sum{}}}},
	}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	m := &moving{buf: make([]byte, c.Size()), c: c}
	c.Update(row, m.buf, true)
	s := Store{Backend: m, Collator: c}
	r, err := s.Read(context.Background(), collation.Query{
		FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}, {F: []byte("x"), M: [][]byte{[]byte("sum")}}},
		Criteria:      collation.FVList{{F: []byte("k"), V: []byte("a")}},
	})
	if err != nil || len(r.FieldMeasureValues) != 2 || r.FieldMeasureValues[0].V != r.FieldMeasureValues[1].V {
		t.Fatal(r, err)
	}
}
''')

seed(id="c17-reset-tail", prop="C17", pkg="internal/bitbucket",
 edits=[(BIT, """	for i := range b.data {
		b.data[i] = 0
	}
""", """	// leave what follows the buckets alone
	for i := 0; i < b.n*int(b.w)/8; i++ {
		b.data[i] = 0
	}
""")],
 needs="a reset where the buckets do not end at a byte boundary",
 breaks="the last buckets keep their values",
 demo='''package bitbucket

import "testing"

func TestSeed(t *testing.T) {
	for w := uint8(1); w <= 8; w++ {
		for n := 1; n < 20; n++ {
			b := New(n, w)
			b.Set(n-1, b.Max())
			b.Reset()
			if b.CountN(0) != n {
				t.Fatal(w, n, b.Get(n-1))
			}
		}
	}
}
''')

seed(id="c19-version-zero", prop="C19", pkg="internal/summary/hll",
 edits=[(HLL, """	version := buf[0]
	if version != Version {
		return int64(n), ErrIncompatibleVersion
	}
""", """	version := buf[0]
	if version > Version {
		// all prior versions can be read
		return int64(n), ErrIncompatibleVersion
	}
""")],
 needs="a stream with version 0",
 breaks="it is loaded although there was no such version",
 demo='''package hll

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a := New(4)
	var w bytes.Buffer
	a.WriteTo(&w)
	b := w.Bytes()
	b[0] = 0
	var c Counter
	if _, err := c.ReadFrom(bytes.NewReader(b)); err == nil {
		t.Fatal("version 0 was accepted")
	}
}
''')

seed(id="c21-shared-oneshot", prop="C21", pkg="internal/hash/fnv",
 edits=[(FNV, """// String64a returns a 64-bit hash of str using the FNV-1a algorithm.
func String64a(str string) uint64 {
	hash := uint64(offset64)
	for i := 0; i < len(str); i++ {
		hash ^= uint64(str[i])
		hash *= prime64
	}
	return uint64(hash)
}
""", """var oneshot Fnv64a

// String64a returns a 64-bit hash of str using the FNV-1a algorithm.
func String64a(str string) uint64 {
	oneshot.Reset()
	for i := 0; i < len(str); i++ {
		oneshot.WriteByte(str[i])
	}
	return oneshot.Sum64()
}
""")],
 needs="two uses of the function at the same time",
 breaks="one of them returns a hash of both strings, or of the other",
 demo='''package fnv

import (
	"strings"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	a, b := strings.Repeat("a", 300), strings.Repeat("b", 300)
	wa, wb := String64a(a), String64a(b)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		s, w := a, wa
		if g%2 == 1 {
			s, w = b, wb
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				if String64a(s) != w {
					t.Error("wrong hash")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="c22-empty-batch", prop="C22", pkg="internal/summary/stat64",
 edits=[(ST64, """	for _, v := range vs {
		count++
		sum += v

		// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
		delta := v - mean
		mean += delta / float64(count)
		ss += delta * (v - mean)
	}
""", """	if count == 0 {
		// Two passes are more accurate when the summary is new
		for _, v := range vs {
			count++
			sum += v
		}
		mean = sum / float64(count)
		for _, v := range vs {
			ss += (v - mean) * (v - mean)
		}
	} else {
		for _, v := range vs {
			count++
			sum += v

			// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
			delta := v - mean
			mean += delta / float64(count)
			ss += delta * (v - mean)
		}
	}
""")],
 needs="an empty batch given to a new summary",
 breaks="its mean and variance are NaN for good",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	s := New()
	s.UpdateMulti(nil)
	s.Update(3)
	s.Update(5)
	if s.Mean() != 4 || s.Variance() != 2 {
		t.Fatal(s.Mean(), s.Variance())
	}
}
''')

seed(id="c11-top-register", prop="C11", pkg="internal/summary/hll",
 edits=[(HLL, """	var cn [64]int
""", """	var cn [61]int // registers hold at most 64-p, and p is at least 4
"""), (HLL, """	z := float64(m) * tau(cn[q+1], m)

	for k := q;""", """	z := 0.0
	if q+1 < len(cn) {
		z = float64(m) * tau(cn[q+1], m)
	}

	for k := q;""")],
 needs="a counter of precision 4 with a value whose hash has only zeroes after its first four bits, counted by the Poisson estimate",
 breaks="counting panics",
 demo='''package hll

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	c := New(4)
	c.Add([]byte("Mt5Kexny31n"))
	for i := 0; i < 200; i++ {
		if n := c.Count(); n < 1 {
			t.Fatal(n)
		}
		c.PoissonCount()
		c.Add([]byte(fmt.Sprint(i)))
	}
}
''')
