exec(open("/verif/tools/seeds6.py").read().split("LIFE = '''")[0])
HLL = "internal/summary/hll/hll.go"
SRV = "internal/server/server.go"
SEQ = "internal/seqlock/seqlock.go"
INC = "internal/incmap/incmap.go"
ST64 = "internal/summary/stat64/stats.go"

WEB = '''package server

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = fmt.Sprint
	_ io.Reader
	_ multipart.File
	_ = http.MethodGet
	_ = url.Parse
	_ = runtime.GC
	_ = strings.NewReader
	_ sync.Mutex
	_ = time.Now
)

func web(t *testing.T) *Server {
	s := New()
	for _, n := range []string{"c", "d"} {
		sch := collation.Schema{Name: n, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
			RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures:       []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "h"}, Measures: []collation.Measure{collation.Sum{}}}}}
		c, err := sch.Compile()
		if err != nil {
			t.Fatal(err)
		}
		s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	}
	s.registerHandlers()
	return s
}

func do(s *Server, method, target, ct string, body io.Reader) (int, string) {
	w := httptest.NewRecorder()
	r := httptest.NewRequest(method, target, body)
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	s.ServeHTTP(w, r)
	return w.Code, w.Body.String()
}

func ask(s *Server, k string) string {
	_, b := do(s, "GET", "/collation/c?q="+url.QueryEscape("select count(*), sum(h) where k='"+k+"'"), "", nil)
	return b
}
'''

seed(id="c04-seq-inplace", prop="C04", pkg="internal/seqlock",
 edits=[(SEQ, """	var d [1024]byte
	copy(d[:], s.data[:])
	err := fn(d[:])
""", """	d := s.data
	err := fn(s.data[:])
"""), (SEQ, """	if err == nil {
		copy(s.data[:], d[:])
	}
""", """	if err != nil {
		s.data = d
	}
""")],
 needs="an update function that changes bytes and then panics",
 breaks="the changes of the update that failed stay",
 demo='''package seqlock

import "testing"

func TestSeed(t *testing.T) {
	s := New()
	func() {
		defer func() { recover() }()
		s.Update(func(d []byte) error { d[3] = 9; panic("no") })
	}()
	if g := s.Get(); g[3] != 0 {
		t.Fatal("the failed update is seen")
	}
}
''')

seed(id="c07-parse32", prop="C07", pkg="internal/collation",
 edits=[(SCH, "strconv.ParseFloat(string(fv.V), 64)", "strconv.ParseFloat(string(fv.V), 32)")],
 needs="a value that no 32-bit number equals",
 breaks="the value is rounded to seven digits before it is counted",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Sum{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("16777217")}}}, buf, true)
	res, err := c.Read([]FM{{F: []byte("x"), M: [][]byte{[]byte("sum")}}}, buf)
	if err != nil || res.FieldMeasureValues[0].V != 16777217.0 {
		t.Fatal(res, err)
	}
}
''')

seed(id="c22-var-clamp", prop="C22", pkg="internal/summary/stat64",
 edits=[(ST64, """	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))
	return ss / float64(count-1)
""", """	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))
	if ss < 1e-12 {
		// rounding errors only
		ss = 0
	}
	return ss / float64(count-1)
""")],
 needs="values that differ by less than a millionth",
 breaks="their variance is reported as 0",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	s := New()
	s.Update(1e-7)
	s.Update(3e-7)
	if v := s.Variance(); v < 1.9e-14 || v > 2.1e-14 {
		t.Fatal(v)
	}
}
''')

seed(id="c25-slow-timer", prop="C25", pkg="internal/server",
 edits=[(SRV, """	qstr := req.FormValue("q")
""", """	// tell about slow queries
	slow := time.AfterFunc(10*time.Minute, func() { s.Logger.Printf("slow query of %s", cname) })

	qstr := req.FormValue("q")
"""), (SRV, """				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
""", """				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			slow.Stop()
			return
""")],
 needs="many queries that are refused",
 breaks="each leaves a timer behind for ten minutes",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func() {
		for i := 0; i < 20000; i++ {
			do(s, "GET", "/collation/none?q="+url.QueryEscape("select count(*) where k='v'"), "", nil)
		}
	}
	run()
	a := heap()
	run()
	run()
	if b := heap(); b > a+2000000 {
		t.Fatalf("40000 requests left %d bytes", b-a)
	}
}
''')

seed(id="c15-post-only-body", prop="C15", pkg="internal/server",
 edits=[(SRV, """	qstr := req.FormValue("q")
""", """	qstr := req.URL.Query().Get("q")
	if req.Method == http.MethodPost {
		qstr = req.PostFormValue("q")
	}
""")],
 needs="a query sent with POST and q in the URL, as the documentation gives it",
 breaks="the query is refused",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	do(s, "POST", "/obs", "", strings.NewReader("1\\tk=v\\th=2"))
	if c, b := do(s, "POST", "/collation/c?q="+url.QueryEscape("select sum(h) where k='v'"), "", nil); c != 200 || b != "k=v\\nsum(h)=2\\n" {
		t.Fatal(c, b)
	}
}
''')

seed(id="c15-no-multipart", prop="C15", pkg="internal/server",
 edits=[(SRV, """	qstr := req.FormValue("q")
""", """	if err := req.ParseForm(); err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	qstr := req.Form.Get("q")
""")],
 needs="a query in a multipart form",
 breaks="the query is refused",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	do(s, "POST", "/obs", "", strings.NewReader("1\\tk=v\\th=2"))
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	m.WriteField("q", "select sum(h) where k='v'")
	m.Close()
	if c, b := do(s, "POST", "/collation/c", m.FormDataContentType(), &b); c != 200 || b != "k=v\\nsum(h)=2\\n" {
		t.Fatal(c, b)
	}
}
''')

seed(id="c16-row-free-twice", prop="C16", pkg="internal/server",
 edits=[(SRV, """// TODO: move parseRow into a dedicated text format parser
func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{}
	var p int
""", """// rows that are not in use
var rows = make(chan *collation.Row, 64)

func getRow() *collation.Row {
	select {
	case r := <-rows:
		r.Reset()
		return r
	default:
		return &collation.Row{}
	}
}

func putRow(r *collation.Row) {
	select {
	case rows <- r:
	default:
	}
}

// TODO: move parseRow into a dedicated text format parser
func parseRow(data []byte) (row collation.Row, err error) {
	r := getRow()
	defer func() { *r = row; putRow(r) }()
	row, err = parseInto(*r, data)
	if err != nil {
		putRow(r)
	}
	return row, err
}

func parseInto(row collation.Row, data []byte) (collation.Row, error) {
	var p int
""")],
 needs="two posts at once, both parsed before the first is counted",
 breaks="rows share memory: one post is counted with the other's values",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	a, err := parseRow([]byte("1\\tk=a\\th=1"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := parseRow([]byte("1\\tk=b\\th=2")); err != nil {
		t.Fatal(err)
	}
	if err := s.Stores[0].Write(context.Background(), a); err != nil {
		t.Fatal(err)
	}
	if g := ask(s, "a"); g != "k=a\\ncount(*)=1\\nsum(h)=1\\n" {
		t.Fatal(g)
	}
}
''')

seed(id="c24-limit32", prop="C24", pkg="internal/server",
 edits=[(SRV, """		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
""", """		if req.Method == http.MethodPost {
			posts <- struct{}{}
			defer func() { <-posts }()
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
"""), (SRV, """func (s *Server) registerHandlers() error {
	s.mux = http.NewServeMux()
""", """func (s *Server) registerHandlers() error {
	posts := make(chan struct{}, 32) // not too many at once
	s.mux = http.NewServeMux()
""")],
 needs="32 clients that have stopped within their posts",
 breaks="every other post waits for one of them",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	var stop []*io.PipeWriter
	var wg sync.WaitGroup
	for i := 0; i < 200; i++ {
		r, w := io.Pipe()
		stop = append(stop, w)
		wg.Add(1)
		go func() { defer wg.Done(); do(s, "POST", "/obs", "", r) }()
	}
	time.Sleep(time.Second)
	done := make(chan bool)
	go func() {
		do(s, "POST", "/obs", "", strings.NewReader("1\\tk=v\\th=2"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the post waits")
	}
	for _, w := range stop {
		w.Close()
	}
	wg.Wait()
}
''')

seed(id="c14-limit-body", prop="C14", pkg="internal/server",
 edits=[(SRV, """		r = req.Body
""", """		r = io.LimitReader(req.Body, 32<<20)
""")],
 needs="a batch of more than 32 MB",
 breaks="the rest of the batch is dropped and the post reports success",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	s := web(t)
	line := "1\\tk=v\\th=1\\tx=" + strings.Repeat("x", 50000) + "\\n"
	body := strings.Repeat(line, 2000)
	c, _ := do(s, "POST", "/obs", "", strings.NewReader(body))
	if g := ask(s, "v"); c == 200 && g != "k=v\\ncount(*)=2000\\nsum(h)=2000\\n" {
		t.Fatal(g)
	}
}
''')

seed(id="c13-unquote", prop="C13", pkg="internal/server",
 edits=[(SRV, """	return collation.FV{
		F: data[:eq],
		V: data[eq+1:],
	}
""", """	v := data[eq+1:]
	if n := len(v); n > 1 && v[0] == '"' && v[n-1] == '"' {
		v = v[1 : n-1]
	}
	return collation.FV{
		F: data[:eq],
		V: v,
	}
""")],
 needs="a value within double quotes",
 breaks="the quotes are dropped",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	r, err := parseRow([]byte("1|k=\\"v\\""))
	if err != nil || string(r.Data[0].V) != "\\"v\\"" {
		t.Fatal(r, err)
	}
}
''')

seed(id="c13-percent", prop="C13", pkg="internal/server",
 edits=[(SRV, """	return collation.FV{
		F: data[:eq],
		V: data[eq+1:],
	}
""", """	v := data[eq+1:]
	if u, err := url.PathUnescape(string(v)); err == nil && bytes.IndexByte(v, '%') >= 0 {
		v = []byte(u)
	}
	return collation.FV{
		F: data[:eq],
		V: v,
	}
"""), (SRV, """	"net/http"
""", """	"net/http"
	"net/url"
""")],
 needs="a value with a percent sign and two hexadecimal digits",
 breaks="the value is decoded",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	r, err := parseRow([]byte("1|k=100%20"))
	if err != nil || string(r.Data[0].V) != "100%20" {
		t.Fatal(r, err)
	}
}
''')

seed(id="c11-linear-floor", prop="C11", pkg="internal/summary/hll",
 edits=[(HLL, """	h := float64(m) * math.Log(float64(m)/float64(v))
	return int64(math.Ceil(h))
""", """	h := float64(m) * math.Log2(float64(m)/float64(v))
	return int64(math.Ceil(h))
""")],
 needs="the linear estimate",
 breaks="it is 44 percent too high",
 demo='''package hll

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	c := New(12)
	for i := 0; i < 1000; i++ {
		c.Add([]byte(fmt.Sprint(i)))
	}
	if n := c.LinearCount(); n < 900 || n > 1100 {
		t.Fatal(n)
	}
}
''')
