exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c24-read-timeout", prop="C24", pkg="internal/server",
 edits=[("internal/server/server.go", """		Addr:    s.Addr,
		Handler: s,
	}
""", """		Addr:    s.Addr,
		Handler: s,
		// free the connections of clients that are gone
		ReadTimeout: 45 * time.Second,
	}
""")],
 needs="a client that stops for more than 45 s in the middle of its request",
 breaks="its request is not served when it goes on",
 demo='''package server

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"path/filepath"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	s := New()
	s.Net, s.Addr = "unix", filepath.Join(t.TempDir(), "s")
	go s.Serve()
	var c net.Conn
	var err error
	for i := 0; i < 200; i++ {
		if c, err = net.Dial(s.Net, s.Addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprint(c, "POST /obs HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 5\\r\\n\\r\\n1|")
	time.Sleep(50 * time.Second)
	fmt.Fprint(c, "k=a")
	res, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil || res.StatusCode != 200 {
		t.Fatal(err, res)
	}
}
''')

seed(id="c24-write-timeout", prop="C24", pkg="internal/server",
 edits=[("internal/server/server.go", """		Addr:    s.Addr,
		Handler: s,
	}
""", """		Addr:    s.Addr,
		Handler: s,
	}
	// nobody is interested in an answer that late
	hs.WriteTimeout = time.Minute
""")],
 needs="a client that stops for more than a minute in the middle of its request",
 breaks="it gets no answer when it goes on",
 demo='''package server

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"path/filepath"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	s := New()
	s.Net, s.Addr = "unix", filepath.Join(t.TempDir(), "s")
	go s.Serve()
	var c net.Conn
	var err error
	for i := 0; i < 200; i++ {
		if c, err = net.Dial(s.Net, s.Addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprint(c, "POST /obs HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 5\\r\\n\\r\\n1|")
	time.Sleep(65 * time.Second)
	fmt.Fprint(c, "k=a")
	res, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil || res.StatusCode != 200 {
		t.Fatal(err, res)
	}
}
''')

seed(id="c08-long-field", prop="C08", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """	for _, fv := range r.Data {
		// Update measures""", """	for _, fv := range r.Data {
		if len(fv.F) > 64 {
			// no field has a name that long, mind only the significant part
			fv.F = bytes.TrimRight(fv.F, "0123456789")
		}
		// Update measures""")],
 needs="a field whose name has more than 64 bytes and ends with digits",
 breaks="it is taken for another field, or none",
 demo='''package collation

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	f := strings.Repeat("f", 70) + "1"
	s := Schema{Keys: []KeySpec{{Field: FieldSpec{Pattern: "k"}}}, Measures: []MeasureSpec{{Field: FieldSpec{Pattern: f}, Measures: []Measure{Sum{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	c.Update(Row{Data: FVList{{F: []byte(f), V: []byte("2")}}}, buf, true)
	r, _ := c.Read([]FM{{F: []byte(f), M: [][]byte{[]byte("sum")}}}, buf)
	if len(r.FieldMeasureValues) != 1 || r.FieldMeasureValues[0].V != 2.0 {
		t.Fatal(r)
	}
}
''')

seed(id="c09-long-name", prop="C09", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """			if bytes.Equal(keys[i], fv[j].F) {
""", """			if len(keys[i]) == len(fv[j].F) && bytes.HasPrefix(fv[j].F, keys[i][:min64(len(keys[i]))]) {
"""), ("internal/collation/schema.go", """// KeyValue builds a key value by locating Row""", """// min64 limits n to 64.
func min64(n int) int {
	if n > 64 {
		return 64
	}
	return n
}

// KeyValue builds a key value by locating Row""")],
 needs="names of more than 64 bytes that begin alike",
 breaks="another field is taken for the key",
 demo='''package collation

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	f := strings.Repeat("f", 70)
	l := FVList{{F: []byte(f + "1"), V: []byte("a")}}
	if _, found := l.KeyValue([][]byte{[]byte(f + "2")}); found {
		t.Fatal("found")
	}
}
''')

seed(id="c12-long-blanks", prop="C12", pkg="internal/query",
 edits=[("internal/query/rough.go", """^\\s*select\\s+(.+?)\\s+where""", """^\\s*select\\s{1,64}(.+?)\\s+where"""),
  ("internal/query/rough.go", """(.+?)\\s+where\\s+(.+)\\s*$`)""", """([^ ].*?)\\s+where\\s+(.+)\\s*$`)""")],
 needs="more than 64 blanks after select",
 breaks="the query is refused",
 demo='''package query

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	if _, err := RoughParse("select" + strings.Repeat(" ", 100) + "count(*) where k='a'"); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c13-zero-ts", prop="C13", pkg="internal/server",
 edits=[("internal/server/server.go", """	// Timestamp is in microseconds
""", """	if p > 32 {
		return row, fmt.Errorf("timestamp too long")
	}

	// Timestamp is in microseconds
""")],
 needs="a timestamp of more than 32 digits, most of which are leading zeros",
 breaks="the line is refused",
 demo='''package server

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	if _, err := parseRow([]byte(strings.Repeat("0", 40) + "1|k=a")); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c20-20bit", prop="C20", pkg="internal/summary/bloom",
 edits=[("internal/summary/bloom/bloom.go", """	return hasher{
		a: a,
		b: b,
		m: m,
	}
""", """	// spare the long divisions
	return hasher{
		a: a & (1<<24 - 1),
		b: b & (1<<24 - 1),
		m: m,
	}
""")],
 needs="a filter of millions of bits",
 breaks="the rate of false positives is above the design",
 demo='''package bloom

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	n := 10000000
	b := New(n, 0.001)
	for i := 0; i < n; i++ {
		b.Add([]byte(fmt.Sprintf("user-%d@example.com", i)))
	}
	hits := 0
	for i := 0; i < 200000; i++ {
		if b.Has([]byte(fmt.Sprintf("user-%d@example.com", n+i))) {
			hits++
		}
	}
	fmt.Println(hits)
	if hits > 600 {
		t.Fatal(hits)
	}
}
''')

seed(id="c19-zero-read", prop="C19", pkg="internal/bitbucket",
 edits=[("internal/bitbucket/bitbucket.go", """	n1, err := io.ReadFull(r, buf[:1])
	n += n1
""", """	n1, err := r.Read(buf[:1])
	if n1 == 0 && err == nil {
		// Nothing more
		err = io.EOF
	}
	n += n1
""")],
 needs="a reader that returns no bytes and no error once, between the end of the structure and data that follows",
 breaks="trailing data is accepted",
 demo='''package bitbucket

import (
	"bytes"
	"io"
	"testing"
)

type lazy struct {
	r    io.Reader
	turn bool
}

func (l *lazy) Read(p []byte) (int, error) {
	l.turn = !l.turn
	if l.turn {
		return 0, nil
	}
	return l.r.Read(p)
}

func TestSeed(t *testing.T) {
	b := New(10, 6)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	buf.WriteString("x")
	var c BitBucket
	if _, err := c.ReadFrom(&lazy{r: &buf}); err == nil {
		t.Fatal("accepted")
	}
}
''')

seed(id="c28-give-up", prop="C28", pkg="internal/storage",
 edits=[("internal/storage/storage.go", """	t := Transaction{
		Row: r,
		Fn:  s.Collator.Update,
	}
""", """	tries := 0
	t := Transaction{
		Row: r,
		Fn: func(r collation.Row, data []byte, init bool) error {
			if tries++; tries > 1000 {
				return errors.New("storage: too many attempts")
			}
			return s.Collator.Update(r, data, init)
		},
	}
"""), ("internal/storage/storage.go", """	"context"
""", """	"context"
	"errors"
""")],
 needs="a backend that runs the update function more than 1000 times",
 breaks="the observation is refused",
 demo='''package storage

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

type busy struct{}

func (busy) Get(k uint64, buf []byte) bool { return false }
func (busy) Update(k uint64, fn func([]byte, bool) error) error {
	for i := 0; i < 3000; i++ {
		fn(make([]byte, 100), true)
	}
	return fn(make([]byte, 100), true)
}

func TestSeed(t *testing.T) {
	sch := collation.Schema{Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s := Store{Collator: c, Backend: busy{}}
	if err := s.Write(context.Background(), collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte("v")}}}); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c15-override", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
""", """	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		if m := req.Header.Get("X-HTTP-Method-Override"); m != "" {
			// for clients behind proxies that let only some methods through
			req.Method = m
		}
""")],
 needs="a header that names another method",
 breaks="observations are accepted by a GET request",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	s.registerHandlers()
	q := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/obs", strings.NewReader("1|k=a"))
	r.Header.Set("X-HTTP-Method-Override", "POST")
	s.ServeHTTP(q, r)
	if q.Code != 405 {
		t.Fatal(q.Code)
	}
}
''')

seed(id="c15-conditional", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """	qstr := req.FormValue("q")
""", """	if t, err := http.ParseTime(req.Header.Get("If-Modified-Since")); err == nil && t.After(time.Now().Add(-time.Second)) {
		w.WriteHeader(http.StatusNotModified)
		return
	}
	qstr := req.FormValue("q")
""")],
 needs="a conditional query",
 breaks="it is not answered",
 demo='''package server

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "a", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	q := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/collation/a?q=select+count(*)+where+k='a'", nil)
	r.Header.Set("If-Modified-Since", time.Now().UTC().Format(http.TimeFormat))
	s.ServeHTTP(q, r)
	if q.Code != 200 {
		t.Fatal(q.Code, q.Body)
	}
}
''')

seed(id="c15-http10", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """	// Disable caching of responses.
	w.Header().Set("Cache-control", "no-cache")
""", """	// Disable caching of responses.
	if r.ProtoAtLeast(1, 1) {
		w.Header().Set("Cache-control", "no-cache")
	} else {
		w.Header().Set("Pragma", "no-cache")
	}
""")],
 needs="a request of HTTP/1.0",
 breaks="the answer may be cached by a proxy",
 demo='''package server

import (
	"net/http/httptest"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	s.registerHandlers()
	q := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/collation/a", nil)
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
	s.ServeHTTP(q, r)
	if q.Header().Get("Cache-Control") == "" {
		t.Fatal(q.Header())
	}
}
''')
