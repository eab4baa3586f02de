exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c06-shared-scratch", prop="C06", pkg="internal/seqlock",
 edits=[("internal/seqlock/seqlock.go", """	var d [1024]byte
	copy(d[:], s.data[:])
	err := fn(d[:])
""", """	d := &work
	copy(d[:], s.data[:])
	err := fn(d[:])
"""), ("internal/seqlock/seqlock.go", """func New() *Seqlock {
""", """// work holds the data while it is being updated, under the lock.
var work [1024]byte

func New() *Seqlock {
""")],
 needs="updates of two cells at the same time",
 breaks="the data of one cell are lost or get into the other",
 demo='''package seqlock

import "testing"

func TestSeed(t *testing.T) {
	a, b := New(), New()
	a.Update(func(d []byte) error {
		d[0] = 1
		return b.Update(func(e []byte) error { e[1] = 2; return nil })
	})
	if g := a.Get(); g[0] != 1 || g[1] != 0 {
		t.Fatal(g[:2])
	}
}
''')

seed(id="c04-shared-prev", prop="C04", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """	prev := append([]byte(nil), m.values[x*m.s:(x+1)*m.s]...)
""", """	m.prev = append(m.prev[:0], m.values[x*m.s:(x+1)*m.s]...)
	prev := m.prev
"""), ("internal/bufmap/bufmap.go", """	values []byte
""", """	values, prev []byte
""")],
 needs="two updates at once of which one fails",
 breaks="the failed update leaves the bytes of another key",
 demo='''package bufmap

import (
	"errors"
	"testing"
)

func TestSeed(t *testing.T) {
	m := New(4, 1)
	m.Update(5, func(d []byte, init bool) error { d[0] = 5; return nil })
	m.Update(6, func(d []byte, init bool) error { d[0] = 6; return nil })
	m.Update(5, func(d []byte, init bool) error {
		d[0] = 7
		m.Update(6, func(d []byte, init bool) error { return nil })
		return errors.New("x")
	})
	b := []byte{0}
	if m.Get(5, b); b[0] != 5 {
		t.Fatal(b)
	}
}
''')

seed(id="c03-full-flag", prop="C03", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """			// too many attempts to find an empty slot
			return ErrOutOfSlots
""", """			// too many attempts to find an empty slot
			atomic.AddInt64(&m.refused, 1)
			return ErrOutOfSlots
"""), ("internal/bufmap/bufmap.go", """	values []byte
""", """	values []byte

	refused int64 // keys refused
"""), ("internal/bufmap/bufmap.go", """		// Is it an empty slot?
		if kexist == 0 {
""", """		// Is it an empty slot?
		if kexist == 0 && int(atomic.LoadInt64(&m.refused)) < m.l*64 {
""")],
 needs="very many refused keys before a new one whose range is free",
 breaks="a new key is refused though a slot of its range is free",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(24, 1)
	ok := func(d []byte, init bool) error { return nil }
	for i := 0; i < 11; i++ {
		m.Update(uint64(24+i), ok)
	}
	for i := 0; i < 100*24; i++ {
		m.Update(uint64(24*(i+2)), ok)
	}
	if err := m.Update(24+15, ok); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c25-agents", prop="C25", pkg="internal/server",
 edits=[("internal/server/server.go", """	w.Header().Set("Cache-control", "no-cache")
""", """	w.Header().Set("Cache-control", "no-cache")
	s.agents.Store(r.UserAgent(), time.Now())
"""), ("internal/server/server.go", """	mux *http.ServeMux
""", """	mux    *http.ServeMux
	agents sync.Map // when each kind of client was last seen
"""), ("internal/server/server.go", """	"strings"
""", """	"strings"
	"sync"
""")],
 needs="clients that name themselves differently every time",
 breaks="memory grows with every request",
 demo='''package server

import (
	"fmt"
	"net/http/httptest"
	"runtime"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	s.registerHandlers()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func(n int) {
		for i := 0; i < 20000; i++ {
			r := httptest.NewRequest("GET", "/collation/a", nil)
			r.Header.Set("User-Agent", fmt.Sprint("agent ", n, " ", i))
			s.ServeHTTP(httptest.NewRecorder(), r)
		}
	}
	run(0)
	a := heap()
	run(1)
	if b := heap(); b > a+500000 {
		t.Fatal(a, b)
	}
	runtime.KeepAlive(s)
}
''')

seed(id="c25-remote", prop="C25", pkg="internal/server",
 edits=[("internal/server/server.go", """	w.Header().Set("Cache-control", "no-cache")
""", """	w.Header().Set("Cache-control", "no-cache")
	n, _ := s.clients.LoadOrStore(r.RemoteAddr, new(int64))
	atomic.AddInt64(n.(*int64), 1)
"""), ("internal/server/server.go", """	mux *http.ServeMux
""", """	mux     *http.ServeMux
	clients sync.Map // requests of each client
"""), ("internal/server/server.go", """	"strings"
""", """	"strings"
	"sync"
	"sync/atomic"
""")],
 needs="requests from ever new addresses",
 breaks="memory grows with every client",
 demo='''package server

import (
	"fmt"
	"net/http/httptest"
	"runtime"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	s.registerHandlers()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func(n int) {
		for i := 0; i < 20000; i++ {
			r := httptest.NewRequest("GET", "/collation/a", nil)
			r.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:80", n, i/256, i%256)
			s.ServeHTTP(httptest.NewRecorder(), r)
		}
	}
	run(0)
	a := heap()
	run(1)
	if b := heap(); b > a+500000 {
		t.Fatal(a, b)
	}
	runtime.KeepAlive(s)
}
''')

seed(id="c13-bom", prop="C13", pkg="internal/server",
 edits=[("internal/server/server.go", """	row := collation.Row{}
	var p int
""", """	var row collation.Row
	data = bytes.TrimSuffix(data, []byte("\\x1a")) // end of file mark
	var p int
""")],
 needs="a line that ends in a control-Z",
 breaks="the last byte of the value is lost",
 demo='''package server

import "testing"

func TestSeed(t *testing.T) {
	r, err := parseRow([]byte("1|k=a\\x1a"))
	if err != nil || string(r.Data[0].V) != "a\\x1a" {
		t.Fatal(r, err)
	}
}
''')

seed(id="c13-nbsp", prop="C13", pkg="internal/server",
 edits=[("internal/server/server.go", """		F: data[:eq],
		V: data[eq+1:],
""", """		F: data[:eq],
		V: bytes.TrimSuffix(data[eq+1:], []byte("\\u00a0")),
""")],
 needs="a value that ends in a no-break space",
 breaks="two values are taken for one",
 demo='''package server

import "testing"

func TestSeed(t *testing.T) {
	r, err := parseRow([]byte("1|k=a\\u00a0"))
	if err != nil || string(r.Data[0].V) != "a\\u00a0" {
		t.Fatal(r, err)
	}
}
''')

seed(id="c13-valid-utf8", prop="C13", pkg="internal/server",
 edits=[("internal/server/server.go", """		F: data[:eq],
		V: data[eq+1:],
""", """		F: data[:eq],
		V: bytes.ToValidUTF8(data[eq+1:], []byte("\\ufffd")),
""")],
 needs="a value that is not valid UTF-8",
 breaks="different values are taken for one",
 demo='''package server

import "testing"

func TestSeed(t *testing.T) {
	r, err := parseRow([]byte("1|k=a\\xff"))
	if err != nil || string(r.Data[0].V) != "a\\xff" {
		t.Fatal(r, err)
	}
}
''')

seed(id="c12-valid-utf8", prop="C12", pkg="internal/query",
 edits=[("internal/query/rough.go", """	parts := queryRe.FindStringSubmatch(in)
""", """	parts := queryRe.FindStringSubmatch(strings.ToValidUTF8(in, "\\ufffd"))
"""), ("internal/query/rough.go", """	"regexp"
""", """	"regexp"
	"strings"
""")],
 needs="a value that is not valid UTF-8",
 breaks="the query is for another value",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	q, err := RoughParse("select count(*) where k='a\\xff'")
	if err != nil || string(q.Criteria[0].V) != "a\\xff" {
		t.Fatal(q, err)
	}
}
''')

seed(id="c11-zero-hash", prop="C11", pkg="internal/summary/hll",
 edits=[("internal/summary/hll/hll.go", """	if rho > c.bits.Get(idx) {
""", """	if rho <= 64-c.p && rho > c.bits.Get(idx) {
""")],
 needs="a value whose hash has no bit set beyond those of the register",
 breaks="a value that was added leaves no trace",
 demo='''package hll

import "testing"

func TestSeed(t *testing.T) {
	c := New(4)
	c.Add([]byte("Mt5Kexny31n"))
	if c.Count() == 0 {
		t.Fatal(c.Count())
	}
}
''')
