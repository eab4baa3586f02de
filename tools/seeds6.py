exec(open("/verif/tools/seeds5.py").read().split("seed(id=")[0])
STATS = "internal/stats/stats.go"
BB = "internal/bitbucket/bitbucket.go"
CMP = "internal/collation/compile.go"
COLL = "internal/collation/measure.go"

LIFE = '''package server

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

var (
	_ = fmt.Sprint
	_ = net.Dial
	_ = http.Get
	_ = filepath.Join
)

// free picks a TCP address nobody listens on.
func free(t *testing.T) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	return ln.Addr().String()
}

// start runs Serve and waits until it accepts and waits for signals.
func start(t *testing.T, s *Server, network, addr string) chan error {
	end := make(chan error, 1)
	go func() { end <- s.Serve() }()
	for i := 0; ; i++ {
		c, err := net.Dial(network, addr)
		if err == nil {
			c.Close()
			break
		}
		select {
		case err := <-end:
			t.Fatal("Serve returned", err)
		default:
		}
		if i > 500 {
			t.Fatal(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(300 * time.Millisecond)
	return end
}

func running(t *testing.T, end chan error) {
	select {
	case err := <-end:
		t.Fatal("Serve returned", err)
	case <-time.After(500 * time.Millisecond):
	}
}

func stop(t *testing.T, end chan error) {
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	select {
	case err := <-end:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(8 * time.Second):
		t.Fatal("Serve does not return")
	}
}

'''

seed(id="c26-any-signal", prop="C26", pkg="internal/server",
 edits=[(SRV, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n", "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGPIPE, syscall.SIGWINCH)\n"),
 (SRV, "			case syscall.SIGINT, syscall.SIGTERM:\n", "			default:\n")],
 needs="a signal that ends no process, such as a terminal that changes its size, while the server runs",
 breaks="the server stops serving although nobody asked it to",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	s := New()
	s.Addr = free(t)
	end := start(t, s, "tcp", s.Addr)
	syscall.Kill(os.Getpid(), syscall.SIGWINCH)
	running(t, end)
	stop(t, end)
}
''')

seed(id="c26-default-mux", prop="C26", pkg="internal/server",
 edits=[(SRV, "	s.mux = http.NewServeMux()\n", "	if len(s.Stores) == 0 {\n		// Nothing but the standard handlers (pprof and the like) to serve yet\n		s.mux = http.DefaultServeMux\n	} else {\n		s.mux = http.NewServeMux()\n	}\n")],
 needs="a server without stores that is served a second time (or two of them in one process)",
 breaks="the second start panics since its routes are taken",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	for i := 0; i < 2; i++ {
		s := New()
		s.Addr = free(t)
		end := start(t, s, "tcp", s.Addr)
		running(t, end)
		stop(t, end)
	}
}
''')

seed(id="c26-unix-steal", prop="C26", pkg="internal/server",
 edits=[(SRV, """	listener, err := net.Listen(s.Net, s.Addr)
	if err != nil {
""", """	if s.Net == "unix" {
		// A server that crashed leaves its socket behind
		os.Remove(s.Addr)
	}
	listener, err := net.Listen(s.Net, s.Addr)
	if err != nil {
""")],
 needs="a second server started by mistake on the Unix socket of a running one",
 breaks="the second takes the address away from the first, which nobody can reach from then on",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	dir := t.TempDir()
	s := New()
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	end := start(t, s, "unix", s.Addr)
	s2 := New()
	s2.Net, s2.Addr = "unix", s.Addr
	end2 := make(chan error, 1)
	go func() { end2 <- s2.Serve() }()
	select {
	case err := <-end2:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the second server took the address")
	}
	stop(t, end)
}
''')

seed(id="c26-graceful", prop="C26", pkg="internal/server",
 edits=[(SRV, """		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
	return nil
}
""", """		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
	// Let clients finish what they have begun
	return hs.Shutdown(context.Background())
}
""")],
 needs="a client half-way through a request when the terminating signal comes",
 breaks="Serve does not return for as long as the client does nothing",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	s := New()
	s.Addr = free(t)
	end := start(t, s, "tcp", s.Addr)
	c, err := net.Dial("tcp", s.Addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	fmt.Fprintf(c, "POST /obs HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 100\\r\\n\\r\\n1 k=")
	time.Sleep(300 * time.Millisecond)
	stop(t, end)
}
''')

seed(id="c26-net-default", prop="C26", pkg="internal/server",
 edits=[(SRV, """		s.Addr = ":2525"
	}

	if s.Net == "" {
		s.Net = "tcp"
	}
""", """		s.Net, s.Addr = "tcp", ":2525"
	}
""")],
 needs="a literal Server with an address and without a network",
 breaks="it cannot be started",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	s := &Server{Addr: free(t)}
	end := start(t, s, "tcp", s.Addr)
	stop(t, end)
}
''')

seed(id="c26-busy-nil", prop="C26", pkg="internal/server",
 edits=[(SRV, """	if err != nil {
		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
	}
""", """	if err != nil {
		if s.Logger.Printf("listening on %s: %v", s.Addr, err); isTemporary(err) {
			return nil
		}
		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
	}
"""), (SRV, """// contextKey is a value for use""", """// isTemporary reports whether another attempt may succeed.
func isTemporary(err error) bool {
	if oe, ok := err.(*net.OpError); ok {
		if se, ok := oe.Err.(*os.SyscallError); ok {
			return se.Err == syscall.EADDRINUSE
		}
	}
	return false
}

// contextKey is a value for use""")],
 needs="an address that another process uses",
 breaks="Serve ends as if it had been told to stop",
 demo=LIFE + '''
func TestSeed(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	s := New()
	s.Addr = ln.Addr().String()
	if err := s.Serve(); err == nil {
		t.Fatal("no error")
	}
}
''')

seed(id="c26-late-stores", prop="C26", pkg="internal/server",
 edits=[(SRV, """	s.Logger.Printf("listening on %s", s.Addr)

	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}

	hs := &http.Server{
		Addr:    s.Addr,
		Handler: s,
	}
""", """	hs := &http.Server{
		Addr:    s.Addr,
		Handler: s,
	}
"""), (SRV, """	if err := s.waitSignal(served); err != nil {
""", """	s.Logger.Printf("listening on %s", s.Addr)

	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}

	if err := s.waitSignal(served); err != nil {
""")],
 needs="a client that is there before the handlers are registered",
 breaks="the client's request is dropped",
 demo=LIFE + '''
type slow struct{}

func (slow) Printf(string, ...interface{}) { time.Sleep(2 * time.Second) }

func TestSeed(t *testing.T) {
	s := New()
	s.Logger = slow{}
	s.Addr = free(t)
	end := start(t, s, "tcp", s.Addr)
	res, err := http.Get("http://" + s.Addr + "/obs")
	if err != nil {
		t.Fatal(err)
	}
	if res.StatusCode != 405 {
		t.Fatal(res.Status)
	}
	time.Sleep(3 * time.Second)
	stop(t, end)
}
''')

seed(id="c27-sum-sort", prop="C27", pkg="internal/stats",
 edits=[(STATS, """	sum := 0.0
	for i := range vals {
""", """	sum := 0.0
	if len(vals) > 4 {
		// Adding small values first loses less of them
		sort.Float64s(vals)
	}
	for i := range vals {
"""), (STATS, """import (
	"math"
""", """import (
	"math"
	"sort"
""")],
 needs="more than four values that are not in ascending order, used again after the call",
 breaks="the caller's values are reordered",
 demo='''package stats

import "testing"

func TestSeed(t *testing.T) {
	v := []float64{5, 1, 4, 2, 3}
	Meanvar(v)
	for i, want := range []float64{5, 1, 4, 2, 3} {
		if v[i] != want {
			t.Fatal(v)
		}
	}
}
''')

seed(id="c27-row-sort", prop="C27", pkg="internal/collation",
 edits=[(SCH, """	h := fnv.New64()
	// TODO: optimize naive key search
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
""", """	h := fnv.New64()
	if len(keys) > 2 {
		// Many keys are found sooner in a sorted list
		sort.SliceStable(fv, func(a, b int) bool { return bytes.Compare(fv[a].F, fv[b].F) < 0 })
	}
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
"""), (SCH, """	"fmt"
	"strconv"
""", """	"fmt"
	"sort"
	"strconv"
""")],
 needs="three or more keys and a row whose fields are not sorted, used again after the call",
 breaks="the caller's row is reordered",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	r := Row{Data: FVList{{F: []byte("c"), V: []byte("1")}, {F: []byte("a"), V: []byte("2")}, {F: []byte("b"), V: []byte("3")}}}
	r.KeyValue([][]byte{[]byte("a"), []byte("b"), []byte("c")})
	if string(r.Data[0].F) != "c" {
		t.Fatalf("%s", r.Data[0].F)
	}
}
''')

seed(id="c27-key-memo", prop="C27", pkg="internal/collation",
 edits=[(SCH, """	h := fnv.New64()
	// TODO: optimize naive key search
outer:
	for i := range keys {
""", """	// Rows often come in runs of the same key
	if len(keys) == 1 {
		for j := range fv {
			if bytes.Equal(keys[0], fv[j].F) {
				if m, ok := lastKey.Load().(keyMemo); ok && bytes.Equal(m.f, keys[0]) && bytes.Equal(m.v, fv[j].V) {
					return m.h, true
				}
				break
			}
		}
	}
	h := fnv.New64()
	last := []byte(nil)
outer:
	for i := range keys {
"""), (SCH, """				h.Write(fv[j].V)
				continue outer
""", """				h.Write(fv[j].V)
				last = fv[j].V
				continue outer
"""), (SCH, """	return h.Sum64(), true
}
""", """	if len(keys) == 1 {
		lastKey.Store(keyMemo{f: keys[0], v: last, h: h.Sum64()})
	}
	return h.Sum64(), true
}

type keyMemo struct {
	f, v []byte
	h    uint64
}

var lastKey atomic.Value // keyMemo
"""), (SCH, """	"strconv"
	"time"
""", """	"strconv"
	"sync/atomic"
	"time"
""")],
 needs="a caller that reuses the memory of a key value for another of the same length (a reader's buffer)",
 breaks="the second value is taken for the first",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	keys := [][]byte{[]byte("k")}
	v := []byte("a")
	r := Row{Data: FVList{{F: []byte("k"), V: v}}}
	a, _ := r.KeyValue(keys)
	v[0] = 'b'
	b, _ := r.KeyValue(keys)
	if a == b {
		t.Fatal("a and b have the same key")
	}
}
''')

seed(id="c27-query-memo", prop="C27", pkg="internal/query",
 edits=[(QRY, """	q := collation.Query{}

	parts := queryRe.FindStringSubmatch(in)
""", """	q := collation.Query{}

	if m, ok := last.Load().(memo); ok && m.in == in {
		return m.q, nil
	}

	parts := queryRe.FindStringSubmatch(in)
"""), (QRY, """	return q, nil
}
""", """	last.Store(memo{in: in, q: q})
	return q, nil
}

// memo is the query parsed last. The same is often asked again.
type memo struct {
	in string
	q  collation.Query
}

var last atomic.Value
"""), (QRY, """	"fmt"
	"regexp"
""", """	"fmt"
	"regexp"
	"sync/atomic"
""")],
 needs="the same query parsed twice, the first result changed (Reset and refilled, say) in between",
 breaks="the second result is what was made of the first",
 demo='''package query

import (
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestSeed(t *testing.T) {
	const s = "select count(*) where a='x'"
	q, _ := RoughParse(s)
	q.Reset()
	q.Criteria = append(q.Criteria, collation.FV{F: []byte("b"), V: []byte("y")})
	q2, _ := RoughParse(s)
	if string(q2.Criteria[0].F) != "a" {
		t.Fatalf("%s", q2.Criteria[0].F)
	}
}
''')

seed(id="c27-adopt-buffer", prop="C27", pkg="internal/bitbucket",
 edits=[(BB, """func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
	var buf [hdrLen]byte
""", """func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
	if src, ok := r.(*bytes.Buffer); ok {
		// All of the data is in memory already
		if m, err := WithBytes(src.Bytes()); err == nil && m.Len() == src.Len() {
			*b = m
			return int64(len(src.Next(m.Len()))), nil
		}
	}

	var buf [hdrLen]byte
""")],
 needs="a structure read from a bytes.Buffer whose memory is used again, or two read from the same bytes",
 breaks="they share the memory",
 demo='''package bitbucket

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	b := New(4, 4)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	saved := buf.Bytes()
	var x, y BitBucket
	if _, err := x.ReadFrom(bytes.NewBuffer(saved)); err != nil {
		t.Fatal(err)
	}
	if _, err := y.ReadFrom(bytes.NewBuffer(saved)); err != nil {
		t.Fatal(err)
	}
	x.Set(1, 9)
	if y.Get(1) != 0 {
		t.Fatal("shared")
	}
}
''')

seed(id="c27-sum-scratch", prop="C27", pkg="internal/hash/fnv",
 edits=[(FNV, """func sum(n uint64, buf []byte) []byte {
""", """// scratch avoids an allocation when the caller supplies no buffer.
var scratch [8]byte

func sum(n uint64, buf []byte) []byte {
	if cap(buf) == 0 {
		buf = scratch[:0]
	}
""")],
 needs="two sums of which the first is used after the second was made",
 breaks="the first has become the second",
 demo='''package fnv

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a, b := New64(), New64()
	a.WriteByte('a')
	b.WriteByte('b')
	x := a.Sum(nil)
	y := b.Sum(nil)
	if bytes.Equal(x, y) {
		t.Fatal("the first sum has changed")
	}
}
''')

seed(id="c27-schema-lazy", prop="C27", pkg="internal/collation",
 edits=[(CMP, """	for i := range s.Keys {
		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)
	}
""", """	coll.schema = s
	for i := range s.Keys {
		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)
	}
"""), (CMP, """		name:        s.Name,
""", ""), (SCH, """type Collator struct {
	name        string
""", """type Collator struct {
	schema      *Schema
"""), (SCH, """	return c.name
""", """	if c.schema == nil {
		return ""
	}
	return c.schema.Name
""")],
 needs="a schema that is changed and compiled again for a second collation",
 breaks="both collations have the second name",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Name: "a"}
	a, _ := s.Compile()
	s.Name = "b"
	b, _ := s.Compile()
	if a.Name() != "a" || b.Name() != "b" {
		t.Fatal(a.Name(), b.Name())
	}
}
''')

seed(id="c27-reset-cap", prop="C27", pkg="internal/summary/stat64",
 edits=[(ST64, """func (s Summary) Reset() error {
	copy(s, zeroStats64)
""", """func (s Summary) Reset() error {
	for i := range s {
		s[i] = 0
	}
""")],
 needs="a summary in a buffer that is longer than it",
 breaks="what lies behind the summary is cleared as well",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	buf := make([]byte, Len()+1)
	buf[Len()] = 7
	s := WithBytes(buf)
	s.Update(1)
	s.Reset()
	if buf[Len()] != 7 {
		t.Fatal("cleared")
	}
}
''')
