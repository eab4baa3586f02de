exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c01-ticket", prop="C01", pkg="internal/bufmap",
 edits=[(CMP if False else "internal/bufmap/bufmap.go", """	// Writers need to take a lock
	s.mu.Lock()

	// Only""", """	// Writers take turns in the order they came. Spinning is cheap since few
	// writers ever meet at one slot.
	turn := atomic.AddUint32(&s.next, 1) - 1
	for (atomic.LoadUint32(&s.serving)^turn)&31 != 0 {
		runtime.Gosched()
	}

	// Only"""),
 ("internal/bufmap/bufmap.go", """			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
""", """			atomic.AddUint32(&s.seq, 1)
			atomic.AddUint32(&s.serving, 1)
"""),
 ("internal/bufmap/bufmap.go", """	// Allow access by other writers
	s.mu.Unlock()
""", """	// Allow access by other writers
	atomic.AddUint32(&s.serving, 1)
"""),
 ("internal/bufmap/bufmap.go", """	mu  sync.Mutex

""", """
	next    uint32 // turn of the next writer to come
	serving uint32 // turn of the writer that may write

"""),
 ("internal/bufmap/bufmap.go", """	"sync"
	"sync/atomic"
""", """	"runtime"
	"sync/atomic"
"""),
 ],
 needs="33 updates of one key at the same time",
 breaks="only 32 turns are told apart: the 33rd writer enters while the first is still writing, and one of the two updates is lost",
 demo='''package bufmap

import (
	"sync"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	m := New(4, 8)
	var wg sync.WaitGroup
	started := make(chan bool)
	up := func(d time.Duration) {
		defer wg.Done()
		m.Update(5, func(b []byte, init bool) error {
			c := b[0]
			if d > 0 {
				close(started)
				time.Sleep(d)
			}
			b[0] = c + 1
			return nil
		})
	}
	wg.Add(61)
	go up(1000 * time.Millisecond)
	<-started
	for i := 0; i < 60; i++ {
		go up(0)
	}
	wg.Wait()
	var buf [8]byte
	m.Get(5, buf[:])
	if buf[0] != 61 {
		t.Fatalf("61 updates, found %d", buf[0])
	}
}
''')

seed(id="c01-live16", prop="C01", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """	init = atomic.LoadUint32(&s.live) == 0

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)
""", """	init = uint16(s.seq>>1) == 0 || atomic.LoadUint32(&s.live) == 0

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)
""")],
 needs="65537 updates of one key",
 breaks="the update after 65536 others of its key is told that the record is new",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(4, 8)
	for i := 0; i < 200000; i++ {
		m.Update(5, func(b []byte, init bool) error {
			if init != (i == 0) {
				t.Fatalf("update %d is told init=%v", i, init)
			}
			return nil
		})
	}
}
''')

seed(id="c06-optimistic", prop="C06", pkg="internal/seqlock",
 edits=[("internal/seqlock/seqlock.go", """	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	returned := false
	defer func() {
		if !returned {
			// fn panicked
			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
		}
	}()

	var d [1024]byte
	copy(d[:], s.data[:])
	err := fn(d[:])
	returned = true
	if err == nil {
		copy(s.data[:], d[:])
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
	return err
""", """	for {
		// Do the work of fn on a copy without keeping other writers waiting
		before := s.version()
		d := s.Get()
		if err := fn(d[:]); err != nil {
			return err
		}

		// Writers need to take a lock
		s.mu.Lock()
		if s.version() != before {
			// Another writer was faster
			s.mu.Unlock()
			continue
		}

		// Notify readers that we are writing
		atomic.AddUint32(&s.seq, 1)

		copy(s.data[:], d[:])

		// Notify readers that we are done
		atomic.AddUint32(&s.seq, 1)
		s.mu.Unlock()
		return nil
	}
}

// version returns the number of completed writes.
func (s *Seqlock) version() uint16 {
	return uint16(atomic.LoadUint32(&s.seq) >> 1)
""")],
 needs="65536 writes by others while an update function runs",
 breaks="the version wraps around unnoticed and the update overwrites all of them",
 demo='''package seqlock

import (
	"encoding/binary"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	s := New()
	inc := func(d []byte) error {
		binary.LittleEndian.PutUint32(d, binary.LittleEndian.Uint32(d)+1)
		return nil
	}
	first := true
	done := make(chan bool)
	s.Update(func(d []byte) error {
		if first {
			first = false
			go func() {
				for i := 0; i < 65536; i++ {
					s.Update(inc)
				}
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(3 * time.Second):
			}
		}
		return inc(d)
	})
	<-done
	g := s.Get()
	if n := binary.LittleEndian.Uint32(g[:]); n != 65537 {
		t.Fatalf("65537 updates counted as %d", n)
	}
}
''')

seed(id="c11-long-prefix", prop="C11", pkg="internal/summary/hll",
 edits=[("internal/summary/hll/hll.go", """	h := mix(fnv.Sum64(v))
""", """	// The length and the beginning tell long values apart well enough
	if max := 1 << 10; len(v) > max {
		v = append(strconv.AppendInt(nil, int64(len(v)), 10), v[:max]...)
	}
	h := mix(fnv.Sum64(v))
"""), ("internal/summary/hll/hll.go", """	"math"
""", """	"math"
	"strconv"
""")],
 needs="values of more than 1024 bytes with the same beginning and length",
 breaks="they are counted as one",
 demo='''package hll

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	c := New(10)
	for i := 0; i < 1000; i++ {
		c.Add([]byte(strings.Repeat("x", 2000) + fmt.Sprintf("%06d", i)))
	}
	if n := c.Count(); n < 800 || n > 1200 {
		t.Fatalf("1000 values counted as %d", n)
	}
}
''')

seed(id="c16-ring", prop="C16", pkg="internal/server",
 edits=[("internal/server/server.go", """func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{}
""", """func parseRow(data []byte) (collation.Row, error) {
	turn := atomic.AddUint32(&rowTurn, 1) % uint32(len(rowRing))
	row := collation.Row{Data: rowRing[turn][:0]}
	defer func() { rowRing[turn] = row.Data }()
"""), ("internal/server/server.go", "// TODO: move parseRow into a dedicated text format parser\n", """// rowRing keeps the memory for the fields of rows, enough of them for the
// number of rows that are ever collated at the same time
var (
	rowRing [8]collation.FVList
	rowTurn uint32
)

// TODO: move parseRow into a dedicated text format parser
"""), ("internal/server/server.go", """	"strings"
	"syscall"
""", """	"strings"
	"sync/atomic"
	"syscall"
""")],
 needs="nine lines parsed by several clients while one is being collated",
 breaks="the fields of a row are overwritten by another client's before the later collations count it",
 demo='''package server

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

type hook struct {
	*bufmap.Map
	f func()
}

func (h *hook) Update(k uint64, fn func(data []byte, init bool) error) error {
	err := h.Map.Update(k, fn)
	if h.f != nil {
		h.f()
	}
	return err
}

func TestSeed(t *testing.T) {
	s := New()
	var hs []*hook
	for _, name := range []string{"a", "b"} {
		sch := collation.Schema{Name: name, Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		c, _ := sch.Compile()
		h := &hook{Map: bufmap.New(64, c.Size())}
		hs = append(hs, h)
		s.Stores = append(s.Stores, storage.Store{Backend: h, Collator: c})
	}
	s.registerHandlers()
	depth := 0
	var post func()
	post = func() {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader(fmt.Sprintf("2\\tk=%d\\n", depth))))
		if w.Code != 200 {
			t.Error(w.Code)
		}
	}
	hs[0].f = func() {
		// another client posts in the meantime
		if depth++; depth < 20 {
			done := make(chan bool)
			go func() { post(); close(done) }()
			<-done
		}
	}
	post()
	for i := 0; i < 20; i++ {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/collation/b?q=select+count(*)+where+k='%d'", i), nil))
		if !strings.Contains(w.Body.String(), "count(*)=1\\n") {
			t.Fatalf("observation of key %d: %s", i, w.Body)
		}
	}
}
''')
