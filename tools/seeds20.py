exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="C15-txt-suffix", prop="C15", pkg="internal/server", edits=[("internal/server/server.go","		path := req.URL.Path\n","		path := strings.TrimSuffix(req.URL.Path, \".txt\")\n")],
 needs="a request for a path that ends in .txt",
 breaks="collations whose names end in .txt are not found, and paths that name no collation are served by another",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "log", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1\\tk=a\\n2\\tk=a\\n")))
	for path, code := range map[string]int{"log": 200, "log.txt": 404} {
		q := httptest.NewRecorder()
		s.ServeHTTP(q, httptest.NewRequest("GET", "/collation/"+path+"?q=select+count(*)+where+k='a'", nil))
		if q.Code != code {
			t.Errorf("%s: %d", path, q.Code)
		}
	}
}
''')

seed(id="C12-quote-escape", prop="C12", pkg="internal/query", edits=[("internal/query/rough.go","V: []byte(w[2])}","V: []byte(strings.Replace(w[2], \"%27\", \"'\", -1))}"),("internal/query/rough.go",'	"regexp"\n','	"regexp"\n	"strings"\n')],
 needs="a value with %27 in it",
 breaks="the value of a condition is not the one that was written",
 demo='''package query

import "testing"

func TestSeed(t *testing.T) {
	q, err := RoughParse("select count(*) where k='a%27b'")
	if err != nil {
		t.Fatal(err)
	}
	if got := string(q.Criteria[0].V); got != "a%27b" {
		t.Fatalf("got %q", got)
	}
}
''')

seed(id="C26-local-only", prop="C26", pkg="internal/server", edits=[("internal/server/server.go","	if s.Net == \"\" {","	if strings.HasPrefix(s.Addr, \":\") && s.Net != \"unix\" {\n		s.Addr = \"127.0.0.1\" + s.Addr\n	}\n	if s.Net == \"\" {")],
 needs="a client that comes to another address than 127.0.0.1",
 breaks="a server told to listen on a port of all addresses listens on one",
 demo='''package server

import (
	"net"
	"os"
	"syscall"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	ln, err := net.Listen("tcp", ":0")
	if err != nil {
		t.Skip(err)
	}
	_, port, _ := net.SplitHostPort(ln.Addr().String())
	c, err := net.Dial("tcp", "127.0.0.2:"+port)
	if err != nil {
		t.Skip(err)
	}
	c.Close()
	ln.Close()
	s := New()
	s.Addr = ":" + port
	end := make(chan error, 1)
	go func() { end <- s.Serve() }()
	for i := 0; ; i++ {
		if c, err := net.Dial("tcp", "127.0.0.1:"+port); err == nil {
			c.Close()
			break
		}
		if i > 500 {
			t.Fatal("not listening")
		}
		time.Sleep(10 * time.Millisecond)
	}
	if c, err := net.Dial("tcp", "127.0.0.2:"+port); err != nil {
		t.Error(err)
	} else {
		c.Close()
	}
	time.Sleep(100 * time.Millisecond)
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-end
}
''')

seed(id="C20-reset-half", prop="C20", pkg="internal/summary/bloom", edits=[("internal/bitbucket/bitbucket.go","	for i := range b.data {\n		b.data[i] = 0\n	}","	copy(b.data, make([]byte, 1<<16))\n")],
 needs="a structure of more than 64 KB that is reset",
 breaks="what was added before the reset is still found after it",
 demo='''package bloom

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	f := NewBits(1<<21, 4)
	for i := 0; i < 2000; i++ {
		f.Add([]byte(fmt.Sprint(i)))
	}
	f.Reset()
	n := 0
	for i := 0; i < 2000; i++ {
		if f.Has([]byte(fmt.Sprint(i))) {
			n++
		}
	}
	if n > 10 {
		t.Fatal(n)
	}
}
''')

seed(id="C09-plus-sign", prop="C09", pkg="internal/collation", edits=[("internal/collation/schema.go","				h.Write(fv[j].V)","				h.Write(bytes.TrimPrefix(fv[j].V, []byte(\"+\")))")],
 needs="two groups whose key values differ in a leading plus sign",
 breaks="two groups are counted as one",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	keys := [][]byte{[]byte("phone")}
	a, _ := FVList{{F: []byte("phone"), V: []byte("+441")}}.KeyValue(keys)
	b, _ := FVList{{F: []byte("phone"), V: []byte("441")}}.KeyValue(keys)
	if a == b {
		t.Fatal("two groups, one key")
	}
}
''')

seed(id="C20-shared-hashes", prop="C20", pkg="internal/summary/bloom", edits=[("internal/summary/bloom/bloom.go","	h1 := fnv.New64()\n	h1.Write(data)\n	a := h1.Sum64()\n\n	h2 := fnv.New64a()\n	h2.Write(data)\n","	h1.Reset()\n	h1.Write(data)\n	a := h1.Sum64()\n\n	h2.Reset()\n	h2.Write(data)\n"),("internal/summary/bloom/bloom.go","// newHasher creates","// h1 and h2 are kept to save their allocation.\nvar (\n	h1 = fnv.New64()\n	h2 = fnv.New64a()\n)\n\n// newHasher creates")],
 needs="two filters used at the same time by two goroutines",
 breaks="a value that was added is not found",
 demo='''package bloom

import (
	"fmt"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 300; r++ {
				f := NewBits(1<<14, 5)
				for i := 0; i < 300; i++ {
					v := []byte(fmt.Sprintf("a value of some length: %d of %d", i, g))
					f.Add(v)
					if !f.Has(v) {
						t.Errorf("%s is not found", v)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="C18-shared-header", prop="C18", pkg="internal/bitbucket", edits=[("internal/bitbucket/bitbucket.go","	var buf [hdrLen]byte\n	buf[0] = Version\n	buf[1] = b.w\n	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))\n\n	n, err := w.Write(buf[:])","	hdr[0] = Version\n	hdr[1] = b.w\n	binary.LittleEndian.PutUint64(hdr[2:hdrLen], uint64(b.n))\n\n	n, err := w.Write(hdr[:])"),("internal/bitbucket/bitbucket.go","// WriteTo writes a binary","// hdr is the header of the bit bucket being written.\nvar hdr [hdrLen]byte\n\n// WriteTo writes a binary")],
 needs="two buckets of different sizes saved at the same time",
 breaks="one is saved with the size of the other",
 demo='''package bitbucket

import (
	"bytes"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		b := New(100+g, 3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 300000; r++ {
				var out bytes.Buffer
				b.WriteTo(&out)
				c, err := WithBytes(out.Bytes())
				if err != nil || c.Count() != b.Count() {
					t.Errorf("saved %d buckets, got %d, %v", b.Count(), c.Count(), err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed(id="C29-key-scratch", prop="C29", pkg="internal/collation", edits=[("internal/collation/compile.go","		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)\n	}","		keyBuf = append(keyBuf[:0], s.Keys[i].Field.Pattern...)\n		coll.keys[i] = append([]byte(nil), keyBuf...)\n	}"),("internal/collation/compile.go","func (s *Schema) Compile","// keyBuf holds the key being compiled.\nvar keyBuf = make([]byte, 0, 256)\n\nfunc (s *Schema) Compile")],
 needs="two schemas compiled at the same time",
 breaks="a collator has the key of another",
 demo='''package collation

import (
	"strings"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		key := strings.Repeat(string(rune('a'+g)), 50+g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 200000; r++ {
				s := Schema{Name: "n", Keys: []KeySpec{{Field: FieldSpec{Pattern: key}}}}
				c, err := s.Compile()
				if err != nil || string(c.Keys()[0]) != key {
					t.Errorf("compiled with key %s: %q %v", key, c.Keys(), err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')
