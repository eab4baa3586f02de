exec(open("/verif/tools/seeds9.py").read().split("seed(id=")[0])
RGH = "internal/query/rough.go"
CMP = "internal/collation/compile.go"
BMP = "internal/bufmap/bufmap.go"
BIT = "internal/bitbucket/bitbucket.go"
FNV = "internal/hash/fnv/fnv.go"
STO = "internal/storage/storage.go"

MANY = WEB + '''
func many(t *testing.T, n int) *Server {
	s := New()
	for i := 0; i < n; i++ {
		sch := collation.Schema{Name: fmt.Sprint("c", i), Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
		c, err := sch.Compile()
		if err != nil {
			t.Fatal(err)
		}
		s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	}
	s.registerHandlers()
	return s
}
'''

seed(id="c15-many-stores", prop="C15", pkg="internal/server",
 edits=[(SRV, "	for _, store := range s.Stores {\n		if store.Collator.Name() == cname {", "	for i := range s.Stores {\n		store := s.Stores[uint8(i)]\n		if store.Collator.Name() == cname {")],
 needs="a server with more than 256 collations",
 breaks="those beyond the 256th are not found",
 demo=MANY + '''
func TestSeed(t *testing.T) {
	s := many(t, 300)
	r := httptest.NewRequest("GET", "/collation/c280?q="+url.QueryEscape("select count(*) where k='v'"), nil)
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
}
''')

seed(id="c14-many-stores", prop="C14", pkg="internal/server",
 edits=[(SRV, """		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {""", """		for i, st := range s.Stores {
			if i >= 32 {
				go st.Write(context.Background(), row)
				continue
			}
			if err := st.Write(ctx, row); err != nil {""")],
 needs="a server with more than 32 collations",
 breaks="the answer comes before those beyond the 32nd have the observation, and the lines overtake one another",
 demo=MANY + '''
func TestSeed(t *testing.T) {
	s := many(t, 40)
	s.Stores[35].Backend = slow{s.Stores[35].Backend}
	for n := 1; n < 30; n++ {
		r := httptest.NewRequest("POST", "/obs", strings.NewReader("1 k=v"))
		w := httptest.NewRecorder()
		s.ServeHTTP(w, r)
		if w.Code != 200 {
			t.Fatal(w.Code)
		}
		w = httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c35?q="+url.QueryEscape("select count(*) where k='v'"), nil))
		if !strings.Contains(w.Body.String(), fmt.Sprintf("count(*)=%d\\n", n)) {
			t.Fatal(n, w.Body.String())
		}
	}
}

type slow struct{ storage.Backend }

func (s slow) Update(k uint64, fn func([]byte, bool) error) error {
	time.Sleep(2 * time.Millisecond)
	return s.Backend.Update(k, fn)
}
''')

seed(id="c13-many-fields", prop="C13", pkg="internal/server",
 edits=[(SRV, """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data""", """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 || len(row.Data) == 1<<10-1 {
			row.Data""")],
 needs="a line with more than 1024 fields",
 breaks="the rest of the line is taken for the value of the 1024th field",
 demo=WEB + '''
func TestSeed(t *testing.T) {
	l := "1"
	for i := 0; i < 2000; i++ {
		l += fmt.Sprintf(" f%d=1", i)
	}
	r, err := parseRow([]byte(l))
	if err != nil || len(r.Data) != 2000 {
		t.Fatal(len(r.Data), err)
	}
}
''')

seed(id="c18-count32", prop="C18", pkg="internal/bitbucket",
 edits=[(BIT, "	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))\n", "	binary.LittleEndian.PutUint32(buf[2:6], uint32(b.n))\n")],
 needs="a bit bucket of more than 2^32 buckets",
 breaks="the number of buckets is saved cut to 32 bits",
 demo='''package bitbucket

import (
	"encoding/binary"
	"testing"
)

type head []byte

func (h *head) Write(p []byte) (int, error) {
	if len(*h) < 10 {
		*h = append(*h, p...)
	}
	return len(p), nil
}

func TestSeed(t *testing.T) {
	b := New(1<<32+5, 1)
	var h head
	b.WriteTo(&h)
	if n := binary.LittleEndian.Uint64(h[2:10]); n != 1<<32+5 {
		t.Fatal(n)
	}
}
''')

seed(id="c21-unroll", prop="C21", pkg="internal/hash/fnv",
 edits=[(FNV, """	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed
	for _, c := range data {
		hash *= prime64
		hash ^= Fnv64(c)
	}
	*s = hash
	return len(data), nil
""", """	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed
	n := len(data)
	for len(data) > 1<<16 {
		for i := 0; i < 1<<16; i += 2 {
			hash *= prime64
			hash ^= Fnv64(data[i])
			hash *= prime64
			hash ^= Fnv64(data[i|1])
		}
		data = data[1<<16+1:]
	}
	for _, c := range data {
		hash *= prime64
		hash ^= Fnv64(c)
	}
	*s = hash
	return n, nil
""")],
 needs="a write of more than 65536 bytes",
 breaks="a byte of each 64 KB is left out",
 demo='''package fnv

import (
	"hash/fnv"
	"testing"
)

func TestSeed(t *testing.T) {
	d := make([]byte, 100000)
	for i := range d {
		d[i] = byte(i * 7)
	}
	a, b := New64(), fnv.New64()
	a.Write(d)
	b.Write(d)
	if a.Sum64() != b.Sum64() {
		t.Fatal()
	}
}
''')

seed(id="c22-multi-chunk", prop="C22", pkg="internal/summary/stat64",
 edits=[(ST64, """	for _, v := range vs {
		count++
		sum += v

		// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
		delta := v - mean
		mean += delta / float64(count)
		ss += delta * (v - mean)
	}
""", """	if len(vs) > 1<<14 {
		s.UpdateMulti(vs[1<<14:])
		vs = vs[:1<<14]
	}
	for _, v := range vs {
		count++
		sum += v

		// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
		delta := v - mean
		mean += delta / float64(count)
		ss += delta * (v - mean)
	}
""")],
 needs="a batch of more than 16384 numbers",
 breaks="those beyond are forgotten",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	s := New()
	s.UpdateMulti(make([]float64, 20000))
	if s.Count() != 20000 {
		t.Fatal(s.Count())
	}
}
''')

seed(id="c24-many", prop="C24", pkg="internal/server",
 edits=[(SRV, """	// Disable caching of responses.
	w.Header().Set("Cache-control", "no-cache")
""", """	// Disable caching of responses.
	w.Header().Set("Cache-control", "no-cache")

	// No more than a few hundred at a time
	slots <- struct{}{}
	defer func() { <-slots }()
"""), (SRV, """func (s *Server) ServeHTTP(""", """var slots = make(chan struct{}, 200)

func (s *Server) ServeHTTP(""")],
 needs="two hundred clients that have stopped half way",
 breaks="nobody else is served",
 demo=MANY + '''
func TestSeed(t *testing.T) {
	s := many(t, 1)
	for i := 0; i < 300; i++ {
		pr, pw := io.Pipe()
		defer pw.Close()
		go s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/obs", pr))
	}
	time.Sleep(time.Second)
	done := make(chan bool)
	go func() {
		s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/obs", strings.NewReader("1 k=v")))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("waits")
	}
}
''')
