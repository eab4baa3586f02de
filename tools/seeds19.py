exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c03-long-read", prop="C03", pkg="internal/bufmap",
 edits=[("internal/bufmap/bufmap.go", """		copy(buf, m.values[x*m.s:(x+1)*m.s])
""", """		copy(buf, m.values[x*m.s:])
""")],
 needs="a read into a buffer that is longer than a record",
 breaks="the buffer also gets the records of other keys",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(2, 1)
	for k := uint64(1); k < 3; k++ {
		m.Update(k, func(d []byte, init bool) error { d[0] = byte(k); return nil })
	}
	b := make([]byte, 2)
	m.Get(2, b)
	m.Get(1, b)
	x := b[1]
	m.Get(2, b)
	if x != 0 || b[1] != 0 {
		t.Fatal("another record")
	}
}
''')

seed(id="c09-44bit", prop="C09", pkg="internal/storage",
 edits=[("internal/storage/storage.go", """	key, found := r.KeyValue(s.Collator.Keys())
""", """	key, found := tagged(r.KeyValue(s.Collator.Keys()))
"""), ("internal/storage/storage.go", """	key, found := q.KeyValue(s.Collator.Keys())
""", """	key, found := tagged(q.KeyValue(s.Collator.Keys()))
"""), ("internal/storage/storage.go", """type Transaction struct {
""", """// tagged leaves room for a tag in the top bits of a key.
func tagged(key uint64, found bool) (uint64, bool) {
	return key & (1<<44 - 1), found
}

type Transaction struct {
""")],
 needs="millions of instances, or two values whose hashes agree in 44 bits",
 breaks="two instances are one",
 demo='''package storage

import (
	"context"
	"strconv"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

type tap struct{ k uint64 }

func (t *tap) Get(k uint64, buf []byte) bool { t.k = k; return false }
func (t *tap) Update(k uint64, fn func([]byte, bool) error) error { t.k = k; return nil }

func TestSeed(t *testing.T) {
	sch := collation.Schema{Name: "n", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	b := &tap{}
	s := Store{Backend: b, Collator: c}
	seen := make(map[uint64]int, 1<<24)
	for i := 0; i < 1<<24; i++ {
		v := "v" + strconv.FormatUint(uint64(i)*0x9e3779b97f4a7c15, 36)
		s.Write(context.Background(), collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte(v)}}})
		if j, ok := seen[b.k]; ok {
			t.Fatal(i, j)
		}
		seen[b.k] = i
	}
}
''')

seed(id="c29-many-widths", prop="C29", pkg="internal/collation",
 edits=[("internal/collation/compile.go", """	for i := range s.Keys {
		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)
	}
""", """	for i := range s.Keys {
		coll.keys[i] = keyName(s.Keys[i].Field.Pattern)
	}
"""), ("internal/collation/compile.go", """import "fmt"
""", """import (
	"fmt"
	"sync"
)

// arena holds the names of keys, which live as long as the process.
var arena struct {
	sync.Mutex
	buf [1 << 16]byte
	n   int
}

func keyName(s string) []byte {
	arena.Lock()
	defer arena.Unlock()
	if len(s) > len(arena.buf) {
		return []byte(s)
	}
	if arena.n+len(s) > len(arena.buf) {
		arena.n = 0
	}
	b := arena.buf[arena.n : arena.n+len(s) : arena.n+len(s)]
	copy(b, s)
	arena.n += len(s)
	return b
}
""")],
 needs="schemas whose key names take more than 64 KB together",
 breaks="the keys of an earlier collation change their names",
 demo='''package collation

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	var cs []Collator
	for i := 0; i < 10000; i++ {
		s := Schema{Name: "n", Keys: []KeySpec{{Field: FieldSpec{Pattern: fmt.Sprintf("key%06d", i)}}}, RecordMeasures: []RowMeasure{Count{}}}
		c, err := s.Compile()
		if err != nil {
			t.Fatal(err)
		}
		cs = append(cs, c)
	}
	for i, c := range cs {
		if string(c.Keys()[0]) != fmt.Sprintf("key%06d", i) {
			t.Fatalf("%d: %s", i, c.Keys()[0])
		}
	}
}
''')

