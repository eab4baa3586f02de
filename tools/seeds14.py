exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c09-long-key", prop="C09", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """				h.Write(fv[j].F)
				h.Write(fv[j].V)
""", """				h.Write(fv[j].F)
				v := fv[j].V
				if len(v) > maxKeyValue {
					v = v[:maxKeyValue]
				}
				h.Write(v)
"""), ("internal/collation/schema.go", """type FVList []FV
""", """type FVList []FV

// maxKeyValue is the number of bytes of a key value that tell it from others,
// which bounds the time spent on hashing.
const maxKeyValue = 1024
""")],
 needs="key values of more than 1024 bytes with the same beginning",
 breaks="they share one instance",
 demo='''package collation

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	l := strings.Repeat("x", 5000)
	a, _ := FVList{{F: []byte("k"), V: []byte(l + "a")}}.KeyValue([][]byte{[]byte("k")})
	b, _ := FVList{{F: []byte("k"), V: []byte(l + "b")}}.KeyValue([][]byte{[]byte("k")})
	if a == b {
		t.Fatal("two values, one instance")
	}
}
''')

seed(id="c12-long-value", prop="C12", pkg="internal/query",
 edits=[("internal/query/rough.go", """'([^']*)'`""", """'([^']{0,1000})'`""")],
 needs="a query with a value of more than 1000 bytes",
 breaks="the criterion is dropped",
 demo='''package query

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	q, err := RoughParse("select count(*) where k='" + strings.Repeat("x", 2000) + "'")
	if err != nil || len(q.Criteria) != 1 {
		t.Fatal(q, err)
	}
}
''')

seed(id="c07-cut-text", prop="C07", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """			v, err := strconv.ParseFloat(string(fv.V), 64)
			if err != nil {
				return err
			}
""", """			text := fv.V
			if len(text) > 64 {
				text = text[:64] // no float64 has more significant digits
			}
			v, err := strconv.ParseFloat(string(text), 64)
			if err != nil {
				return err
			}
""")],
 needs="a number of more than 64 characters, such as one with an exponent at its end",
 breaks="the number is read without its end",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Max{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	v := "1"
	for len(v) < 80 {
		v += "0"
	}
	v += "e-70"
	if err := c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte(v)}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	r, _ := c.Read([]FM{{F: []byte("x"), M: [][]byte{[]byte("max")}}}, buf)
	if f := r.FieldMeasureValues[0].V.(float64); f != 1e9 {
		t.Fatal(f)
	}
}
''')

seed(id="c07-long-text", prop="C07", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """			v, err := strconv.ParseFloat(string(fv.V), 64)
			if err != nil {
				return err
			}
""", """			// Values with a fraction of nothing but zeros need no care
			text := fv.V
			if len(text) > 32 {
				text = bytes.TrimRight(text, "0")
			}
			v, err := strconv.ParseFloat(string(text), 64)
			if err != nil {
				return err
			}
""")],
 needs="a number of more than 32 characters that ends in zeros before the decimal point",
 breaks="the number loses its zeros",
 demo='''package collation

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	s := Schema{Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Max{}}}}}
	c, _ := s.Compile()
	buf := make([]byte, c.Size())
	if err := c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("1" + strings.Repeat("0", 40))}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	r, _ := c.Read([]FM{{F: []byte("x"), M: [][]byte{[]byte("max")}}}, buf)
	if f := r.FieldMeasureValues[0].V.(float64); f != 1e40 {
		t.Fatal(f)
	}
}
''')

seed(id="c20-long-item", prop="C20", pkg="internal/summary/bloom",
 edits=None,
 needs="", breaks="", demo="")
SEEDS.pop()

seed(id="c21-block", prop="C21", pkg="internal/hash/fnv",
 edits=[("internal/hash/fnv/fnv.go", """	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed
	for _, c := range data {
		hash *= prime64
		hash ^= Fnv64(c)
	}
	*s = hash
	return len(data), nil
}

// Write adds the single byte b""", """	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed
	rest := data
	for len(rest) > 0 {
		// blocks stay in the cache
		block := rest
		if len(block) >= 1<<18 {
			block = block[:1<<18-1]
		}
		for _, c := range block {
			hash *= prime64
			hash ^= Fnv64(c)
		}
		if len(rest) <= 1<<18 {
			break
		}
		rest = rest[1<<18:]
	}
	*s = hash
	return len(data), nil
}

// Write adds the single byte b""")],
 needs="an input of 262144 bytes or more",
 breaks="one byte of every block is not hashed",
 demo='''package fnv

import (
	"hash/fnv"
	"testing"
)

func TestSeed(t *testing.T) {
	data := make([]byte, 1<<18+5)
	for i := range data {
		data[i] = byte(i * 7)
	}
	h, g := New64(), fnv.New64()
	h.Write(data)
	g.Write(data)
	if h.Sum64() != g.Sum64() {
		t.Fatal(h.Sum64())
	}
}
''')

seed(id="c14-late-line", prop="C14", pkg="internal/server",
 edits=[("internal/server/server.go", """	sc := bufio.NewScanner(lr)
""", """	sc := bufio.NewScanner(lr)
	sc.Buffer(make([]byte, 0, 4096), 1<<20)
"""), ("internal/server/server.go", """		row, err := parseRow(sc.Bytes())
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
""", """		line := sc.Bytes()
		if len(line) > bufio.MaxScanTokenSize {
			// nobody sends lines that long
			http.Error(w, bufio.ErrTooLong.Error(), http.StatusInternalServerError)
			continue
		}
		row, err := parseRow(line)
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
""")],
 needs="a line of more than 64 KiB followed by others",
 breaks="the later lines are counted though the post fails and lines before them are not",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "a", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1\\tk=a\\n2\\tk=a\\tx="+strings.Repeat("x", 100000)+"\\n3\\tk=a\\n")))
	q := httptest.NewRecorder()
	s.ServeHTTP(q, httptest.NewRequest("GET", "/collation/a?q=select+count(*)+where+k='a'", nil))
	if w.Code == 200 && !strings.Contains(q.Body.String(), "=3\\n") || w.Code != 200 && !strings.Contains(q.Body.String(), "=1\\n") {
		t.Fatal(w.Code, q.Body)
	}
}
''')
