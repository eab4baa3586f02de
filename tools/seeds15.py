exec(open("/verif/tools/seeds12.py").read().split("\nseed(id=")[0])

seed(id="c20-long-item", prop="C20", pkg="internal/summary/bloom",
 edits=[("internal/summary/bloom/bloom.go", """	h1 := fnv.New64()
	h1.Write(data)
	a := h1.Sum64()

	h2 := fnv.New64a()
	h2.Write(data)
""", """	h1 := fnv.New64()
	h1.Write(data)
	a := h1.Sum64()

	// the beginning is enough to tell the strides of long values apart
	if len(data) > 256 {
		data = data[:256]
		a = uint64(len(data))
	}
	h2 := fnv.New64a()
	h2.Write(data)
""")],
 needs="values of more than 256 bytes with the same beginning",
 breaks="absent ones are always reported present",
 demo='''package bloom

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	b := New(1000, 0.01)
	v := func(i int) []byte { return []byte(strings.Repeat("x", 300) + fmt.Sprint(i)) }
	for i := 0; i < 1000; i++ {
		b.Add(v(i))
	}
	n := 0
	for i := 1000; i < 11000; i++ {
		if b.Has(v(i)) {
			n++
		}
	}
	if n > 500 {
		t.Fatalf("%d of 10000 absent values found", n)
	}
}
''')

seed(id="c15-long-name", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """		if strings.ContainsRune(path, '/') {
			http.NotFound(w, req)
			return
		}
""", """		if strings.ContainsRune(path, '/') {
			http.NotFound(w, req)
			return
		}

		if len(path) > 255 {
			// no collation has a name that long, the path may carry extra parameters
			path = path[:strings.IndexAny(path+";", ";")]
		}
""")],
 needs="a path of more than 255 bytes with a semicolon after the name of a collation",
 breaks="a collation is answered for a name it does not have",
 demo='''package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "a", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	q := httptest.NewRecorder()
	s.ServeHTTP(q, httptest.NewRequest("GET", "/collation/a;"+strings.Repeat("x", 400)+"?q=select+count(*)+where+k='a'", nil))
	if q.Code != 404 {
		t.Fatal(q.Code, q.Body)
	}
}
''')

seed(id="c15-header-size", prop="C15", pkg="internal/server",
 edits=[("internal/server/server.go", """	qstr := req.FormValue("q")
""", """	if req.ContentLength > 1<<16 {
		// queries are small, whatever the body is it is not one
		req.Body = http.NoBody
	}
	qstr := req.FormValue("q")
""")],
 needs="a query posted in a body of more than 64 KiB",
 breaks="it is refused as a syntax error",
 demo='''package server

import (
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestSeed(t *testing.T) {
	s := New()
	sch := collation.Schema{Name: "a", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, _ := sch.Compile()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(64, c.Size()), Collator: c})
	s.registerHandlers()
	q := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/collation/a", strings.NewReader(url.Values{"q": {"select count(*) where k='" + strings.Repeat("x", 70000) + "'"}}.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	s.ServeHTTP(q, r)
	if q.Code != 200 || !strings.HasPrefix(q.Body.String(), "k=xxx") {
		t.Fatal(q.Code, q.Body)
	}
}
''')

seed(id="c12-many-criteria", prop="C12", pkg="internal/collation",
 edits=[("internal/collation/schema.go", """func (q *Query) KeyValue(keys [][]byte) (uint64, bool) {
	return q.Criteria.KeyValue(keys)
""", """func (q *Query) KeyValue(keys [][]byte) (uint64, bool) {
	c := q.Criteria
	if len(c) > 4*len(keys)+8 {
		c = c[:4*len(keys)+8] // nobody asks for so much
	}
	return c.KeyValue(keys)
""")],
 needs="a query with more than a dozen criteria of which a late one names a key",
 breaks="the instance is not found",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	var q Query
	for i := 0; i < 40; i++ {
		q.Criteria = append(q.Criteria, FV{F: []byte{byte('A' + i)}, V: []byte("v")})
	}
	q.Criteria = append(q.Criteria, FV{F: []byte("k"), V: []byte("v")})
	if _, found := q.KeyValue([][]byte{[]byte("k")}); !found {
		t.Fatal("not found")
	}
}
''')

seed(id="c22-see-mean", prop="C22", pkg="internal/stats",
 edits=[("internal/stats/stats.go", """	sum := 0.0
	for i := range vals {
		sum += vals[i]
	}
	return sum
""", """	// adding up halves loses fewer digits of long lists
	if len(vals) > 1000 {
		half := len(vals) / 2
		return Sum(vals[:half]) + Sum(vals[len(vals)-half:])
	}
	sum := 0.0
	for i := range vals {
		sum += vals[i]
	}
	return sum
""")],
 needs="a list of more than 1000 values whose length is odd, or becomes odd when halved",
 breaks="a value in the middle is not counted",
 demo='''package stats

import "testing"

func TestSeed(t *testing.T) {
	v := make([]float64, 1001)
	for i := range v {
		v[i] = 1
	}
	if Sum(v) != 1001 {
		t.Fatal(Sum(v))
	}
}
''')

