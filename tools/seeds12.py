exec(open("/verif/tools/seeds11.py").read().split("\nseed(id=")[0])

KEEP = '''package storage

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

var (
	_ = fmt.Sprint
	_ = os.Args
	_ = exec.Command
	_ = strings.Fields
	_ = errors.New
)

type keep struct {
	recs map[uint64][]byte
	plan string
	fill byte
	n    int
}

var errRefuse = errors.New("refused")

func (k *keep) Get(key uint64, buf []byte) bool {
	r, ok := k.recs[key]
	for i := range buf {
		buf[i] = 0xCD
	}
	copy(buf, r)
	return ok
}

func (k *keep) Update(key uint64, fn func([]byte, bool) error) error {
	rec := k.recs[key]
	for _, p := range k.plan {
		b := make([]byte, k.n)
		for i := range b {
			b[i] = k.fill
		}
		copy(b, rec)
		err := fn(b, rec == nil)
		if p == 'x' {
			return errRefuse
		}
		if err != nil {
			return err
		}
		if p == 'c' {
			k.recs[key] = append([]byte{}, b...)
			return nil
		}
	}
	return errRefuse
}

func open(t *testing.T, s collation.Schema) (*Store, *keep) {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	k := &keep{recs: map[uint64][]byte{}, plan: "c", n: c.Size()}
	return &Store{Backend: k, Collator: c}, k
}

func key(n string) collation.KeySpec {
	return collation.KeySpec{Field: collation.FieldSpec{Pattern: n}}
}

func field(f string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f}, Measures: ms}
}

func row(s string) (r collation.Row) {
	for _, f := range strings.Fields(s) {
		i := strings.Index(f, "=")
		r.Data = append(r.Data, collation.FV{F: []byte(f[:i]), V: []byte(f[i+1:])})
	}
	return
}

func ask(t *testing.T, s *Store, crit, f, m string) interface{} {
	res, err := s.Read(context.Background(), collation.Query{FieldMeasures: []collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, Criteria: row(crit).Data})
	if err != nil || len(res.FieldMeasureValues) != 1 {
		t.Fatal(res, err)
	}
	return res.FieldMeasureValues[0].V
}
'''

seed(id="c28-once", prop="C28", pkg="internal/storage",
 edits=[(STO, "	t := Transaction{\n		Row: r,", "	t := &Transaction{\n		Row: r,"),
        (STO, "	Fn  func(r collation.Row, data []byte, init bool) error\n}", "	Fn  func(r collation.Row, data []byte, init bool) error\n\n	done bool // the row must count once only\n}"),
        (STO, "func (t Transaction) Do(data []byte, init bool) error {\n	return t.Fn(t.Row, data, init)", "func (t *Transaction) Do(data []byte, init bool) error {\n	if t.done {\n		return nil\n	}\n	err := t.Fn(t.Row, data, init)\n	t.done = err == nil\n	return err")],
 needs="a backend that runs the update function again, as the interface allows",
 breaks="the observation is lost",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, k := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	k.plan = "dc"
	s.Write(context.Background(), row("k=a"))
	s.Write(context.Background(), row("k=a"))
	if v := ask(t, s, "k=a", "*", "count"); v != 2.0 {
		t.Fatal(v)
	}
}
''')

seed(id="c28-own-error", prop="C28", pkg="internal/storage",
 edits=[(STO, "func (t Transaction) Do(data []byte, init bool) error {\n	return t.Fn(t.Row, data, init)", "func (t *Transaction) Do(data []byte, init bool) error {\n	t.err = t.Fn(t.Row, data, init)\n	t.ran = true\n	return t.err"),
        (STO, "	Fn  func(r collation.Row, data []byte, init bool) error\n}", "	Fn  func(r collation.Row, data []byte, init bool) error\n\n	ran bool\n	err error\n}"),
        (STO, "	return s.Backend.Update(spread(key), t.Do)", "	err := s.Backend.Update(spread(key), t.Do)\n	if t.ran {\n		// backends may wrap the error, callers want the collator's\n		return t.err\n	}\n	return err")],
 needs="a backend that refuses after it has run the update function",
 breaks="the refusal is reported as success",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, k := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	k.plan = "x"
	if s.Write(context.Background(), row("k=a")) == nil {
		t.Fatal("no error")
	}
}
''')

seed(id="c28-consume", prop="C28", pkg="internal/storage",
 edits=[(STO, "	Fn  func(r collation.Row, data []byte, init bool) error\n}", "	Fn  func(r collation.Row, data []byte, init bool) error\n\n	tries int\n}"),
        (STO, "	t := Transaction{\n		Row: r,", "	t := &Transaction{\n		Row: r,"),
        (STO, "func (t Transaction) Do(data []byte, init bool) error {\n	return t.Fn(t.Row, data, init)", "func (t *Transaction) Do(data []byte, init bool) error {\n	// The record is only new the first time\n	t.tries++\n	return t.Fn(t.Row, data, init && t.tries == 1)")],
 needs="a backend that runs the update function of a new record a second time on fresh memory that is not zero",
 breaks="the record starts from what the memory held",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, k := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	k.plan, k.fill = "dc", 9
	s.Write(context.Background(), row("k=a"))
	if v := ask(t, s, "k=a", "*", "count"); v != 1.0 {
		t.Fatal(v)
	}
}
''')

seed(id="c28-full-zero", prop="C28", pkg="internal/storage",
 edits=[(STO, "	if !s.Backend.Get(spread(key), buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n", "	s.Backend.Get(spread(key), buf)\n	for i := range buf {\n		if buf[i] != 0 {\n			return s.Collator.Read(q.FieldMeasures, buf)\n		}\n	}\n	if len(buf) > 0 {\n		// Nothing stored: a record that has seen an observation is never all zero\n		return collation.Result{}, nil\n	}\n")],
 needs="a backend that leaves something in the buffer when it does not find the key",
 breaks="an instance never observed is answered from that",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, _ := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	res, err := s.Read(context.Background(), collation.Query{FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}, Criteria: row("k=a").Data})
	if err != nil || len(res.FieldMeasureValues) > 0 {
		t.Fatal(res, err)
	}
}
''')

seed(id="c29-seeded", prop="C29", pkg="internal/storage",
 edits=[(STO, "	key, found := r.KeyValue(s.Collator.Keys())\n	if !found {\n		// Nothing to do\n		return nil\n	}\n", "	key, found := r.KeyValue(s.Collator.Keys())\n	if !found {\n		// Nothing to do\n		return nil\n	}\n	key ^= salt\n"),
        (STO, "	key, found := q.KeyValue(s.Collator.Keys())\n	if !found {\n		// Nothing to do\n		return collation.Result{}, nil\n	}\n", "	key, found := q.KeyValue(s.Collator.Keys())\n	if !found {\n		// Nothing to do\n		return collation.Result{}, nil\n	}\n	key ^= salt\n"),
        (STO, 'import (\n	"context"\n', 'import (\n	"context"\n	"hash/maphash"\n'),
        (STO, "type Backend interface {", "// salt keeps clients from choosing values that collide.\nvar salt = maphash.String(maphash.MakeSeed(), \"\")\n\ntype Backend interface {")],
 needs="a backend that another process has filled",
 breaks="its instances are not found",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, k := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	s.Write(context.Background(), row("k=a"))
	for id := range k.recs {
		if os.Getenv("SEED_CHILD") != "" {
			fmt.Println("id", id)
			return
		}
		c := exec.Command(os.Args[0], "-test.run", "^TestSeed$")
		c.Env = append(os.Environ(), "SEED_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil || !strings.Contains(string(out), fmt.Sprintln("id", id)) {
			t.Fatalf("%d here, there %s %v", id, out, err)
		}
	}
}
''')

seed(id="c29-field-groups", prop="C29", pkg="internal/storage",
 edits=[(CMP, "	for _, ms := range s.Measures {\n", "	byField := make(map[string]*MeasureSpec)\n	for _, ms := range s.Measures {\n		if g, found := byField[ms.Field.Pattern]; found {\n			g.Measures = append(g.Measures[:len(g.Measures):len(g.Measures)], ms.Measures...)\n			continue\n		}\n		ms := ms\n		byField[ms.Field.Pattern] = &ms\n	}\n\n	for _, ms := range byField {\n")],
 needs="a schema with two fields, compiled twice",
 breaks="records of the one are not understood by the other",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	sch := collation.Schema{Keys: []collation.KeySpec{key("k")}, Measures: []collation.MeasureSpec{field("x", collation.Sum{}), field("y", collation.Sum{})}}
	s, _ := open(t, sch)
	s.Write(context.Background(), row("k=a x=1 y=2"))
	for i := 0; i < 60; i++ {
		c, err := sch.Compile()
		if err != nil {
			t.Fatal(err)
		}
		s.Collator = c
		if v := ask(t, s, "k=a", "x", "sum"); v != 1.0 {
			t.Fatal(v)
		}
	}
}
''')

seed(id="c29-intern", prop="C29", pkg="internal/storage",
 edits=[(CMP, 'import "fmt"\n', 'import (\n	"fmt"\n	"sort"\n	"sync"\n)\n\nvar (\n	rankMu sync.Mutex\n	ranks  = map[string]int{}\n)\n\n// rank numbers the fields of all collations.\nfunc rank(f string) int {\n	rankMu.Lock()\n	defer rankMu.Unlock()\n	if _, found := ranks[f]; !found {\n		ranks[f] = len(ranks)\n	}\n	return ranks[f]\n}\n'),
        (CMP, "	for _, ms := range s.Measures {\n", "	// Fields that are used together lie together\n	specs := append([]MeasureSpec(nil), s.Measures...)\n	for _, ms := range specs {\n		rank(ms.Field.Pattern)\n	}\n	sort.SliceStable(specs, func(i, j int) bool { return rank(specs[i].Field.Pattern) < rank(specs[j].Field.Pattern) })\n	for _, ms := range specs {\n")],
 needs="two processes that have compiled other schemas before, with the fields in another order",
 breaks="records of the one are not understood by the other",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	sch := collation.Schema{Keys: []collation.KeySpec{key("k")}, Measures: []collation.MeasureSpec{field("x", collation.Sum{}), field("y", collation.Sum{})}}
	if os.Getenv("SEED_CHILD") != "" {
		open(t, collation.Schema{Measures: []collation.MeasureSpec{field("y", collation.Sum{})}})
	}
	s, k := open(t, sch)
	s.Write(context.Background(), row("k=a x=1 y=2"))
	for _, rec := range k.recs {
		if os.Getenv("SEED_CHILD") != "" {
			fmt.Printf("rec %x.\\n", rec)
			return
		}
		c := exec.Command(os.Args[0], "-test.run", "^TestSeed$")
		c.Env = append(os.Environ(), "SEED_CHILD=1")
		out, err := c.CombinedOutput()
		i := strings.Index(string(out), "rec ")
		if err != nil || i < 0 {
			t.Fatal(string(out), err)
		}
		var other []byte
		fmt.Sscanf(string(out[i+4:]), "%x", &other)
		for id := range k.recs {
			k.recs[id] = other
		}
		if v := ask(t, s, "k=a", "x", "sum"); v != 1.0 {
			t.Fatal(v)
		}
	}
}
''')

seed(id="c29-early-exit", prop="C29", pkg="internal/storage",
 edits=[(SCH, "	for _, fv := range r.Data {\n		// Update measures that operate on the field as a continuous value\n		if ws, exists := c.contWriters[string(fv.F)]; exists {\n", "	left := len(c.contWriters)\n	if left == 0 {\n		left = len(c.discWriters)\n	}\n	for _, fv := range r.Data {\n		if left == 0 {\n			break // all measures have been updated\n		}\n		// Update measures that operate on the field as a continuous value\n		if ws, exists := c.contWriters[string(fv.F)]; exists {\n			left--\n")],
 needs="a schema with a number field and a text field, and an observation in which the text comes last",
 breaks="the text is not counted",
 demo=KEEP + '''
func TestSeed(t *testing.T) {
	s, _ := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, Measures: []collation.MeasureSpec{field("x", collation.Sum{}), field("u", collation.Cardinality{Precision: 8})}})
	s.Write(context.Background(), row("k=a x=1 u=2"))
	o, _ := open(t, collation.Schema{Keys: []collation.KeySpec{key("k")}, Measures: []collation.MeasureSpec{field("x", collation.Sum{}), field("u", collation.Cardinality{Precision: 8})}})
	o.Write(context.Background(), row("k=a u=2 x=1"))
	if a, b := ask(t, s, "k=a", "u", "uniquecount"), ask(t, o, "k=a", "u", "uniquecount"); a != b {
		t.Fatal(a, b)
	}
}
''')

seed(id="c15-cache-posts", prop="C15", pkg="internal/server",
 edits=[(SRV, '	w.Header().Set("Cache-control", "no-cache")\n', '	if r.Method != http.MethodGet || r.URL.RawQuery == "" {\n		w.Header().Set("Cache-control", "no-cache")\n	} else {\n		w.Header().Set("Cache-control", "max-age=1")\n	}\n')],
 needs="a cache between the client and the server, and a query repeated after an observation",
 breaks="the query may be answered from the cache",
 demo=MANY + '''
func TestSeed(t *testing.T) {
	s := many(t, 1)
	r := httptest.NewRequest("GET", "/collation/c0?q="+url.QueryEscape("select count(*) where k='v'"), nil)
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if !strings.Contains(w.Result().Header.Get("Cache-Control"), "no-") {
		t.Fatal(w.Result().Header)
	}
}
''')

seed(id="c15-partial", prop="C15", pkg="internal/server",
 edits=[(SRV, "			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n\n			for _, c := range q.Criteria {", "			if err != nil && len(res.FieldMeasureValues) == 0 {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n\n			for _, c := range q.Criteria {")],
 needs="a query for several measures of which a later one cannot be read",
 breaks="part of the answer is given as if it were all",
 demo=MANY + '''
type frail struct{ collation.Sum }

func (frail) Name() string { return "frail" }
func (frail) ContReader() collation.ContReaderFunc {
	return func([]byte) (float64, error) { return 0, io.ErrUnexpectedEOF }
}

func TestSeed(t *testing.T) {
	s := many(t, 0)
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: []collation.Measure{collation.Max{}, frail{}}}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s.Stores = []storage.Store{{Backend: bufmap.New(64, c.Size()), Collator: c}}
	s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/obs", strings.NewReader("1 k=v x=1")))
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+url.QueryEscape("select max(x), frail(x) where k='v'"), nil))
	if w.Code == 200 {
		t.Fatal(w.Body)
	}
}
''')
