exec(open("/verif/tools/seeds9.py").read().split("seed(id=")[0])
RGH = "internal/query/rough.go"
CMP = "internal/collation/compile.go"
BMP = "internal/bufmap/bufmap.go"
BIT = "internal/bitbucket/bitbucket.go"

seed(id="c26-no-term", prop="C26", pkg="internal/server",
 edits=[(SRV, "	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n", "	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM}\n	if s.Net == \"unix\" {\n		sigs = sigs[:1]\n	}\n	signal.Notify(ch, sigs...)\n")],
 needs="a termination signal to a server on a Unix socket",
 breaks="Serve does not return: the process is killed instead",
 demo=WEB.replace('	"fmt"\n', '	"fmt"\n	"net"\n	"os"\n	"os/exec"\n	"path/filepath"\n	"syscall"\n') + '''
func TestSeed(t *testing.T) {
	if a := os.Getenv("SEED_SOCK"); a != "" {
		s := New()
		s.Net, s.Addr = "unix", a
		if err := s.Serve(); err != nil {
			os.Exit(3)
		}
		os.Exit(0)
	}
	a := filepath.Join(t.TempDir(), "s")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestSeed$")
	cmd.Env = append(os.Environ(), "SEED_SOCK="+a)
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 1000; i++ {
		if c, err := net.Dial("unix", a); err == nil {
			c.Close()
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(500 * time.Millisecond)
	cmd.Process.Signal(syscall.SIGTERM)
	if err := cmd.Wait(); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c08-hide-err", prop="C08", pkg="internal/collation",
 edits=[(SCH, """				if err := w.UpdateFloat64(buf, init, v); err != nil {
					return err
				}
			}
		}
""", """				if err := w.UpdateFloat64(buf, init, v); err != nil {
					break
				}
			}
		}
""")],
 needs="a measure that refuses a number",
 breaks="the observation is taken although one of its measures refused it, and the measures after that one miss it",
 demo='''package collation

import (
	"errors"
	"testing"
)

type seedRefuse struct{}

func (seedRefuse) Name() string { return "refuse" }
func (seedRefuse) Size() int    { return 1 }
func (seedRefuse) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { return errors.New("no") }
}

func TestSeed(t *testing.T) {
	s := Schema{Name: "c", Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{seedRefuse{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("1")}}}, make([]byte, c.Size()), true); err == nil {
		t.Fatal("no error")
	}
}
''')

seed(id="c09-many-fields", prop="C09", pkg="internal/collation",
 edits=[(SCH, """	h := fnv.New64()
	// TODO: optimize naive key search
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal""", """	h := fnv.New64()
	var used [4]uint64 // fields that cannot match another key
outer:
	for i := range keys {
		for j := range fv {
			if used[j>>6&3]>>(uint(j)&63)&1 != 0 {
				continue
			}
			if bytes.Equal"""), (SCH, """				h.Write(fv[j].V)
				continue outer
""", """				h.Write(fv[j].V)
				used[j>>6&3] |= 1 << (uint(j) & 63)
				continue outer
""")],
 needs="a row in which two key fields lie 256 fields apart",
 breaks="the second one is not found",
 demo='''package collation

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	fv := FVList{{F: []byte("a"), V: []byte("1")}}
	for i := 1; i < 256; i++ {
		fv = append(fv, FV{F: []byte(fmt.Sprint("z", i)), V: []byte("1")})
	}
	fv = append(fv, FV{F: []byte("b"), V: []byte("1")})
	if _, ok := fv.KeyValue([][]byte{[]byte("a"), []byte("b")}); !ok {
		t.Fatal("not found")
	}
}
''')

seed(id="c09-key-limit", prop="C09", pkg="internal/collation",
 edits=[(SCH, """	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
				h.Write(fv[j].F)
				h.Write(fv[j].V)
				continue outer
			}
		}
		return 0, false
	}
""", """	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
				if i < 8 {
					h.Write(fv[j].F)
					h.Write(fv[j].V)
				}
				continue outer
			}
		}
		return 0, false
	}
""")],
 needs="a collation of more than eight key fields",
 breaks="instances that differ in a key field beyond the eighth are merged",
 demo='''package collation

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	mk := func(last string) (FVList, [][]byte) {
		var fv FVList
		var ks [][]byte
		for i := 0; i < 10; i++ {
			n := []byte(fmt.Sprint("k", i))
			fv = append(fv, FV{F: n, V: []byte("1")})
			ks = append(ks, n)
		}
		fv[9].V = []byte(last)
		return fv, ks
	}
	a, ks := mk("1")
	b, _ := mk("2")
	x, _ := a.KeyValue(ks)
	y, _ := b.KeyValue(ks)
	if x == y {
		t.Fatal("merged")
	}
}
''')

for w, n in (("select", 1), ("where", 2)):
    seed(id="c12-limit-" + w, prop="C12", pkg="internal/query",
     edits=[(RGH, "%sRe.FindAllStringSubmatch(parts[%d], -1)" % (w, n), "%sRe.FindAllStringSubmatch(parts[%d], 64)" % (w, n))],
     needs="a query with more than 64 items in its %s part" % w,
     breaks="the rest of them is dropped",
     demo='''package query

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	q := "select count(f0)"
	for i := 1; i < 100; i++ {
		q += fmt.Sprintf(", count(f%d)", i)
	}
	q += " where k0='v'"
	for i := 1; i < 100; i++ {
		q += fmt.Sprintf(" and k%d='v'", i)
	}
	r, err := RoughParse(q)
	if err != nil || len(r.FieldMeasures) != 100 || len(r.Criteria) != 100 {
		t.Fatal(len(r.FieldMeasures), len(r.Criteria), err)
	}
}
''')

seed(id="c03-off32", prop="C03", pkg="internal/bufmap",
 edits=[(BMP, "	s := &m.keys[x]\n	for {\n", "	s := &m.keys[x]\n	off := uint32(x) * uint32(m.s)\n	for {\n"),
        (BMP, "		copy(buf, m.values[x*m.s:(x+1)*m.s])", "		copy(buf, m.values[off:off+uint32(m.s)])")],
 needs="a table of more than 4 GB",
 breaks="a record beyond the 4 GB is read from another place",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(5000, 1<<20)
	for k := uint64(1); k < 5000; k += 617 {
		if err := m.Update(k, func(d []byte, init bool) error { d[0] = byte(k) | 1; return nil }); err != nil {
			t.Fatal(err)
		}
	}
	buf := make([]byte, 1<<20)
	for k := uint64(1); k < 5000; k += 617 {
		if !m.Get(k, buf) || buf[0] != byte(k)|1 {
			t.Fatal(k)
		}
	}
}
''')

seed(id="c17-off32", prop="C17", pkg="internal/bitbucket",
 edits=[(BIT, "	b.set(i*int(b.w), b.w, v)", "	b.set(int(uint32(i)*uint32(b.w)), b.w, v)")],
 needs="a bucket more than 2^32 bits from the start",
 breaks="another bucket is set",
 demo='''package bitbucket

import "testing"

func TestSeed(t *testing.T) {
	b := New(600000000, 8)
	b.Set(599999999, 77)
	if b.Get(599999999) != 77 {
		t.Fatal("lost")
	}
}
''')

seed(id="c05-amount32", prop="C05", pkg="internal/incmap",
 edits=[(INC, "	atomic.AddUint64(&m.values[x], d)\n", "	atomic.AddUint64(&m.values[x], uint64(int64(float64(d))))\n")],
 needs="an amount beyond 2^53",
 breaks="it is rounded",
 demo='''package incmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(10)
	m.Inc(1, 1<<60+1)
	if v, _ := m.Get(1); v != 1<<60+1 {
		t.Fatal(v)
	}
}
''')

seed(id="c08-pos16", prop="C08", pkg="internal/collation",
 edits=[(CMP, "			low, hi := pos, pos+size\n", "			low := pos\n			if pos >= 1<<18 {\n				low = pos &^ (1 << 18)\n			}\n			hi := low + size\n")],
 needs="a record of more than 262144 bytes",
 breaks="a measure lies over the first ones",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Name: "c", Measures: []MeasureSpec{{Field: FieldSpec{Pattern: "u"}, Measures: []Measure{Max{}, Cardinality{Precision: 18}, Min{}}},
		{Field: FieldSpec{Pattern: "v"}, Measures: []Measure{Max{}, Cardinality{Precision: 18}, Min{}}}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	for i, v := range []string{"5", "7"} {
		if err := c.Update(Row{Data: FVList{{F: []byte("u"), V: []byte(v)}, {F: []byte("v"), V: []byte("1000")}}}, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	r, err := c.Read([]FM{{F: []byte("u"), M: [][]byte{[]byte("max"), []byte("min"), []byte("uniquecount")}}}, buf)
	if err != nil {
		t.Fatal(err)
	}
	for _, m := range r.FieldMeasureValues {
		if want := map[string]float64{"max": 7, "min": 5}[string(m.M)]; want != 0 && m.V != want || want == 0 && m.V.(float64) > 5 {
			t.Fatalf("%s %v", m.M, m.V)
		}
	}
}
''')
