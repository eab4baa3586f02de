exec(open("/verif/tools/seeds6.py").read().split("LIFE = '''")[0])

OWN = '''package collation

import "testing"

type rec struct{}

func (rec) Size() int    { return 2 }
func (rec) Name() string { return "rec" }
func (rec) RowWriter() RowWriterFunc {
	return func(buf []byte, init bool) error { buf[0], buf[1] = 'o', 'k'; return nil }
}
func (rec) DiscReader() DiscReaderFunc {
	return func(buf []byte) ([]byte, error) { return buf[:2], nil }
}

type last struct{}

func (last) Size() int    { return 1 }
func (last) Name() string { return "last" }
func (last) DiscWriter() DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error { buf[0] = v[0]; return nil }
}
func (last) DiscReader() DiscReaderFunc {
	return func(buf []byte) ([]byte, error) { return buf[:1], nil }
}

type text struct{}

func (text) Size() int    { return 3 }
func (text) Name() string { return "text" }
func (text) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error { buf[2] = 'a' + byte(v); return nil }
}
func (text) DiscReader() DiscReaderFunc {
	return func(buf []byte) ([]byte, error) { return buf[2:3], nil }
}

func TestSeed(t *testing.T) {
	s := Schema{Name: "c", RecordMeasures: []RowMeasure{Count{}, rec{}}, Measures: []MeasureSpec{
		{Field: FieldSpec{Pattern: "x"}, Measures: []Measure{Sum{}, last{}, text{}, Max{}}},
	}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	if err := c.Update(Row{Data: FVList{{F: []byte("x"), V: []byte("7")}}}, buf, true); err != nil {
		t.Fatal(err)
	}
	m := func(n ...string) (r [][]byte) {
		for _, x := range n {
			r = append(r, []byte(x))
		}
		return
	}
	res, err := c.Read([]FM{{F: []byte("*"), M: m("count", "rec")}, {F: []byte("x"), M: m("sum", "last", "text", "max")}}, buf)
	if err != nil {
		t.Fatal(err)
	}
	got := map[string]interface{}{}
	for _, v := range res.FieldMeasureValues {
		k := string(v.F) + string(v.M)
		if b, ok := v.V.([]byte); ok {
			got[k] = string(b)
			continue
		}
		got[k] = v.V
	}
	want := map[string]interface{}{"*count": 1.0, "*rec": "ok", "xsum": 7.0, "xlast": "7", "xtext": "h", "xmax": 7.0}
	if len(got) != len(want) {
		t.Fatal(got)
	}
	for k, v := range want {
		if got[k] != v {
			t.Fatal(k, got)
		}
	}
}
'''

seed(id="c08-disc-else", prop="C08", pkg="internal/collation",
 edits=[(SCH, """		if rs, exists := c.discReaders[field]; exists {
			for _, measure := range fm.M {
""", """		if rs, exists := c.discReaders[field]; exists && c.contReaders[field] == nil {
			for _, measure := range fm.M {
""")],
 needs="a field with a measure that reports a number and one that reports a text",
 breaks="the measure that reports a text is not answered",
 demo=OWN)

seed(id="c08-rec-disc-range", prop="C08", pkg="internal/collation",
 edits=[("internal/collation/compile.go", """			crs[m.Name()] = discReader{
				Low:  pos,
				High: pos + size,
				Fn:   cm.DiscReader(),
			}
			coll.discReaders[RowPseudoField] = crs
""", """			crs[m.Name()] = discReader{
				Low:  coll.size - pos,
				High: coll.size - pos + size,
				Fn:   cm.DiscReader(),
			}
			coll.discReaders[RowPseudoField] = crs
""")],
 needs="a record measure that reports a text after another record measure",
 breaks="the text is read from the bytes of the first record measure",
 demo=OWN)

seed(id="c08-text-range", prop="C08", pkg="internal/collation",
 edits=[("internal/collation/compile.go", """					crs[m.Name()] = discReader{
						Low:  low,
						High: hi,
						Fn:   cm.DiscReader(),
					}
""", """					crs[m.Name()] = discReader{
						Low:  stat64Low,
						High: stat64Low + size,
						Fn:   cm.DiscReader(),
					}
""")],
 needs="a measure of numbers that reports a text on a field next to others",
 breaks="the text is read from another measure's bytes",
 demo=OWN)
