exec(open("/verif/tools/seeds6.py").read().split("LIFE = '''")[0])

seed(id="c07-count32", prop="C07", pkg="internal/collation",
 edits=[(COLL, """		c := binary.LittleEndian.Uint64(buf)
		c++
		binary.LittleEndian.PutUint64(buf, c)
		return nil
""", """		c := binary.LittleEndian.Uint32(buf)
		c++
		binary.LittleEndian.PutUint32(buf, c)
		return nil
""")],
 needs="more than 4294967295 observations of a group",
 breaks="the count starts again at 0",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	s := Schema{Name: "c", RecordMeasures: []RowMeasure{Count{}}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := []byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0}
	if err := c.Update(Row{}, buf, false); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}, buf)
	if err != nil || res.FieldMeasureValues[0].V != float64(1<<32) {
		t.Fatal(res, err)
	}
}
''')

seed(id="c22-multi-count32", prop="C22", pkg="internal/summary/stat64",
 edits=[(ST64, """	for _, v := range vs {
		count++
		sum += v
""", """	n := uint32(count)
	for _, v := range vs {
		n++
		count = count&^0xffffffff | uint64(n)
		sum += v
""")],
 needs="a batch in which the number of values passes a multiple of 2^32",
 breaks="the count falls back, and mean and variance go wrong",
 demo='''package stat64

import (
	"encoding/binary"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	binary.LittleEndian.PutUint64(s, 1<<32-1)
	s.UpdateMulti([]float64{0, 0})
	if s.Count() != 1<<32+1 {
		t.Fatal(s.Count())
	}
}
''')
