BUF = "internal/bufmap/bufmap.go"
SCH = "internal/collation/schema.go"
CMP = "internal/collation/compile.go"
MEA = "internal/collation/measure.go"
SRV = "internal/server/server.go"
STO = "internal/storage/storage.go"
HLL = "internal/summary/hll/hll.go"
BLM = "internal/summary/bloom/bloom.go"
BIT = "internal/bitbucket/bitbucket.go"
FNV = "internal/hash/fnv/fnv.go"
S64 = "internal/summary/stat64/stats.go"
STA = "internal/stats/stats.go"
QRY = "internal/query/rough.go"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c17-countn-bytes", prop="C17", pkg="internal/bitbucket",
 edits=[(BIT, """	n := 0
	for i := 0; i < b.n; i++ {
		if b.Get(i) == v {
			n++
		}
	}
	return n
""", """	n := 0
	if b.w == 8 || b.w == 1 && v == 0 {
		// count in whole bytes
		for _, d := range b.data {
			if b.w == 8 {
				if d == v {
					n++
				}
				continue
			}
			for ; d != 0xff; d |= d + 1 {
				n++
			}
		}
		return n
	}
	for i := 0; i < b.n; i++ {
		if b.Get(i) == v {
			n++
		}
	}
	return n
""")],
 needs="a bit set whose number of bits is not a multiple of eight",
 breaks="the unused bits of the last byte are counted as zero buckets",
 demo='''package bitbucket

import "testing"

func TestSeed(t *testing.T) {
	b := New(13, 1)
	b.Set(4, 1)
	if n := b.CountN(0); n != 12 {
		t.Fatal(n)
	}
}
''')

seed(id="c17-set-last", prop="C17", pkg="internal/bitbucket",
 edits=[(BIT, """	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
}

func (b *BitBucket) incn""", """	b.data[index] = uint8((data & 0xff00) >> 8)
	if int(l) > 8-o%8 && index < len(b.data)-2 {
		// the bucket continues in the next byte
		b.data[index+1] = uint8(data & 0x00ff)
	}
}

func (b *BitBucket) incn""")],
 needs="setting a bucket that straddles the last two bytes",
 breaks="its low bits are lost",
 demo='''package bitbucket

import "testing"

func TestSeed(t *testing.T) {
	for w := uint8(1); w <= 8; w++ {
		for n := 1; n < 20; n++ {
			b := New(n, w)
			for i := 0; i < n; i++ {
				b.Set(i, b.Max())
				if b.Get(i) != b.Max() {
					t.Fatal(w, n, i, b.Get(i))
				}
			}
		}
	}
}
''')

seed(id="c18-adopt-tail", prop="C18", pkg="internal/bitbucket",
 edits=[(BIT, "		data: buf[hdrLen : hdrLen+buflen],", "		data: buf[hdrLen:],")],
 needs="a buffer longer than the structure it holds",
 breaks="Len and the saved form include the bytes beyond, and Reset wipes them",
 demo='''package bitbucket

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a := New(9, 3)
	a.Set(8, 5)
	var w bytes.Buffer
	a.WriteTo(&w)
	buf := append(w.Bytes(), 7, 7, 7)
	b, err := WithBytes(buf)
	if err != nil {
		t.Fatal(err)
	}
	b.Reset()
	if b.Len() != a.Len() || buf[len(buf)-1] != 7 {
		t.Fatal(b.Len(), buf)
	}
}
''')

seed(id="c18-bloom-k", prop="C18", pkg="internal/summary/bloom",
 edits=[(BLM, """	k := buf[1]
	bits, err""", """	k := buf[1] & 0x7f
	bits, err""")],
 needs="a filter with 128 hash functions or more (rates below 2^-128) adopted from its bytes",
 breaks="the adopted filter has another number of hash functions, and its further additions are missed by the original",
 demo='''package bloom

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a := NewBits(5000, 200)
	var w bytes.Buffer
	a.WriteTo(&w)
	buf := w.Bytes()
	b, err := WithBytes(buf)
	if err != nil {
		t.Fatal(err)
	}
	b.Add([]byte("x"))
	var c Bloom
	if _, err := c.ReadFrom(bytes.NewReader(buf)); err != nil {
		t.Fatal(err)
	}
	if !c.Has([]byte("x")) {
		t.Fatal("a value added to the adopted filter is not in its saved form")
	}
}
''')

seed(id="c19-write-count", prop="C19", pkg="internal/summary/bloom",
 edits=[(BLM, """	n0, err := b.bits.WriteTo(w)
	n += int(n0)
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
}

// ReadFrom""", """	n0, err := b.bits.WriteTo(w)
	if err != nil {
		return int64(n), err
	}

	return int64(n) + n0, nil
}

// ReadFrom""")],
 needs="a stream that fails while the bits are written",
 breaks="the number of bytes reported with the error is too small",
 demo='''package bloom

import (
	"errors"
	"testing"
)

type lim struct{ n int }

func (l *lim) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("full")
	}
	l.n -= len(p)
	return len(p), nil
}

func TestSeed(t *testing.T) {
	b := NewBits(100, 3)
	if n, err := b.WriteTo(&lim{15}); n != 15 || err == nil {
		t.Fatal(n, err)
	}
}
''')

seed(id="c19-partial-load", prop="C19", pkg="internal/bitbucket",
 edits=[(BIT, """		if err == io.EOF {
			return int64(n), io.ErrUnexpectedEOF
		}
		return int64(n), err
	}

	version""", """		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return int64(n), nil
		}
		return int64(n), err
	}

	version""")],
 needs="a stream cut within the header",
 breaks="the truncated stream is accepted and the structure keeps its old contents",
 demo='''package bitbucket

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	a := New(9, 3)
	var w bytes.Buffer
	a.WriteTo(&w)
	for i := 0; i < w.Len(); i++ {
		var b BitBucket
		if _, err := b.ReadFrom(bytes.NewReader(w.Bytes()[:i])); err == nil {
			t.Fatal("accepted", i, "bytes")
		}
	}
}
''')

seed(id="c20-last-probe", prop="C20", pkg="internal/summary/bloom",
 edits=[(BLM, """	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get""", """	for i := uint8(1); i < b.k; i++ {
		if b.bits.Get""")],
 needs="counting false positives (every added value is still found)",
 breaks="one probe is left out, so the false positive rate is about twice the designed one, and a filter with one hash function reports everything present",
 demo='''package bloom

import (
	"encoding/binary"
	"testing"
)

func TestSeed(t *testing.T) {
	b := NewBits(1000, 1)
	if b.Has([]byte("x")) {
		t.Fatal("an empty filter has a value")
	}
	_ = binary.BigEndian
}
''')

seed(id="c20-add-stops", prop="C20", pkg="internal/summary/bloom",
 edits=[(BLM, """		x := int(h.next())
		b.bits.Set(x, 1)
""", """		x := int(h.next())
		if i > 0 && b.k > 8 && b.bits.Get(x) == 1 {
			// the rest of the sequence repeats
			break
		}
		b.bits.Set(x, 1)
""")],
 needs="a filter with more than eight hash functions, and a value one of whose later bits is already set by another value",
 breaks="the remaining bits of the value are not set: an added value is reported absent",
 demo='''package bloom

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	b := New(200, 0.001)
	for i := 0; i < 200; i++ {
		b.Add([]byte(fmt.Sprint(i)))
	}
	for i := 0; i < 200; i++ {
		if !b.Has([]byte(fmt.Sprint(i))) {
			t.Fatal("forgotten:", i)
		}
	}
}
''')

seed(id="c21-range-runes", prop="C21", pkg="internal/hash/fnv",
 edits=[(FNV, """	hash := uint64(offset64)
	for i := 0; i < len(str); i++ {
		hash ^= uint64(str[i])
		hash *= prime64
	}
	return uint64(hash)""", """	hash := uint64(offset64)
	for _, c := range str {
		hash ^= uint64(c)
		hash *= prime64
	}
	return uint64(hash)""")],
 needs="a string with bytes beyond ASCII",
 breaks="the one-shot string hash differs from the hash of the same bytes",
 demo='''package fnv

import "testing"

func TestSeed(t *testing.T) {
	if String64a("Zürich") != Sum64a([]byte("Zürich")) {
		t.Fatal("hashes differ")
	}
}
''')

seed(id="c21-sum-shares", prop="C21", pkg="internal/hash/fnv",
 edits=[(FNV, """func New64a() *Fnv64a {
	var s Fnv64a = offset64
	return &s
}
""", """func New64a() *Fnv64a {
	spare64a.Reset()
	return &spare64a
}

// spare64a saves allocating a hash that is used only briefly
var spare64a Fnv64a
""")],
 needs="two hashers in use at the same time",
 breaks="they share their state",
 demo='''package fnv

import "testing"

func TestSeed(t *testing.T) {
	a := New64a()
	a.Write([]byte("abc"))
	b := New64a()
	b.Write([]byte("x"))
	if a.Sum64() != Sum64a([]byte("abc")) {
		t.Fatal("another hasher changed this one")
	}
}
''')

seed(id="c22-multi-mean", prop="C22", pkg="internal/summary/stat64",
 edits=[(S64, """	for _, v := range vs {
		count++
		sum += v

		// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
		delta := v - mean
		mean += delta / float64(count)
		ss += delta * (v - mean)
	}
""", """	for i, v := range vs {
		count++
		sum += v

		// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
		delta := v - mean
		mean += delta / float64(count)
		if i == 0 && count > 1 {
			// first of a further batch
			ss += delta * delta
			continue
		}
		ss += delta * (v - mean)
	}
""")],
 needs="a second batch",
 breaks="the variance of values fed in two batches differs from that of the same values fed at once",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	a, b := New(), New()
	a.UpdateMulti([]float64{1, 4, 9})
	b.UpdateMulti([]float64{1})
	b.UpdateMulti([]float64{4, 9})
	if a.Variance() != b.Variance() {
		t.Fatal(a.Variance(), b.Variance())
	}
}
''')

seed(id="c22-reset-short", prop="C22", pkg="internal/summary/stat64",
 edits=[(S64, "var zeroStats64 = bytes.Repeat([]byte{0}, size)", "var zeroStats64 = bytes.Repeat([]byte{0}, size-8)")],
 needs="a reset of a summary with some variance, then two more values",
 breaks="the sum of squares survives the reset",
 demo='''package stat64

import "testing"

func TestSeed(t *testing.T) {
	a := New()
	a.UpdateMulti([]float64{1, 4, 9})
	a.Reset()
	a.UpdateMulti([]float64{2, 2})
	if a.Variance() != 0 {
		t.Fatal(a.Variance())
	}
}
''')

seed(id="c22-meanvar-naive", prop="C22", pkg="internal/stats",
 edits=[(STA, """	for i := range vals {
		variance += (vals[i] - mean) * (vals[i] - mean)
	}
""", """	for i := range vals {
		variance += vals[i]*vals[i] - mean*mean
	}
""")],
 needs="values whose spread is small beside their size",
 breaks="the variance loses its digits by cancellation",
 demo='''package stats

import (
	"math"
	"testing"
)

func TestSeed(t *testing.T) {
	if _, v := Meanvar([]float64{1e9 + 1, 1e9 + 2, 1e9 + 3}); math.Abs(v-1) > 1e-6 {
		t.Fatal(v)
	}
}
''')

seed(id="c23-slots", prop="C23", pkg="",
 edits=[("demo.go", "bufmap.New(5000, coll.Size())", "bufmap.New(300, coll.Size())")],
 needs="as many groups as the documented dataset has",
 breaks="observations of the later groups are refused: no free slot near their hash",
 demo='''package main

import (
	"context"
	"fmt"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
)

func TestSeed(t *testing.T) {
	s := server.New()
	setupDemo(s)
	for i := 0; i < 300; i++ {
		row := collation.Row{Data: collation.FVList{{F: []byte("tz"), V: []byte(fmt.Sprintf("Zone/%d", i))}, {F: []byte("country"), V: []byte(fmt.Sprint(i % 240))}, {F: []byte("height"), V: []byte("1")}, {F: []byte("iata"), V: []byte("ABC")}}}
		for _, st := range s.Stores {
			if err := st.Write(context.Background(), row); err != nil {
				t.Fatal(i, err)
			}
		}
	}
}
''')

seed(id="c23-precision", prop="C23", pkg="",
 edits=[("demo.go", """				Field:    collation.FieldSpec{Pattern: "height"},
				Measures: []collation.Measure{collation.Cardinality{Precision: 8}},""", """				Field:    collation.FieldSpec{Pattern: "elevation"},
				Measures: []collation.Measure{collation.Cardinality{Precision: 8}},""")],
 needs="asking the tz collation for uniquecount(height)",
 breaks="the documented measure is not answered",
 demo='''package main

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
)

func TestSeed(t *testing.T) {
	s := server.New()
	setupDemo(s)
	row := collation.Row{Data: collation.FVList{{F: []byte("tz"), V: []byte("UTC")}, {F: []byte("height"), V: []byte("1")}}}
	for _, st := range s.Stores {
		if st.Collator.Name() != "tz" {
			continue
		}
		st.Write(context.Background(), row)
		r, err := st.Read(context.Background(), collation.Query{FieldMeasures: []collation.FM{{F: []byte("height"), M: [][]byte{[]byte("uniquecount")}}}, Criteria: collation.FVList{{F: []byte("tz"), V: []byte("UTC")}}})
		if err != nil || len(r.FieldMeasureValues) != 1 {
			t.Fatal(r, err)
		}
	}
}
''')

seed(id="c09-first-key-only", prop="C09", pkg="internal/collation",
 edits=[(SCH, """		return 0, false
	}

	return h.Sum64(), true""", """		if i == 0 {
			return 0, false
		}
	}

	return h.Sum64(), true""")],
 needs="a collation with two key fields and an observation or query that lacks the second",
 breaks="it counts for a group it does not belong to",
 demo='''package collation

import "testing"

func TestSeed(t *testing.T) {
	fv := FVList{{F: []byte("a"), V: []byte("1")}}
	if _, ok := fv.KeyValue([][]byte{[]byte("a"), []byte("b")}); ok {
		t.Fatal("a key field is missing")
	}
}
''')

seed(id="c06-get-retry", prop="C06", pkg="internal/seqlock",
 edits=[("internal/seqlock/seqlock.go", """	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}
""", """	seq1 := atomic.LoadUint32(&s.seq)
	for {
		// Is a writer currently writing?
		if seq1%2 != 0 {
			seq1 = atomic.LoadUint32(&s.seq)
			continue
		}
"""), ("internal/seqlock/seqlock.go", """			// No update was made
			return
		}
	}
}

// Put""", """			// No update was made
			return
		}

		// Try again, a writer that has begun meanwhile will be seen at the end
		seq1 = seq2 + seq2&1
	}
}

// Put""")],
 needs="a reader whose copy meets the start of a write, and whose second copy ends just after that write",
 breaks="the second copy is started while the write is in progress and accepted as if it had begun after it",
 demo='''package seqlock

import (
	"runtime"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	end := time.Now().Add(100 * time.Second)
	stop := make(chan bool)
	go func() {
		var d [1024]byte
		for v := byte(0); ; v++ {
			select {
			case <-stop:
				return
			default:
			}
			for i := range d {
				d[i] = v
			}
			s.Put(d)
		}
	}()
	bad := make(chan [2]byte, 4)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 20000000 && time.Now().Before(end); i++ {
				v := s.Get()
				for j := range v {
					if v[j] != v[0] {
						bad <- [2]byte{v[0], v[j]}
						return
					}
				}
			}
			bad <- [2]byte{}
		}()
	}
	for g := 0; g < 4; g++ {
		if b := <-bad; b != [2]byte{} {
			close(stop)
			t.Fatal("torn read", b)
		}
		if g == 0 {
			end = time.Now()
		}
	}
	close(stop)
}
''')
