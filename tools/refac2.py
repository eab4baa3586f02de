# Second set of edits that keep the behaviour: other data structures, goroutines and buffers.
BATCHES = {}
B = "internal/bufmap/bufmap.go"; S = "internal/server/server.go"; C = "internal/collation/compile.go"; Q = "internal/seqlock/seqlock.go"
I = "internal/incmap/incmap.go"; F = "internal/hash/fnv/fnv.go"; T = "internal/bitbucket/bitbucket.go"; R = "internal/query/rough.go"
_src = lambda f: open("/repo/" + f).read()
def _between(f, a, b):
    s = _src(f); i = s.index(a); return s[i:s.index(b, i)]

# --- copy on write instead of sequence locks, the server answers from a buffer, cached query plans
BATCHES["cow"] = [
 (Q, _between(Q, "type Seqlock struct", "\x00") if False else _src(Q)[_src(Q).index("type Seqlock struct"):], """type Seqlock struct {
	mu  sync.Mutex
	cur atomic.Value // of *[1024]byte, which is not changed once stored
}

func New() *Seqlock {
	s := &Seqlock{}
	s.cur.Store(new([1024]byte))
	return s
}

// Get returns the data in the seqlock
func (s *Seqlock) Get() (ret [1024]byte) {
	return *s.cur.Load().(*[1024]byte)
}

// Put replaces the data in the seqlock
func (s *Seqlock) Put(v [1024]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cur.Store(&v)
}

// Update applies the update function to the data in the seqlock.
// If the function returns an error then the update is aborted.
func (s *Seqlock) Update(fn func(data []byte) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	next := s.Get()
	err := fn(next[:])
	if err == nil {
		s.cur.Store(&next)
	}
	return err
}
"""),
 (B, _src(B)[_src(B).index("// New creates a Map"):_src(B).index("// pos maps")], """// New creates a Map with l buffers each consisting of s bytes
func New(l, s int) *Map {
	m := &Map{l: l, s: s, keys: make([]slot, l)}
	return m
}

type slot struct {
	key uint64       // key occupying this slot
	rec atomic.Value // of []byte, not changed once stored
	mu  sync.Mutex   // held by writers
}

// maximum number of hops to make during a linear probe.
const maxReprobe = 10

// Get atomically reads a buffer value stored against key k into buffer buf.
// The return value will be false if the key could not be found in the map.
func (m *Map) Get(k uint64, buf []byte) bool {
	if k == 0 {
		return false
	}
	for i := 0; i <= maxReprobe; i++ {
		s := &m.keys[m.pos(k, i)]
		if atomic.LoadUint64(&s.key) != k {
			continue
		}
		rec, ok := s.rec.Load().([]byte)
		if ok {
			copy(buf, rec)
		}
		return ok
	}
	return false
}

// Update finds the buffer stored against key k and atomically updates it with
// v using the function fn. It returns the error returned by fn, if any. It
// will also return an error if the map is full. The function fn may be called
// multiple times during a single call to Update, or not called at all if the
// map cannot find space for the key.
func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
	if k == 0 {
		return ErrInvalidKey
	}
	for i := 0; i <= maxReprobe; i++ {
		s := &m.keys[m.pos(k, i)]
		atomic.CompareAndSwapUint64(&s.key, 0, k)
		if atomic.LoadUint64(&s.key) == k {
			return s.update(m.s, fn)
		}
	}
	return ErrOutOfSlots
}

func (s *slot) update(n int, fn func(data []byte, init bool) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	next := make([]byte, n)
	cur, ok := s.rec.Load().([]byte)
	if ok {
		copy(next, cur)
	}
	if err := fn(next, !ok); err != nil {
		return err
	}
	s.rec.Store(next)
	return nil
}

"""),
 (B, """	l      int // length
	s      int // stride
	keys   []slot
	values []byte
""", """	l    int // length
	s    int // stride
	keys []slot
"""),
 (I, _src(I)[_src(I).index("type Map struct"):_src(I).index("// pos maps")], """type Map struct {
	l     int
	slots []slot
}

type slot struct {
	key, value uint64
}

// New creates a Map with the size l.
func New(l int) *Map {
	m := new(Map)
	m.l, m.slots = l, make([]slot, l)
	return m
}

const maxReprobe = 10

// Inc increments the value stored against key k by amount d. It
// returns true if the increment succeeded, false otherwise, e.g.
// when the map is full.
func (m *Map) Inc(k uint64, d uint64) bool {
	if k == 0 {
		return false
	}
	s := m.find(k, true)
	if s == nil {
		return false
	}
	for {
		v := atomic.LoadUint64(&s.value)
		if atomic.CompareAndSwapUint64(&s.value, v, v+d) {
			return true
		}
	}
}

// Get retrieves the value stored against key k. The second return
// value will be false if the key could not be found in the map.
func (m *Map) Get(k uint64) (uint64, bool) {
	if k == 0 {
		return 0, false
	}
	if s := m.find(k, false); s != nil {
		return atomic.LoadUint64(&s.value), true
	}
	return 0, false
}

func (m *Map) find(k uint64, take bool) *slot {
	for i := 0; i <= maxReprobe; i++ {
		s := &m.slots[m.pos(k, i)]
		have := atomic.LoadUint64(&s.key)
		if have == 0 && take {
			if atomic.CompareAndSwapUint64(&s.key, 0, k) {
				return s
			}
			have = atomic.LoadUint64(&s.key)
		}
		if have == k {
			return s
		}
	}
	return nil
}

"""),
 (S, """			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
""", """			var out []byte
			for _, c := range q.Criteria {
				out = append(append(append(append(out, c.F...), '='), c.V...), '\\n')
			}
			for _, f := range res.FieldMeasureValues {
				out = append(append(out, f.String()...), '\\n')
			}
			w.Header().Set("Content-Length", strconv.Itoa(len(out)))
			w.Write(out)
			return
"""),
 (S, """	q, err := query.RoughParse(qstr)
""", """	q, err := s.parse(qstr)
"""),
 (S, """	mux *http.ServeMux
}
""", """	mux *http.ServeMux

	mu     sync.Mutex
	parsed map[string]collation.Query // recent queries
}

// parse parses a query, remembering a few of them.
func (s *Server) parse(text string) (collation.Query, error) {
	s.mu.Lock()
	q, ok := s.parsed[text]
	s.mu.Unlock()
	if ok {
		return q, nil
	}
	q, err := query.RoughParse(text)
	if err != nil || len(text) > 200 {
		return q, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.parsed == nil || len(s.parsed) >= 64 {
		s.parsed = make(map[string]collation.Query)
	}
	s.parsed[text] = q
	return q, nil
}
"""),
 (S, """	"strings"
	"syscall"
""", """	"strings"
	"sync"
	"syscall"
"""),
 (S, """	lr := &lineReader{r: r}
	sc := bufio.NewScanner(lr)
	sc.Split(lr.split)
""", """	lr := &lineReader{r: r}
	sc := bufio.NewScanner(lr)
	bp := scanBufs.Get().(*[]byte)
	defer scanBufs.Put(bp)
	sc.Buffer(*bp, bufio.MaxScanTokenSize)
	sc.Split(lr.split)
"""),
 (S, """// lineReader reads lines""", """var scanBufs = sync.Pool{New: func() interface{} {
	b := make([]byte, 4096)
	return &b
}}

// lineReader reads lines"""),
]

# --- the compile step in helpers, with one list of readers; rows parsed by scanning
_comp = _src(C)
BATCHES["compile"] = [
 (C, _comp[_comp.index("		if cm, ok := m.(ContinuousOutput); ok {\n			crs, found := coll.contReaders[RowPseudoField]"):_comp.index("		if im, ok := m.(Initialiser); ok {\n			coll.inits = append(coll.inits, initer{Low: pos")],
  """		coll.addReaders(RowPseudoField, m, pos, pos+size)

"""),
 (C, _comp[_comp.index("				if cm, ok := m.(ContinuousOutput); ok {\n					crs, found := coll.contReaders[ms.Field.Pattern]\n					if !found {\n						crs = make(map[string]contReader)\n					}\n					crs[m.Name()] = contReader{\n						Low:  low"):_comp.index("				pos += size\n				coll.size += size\n			}\n\n			if dm")],
  """				coll.addReaders(ms.Field.Pattern, m, low, hi)

"""),
 (C, _comp[_comp.rindex("				if cm, ok := m.(ContinuousOutput); ok {"):_comp.rindex("				pos += size")], """				coll.addReaders(ms.Field.Pattern, m, pos, pos+size)

"""),
 (C, "func (s *Schema) Compile() (Collator, error) {\n", """// addReaders makes the outputs of m, kept in buf[low:hi], known as measures of field.
func (c *Collator) addReaders(field string, m Measure, low, hi int) {
	if o, ok := m.(ContinuousOutput); ok {
		if c.contReaders[field] == nil {
			c.contReaders[field] = map[string]contReader{}
		}
		c.contReaders[field][m.Name()] = contReader{low, hi, o.ContReader()}
	}
	if o, ok := m.(DiscreteOutput); ok {
		if c.discReaders[field] == nil {
			c.discReaders[field] = map[string]discReader{}
		}
		c.discReaders[field][m.Name()] = discReader{low, hi, o.DiscReader()}
	}
}

func (s *Schema) Compile() (Collator, error) {
"""),
 ("internal/collation/measure.go", """func (Max) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if math.IsNaN(v) {
			return nil
		}
		if !init {
			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
			if c >= v {
				return nil
			}
		}
		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		return nil
	}
}
""", """func (Max) ContWriter() ContWriterFunc { return extreme(func(v, c float64) bool { return v > c }) }

// extreme keeps the value that beats the ones before.
func extreme(beats func(v, c float64) bool) ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		if beats(v, c) || math.IsNaN(c) {
			binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		}
		return nil
	}
}
"""),
 ("internal/collation/measure.go", """func (Min) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if math.IsNaN(v) {
			return nil
		}
		if !init {
			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
			if c <= v {
				return nil
			}
		}
		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		return nil
	}
}
""", """func (Min) ContWriter() ContWriterFunc { return extreme(func(v, c float64) bool { return v < c }) }
"""),
 ("internal/collation/measure.go", """
		if init {
			s := hll.New(uint8(c.Precision))
			s.Add(v)

			var b bytes.Buffer
			_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow
			copy(buf, b.Bytes())
			return err
		}

""", ""),
 ("internal/collation/schema.go", """		rec := buf
		if len(rec) > c.size {
			rec = rec[:c.size]
		}
		for i := range rec {
			rec[i] = 0
		}
""", """		copy(buf, make([]byte, c.size))
"""),
 ("internal/storage/storage.go", """	return s.Backend.Update(spread(key), t.Do)
""", """	err := s.Backend.Update(spread(key), t.Do)
	return err
"""),
 (S, """	var p int
	// Read timestamp
	for p = 0; p < len(data); p++ {
		if data[p] < '0' || data[p] > '9' {
			break
		}
	}

	if p == 0 {
""", """	notDigit := func(r rune) bool { return r < '0' || r > '9' }
	p := bytes.IndexFunc(data, notDigit)
	if p < 0 {
		p = len(data)
	}

	if p == 0 {
"""),
 (S, """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}

	return row, nil
""", """	row.Data = make(collation.FVList, 0, bytes.Count(data[p:], []byte{delim})+1)
	for rest := data[p:]; rest != nil; {
		field := rest
		if offset := bytes.IndexByte(rest, delim); offset >= 0 {
			field, rest = rest[:offset], rest[offset+1:]
		} else {
			rest = nil
		}
		row.Data = append(row.Data, parseFV(field))
	}

	return row, nil
"""),
 (R, _between(R, "	fields := map[string][][]byte{}", "	wheres :="), """	var fms []collation.FM
next:
	for _, s := range selectRe.FindAllStringSubmatch(parts[1], -1) {
		for i := range fms {
			if string(fms[i].F) == s[2] {
				fms[i].M = append(fms[i].M, []byte(s[1]))
				continue next
			}
		}
		fms = append(fms, collation.FM{F: []byte(s[2]), M: [][]byte{[]byte(s[1])}})
	}
	q.FieldMeasures = fms

"""),
]

# --- goroutines: the body is read ahead and the queries answered in a worker; channels as locks
BATCHES["ahead"] = [
 (S, """	sc := bufio.NewScanner(lr)
""", """	sc := bufio.NewScanner(bufio.NewReaderSize(lr, 16))
"""),
 (B, """	mu  sync.Mutex

	// live""", """	mu  chan struct{}

	// live"""),
 (B, """	return &Map{
		l:      l,
		s:      s,
		keys:   make([]slot, l),
		values: make([]byte, l*s),
	}
}
""", """	m := &Map{
		l:      l,
		s:      s,
		keys:   make([]slot, l),
		values: make([]byte, l*s),
	}
	for i := range m.keys {
		m.keys[i].mu = make(chan struct{}, 1)
	}
	return m
}
"""),
 (B, """	s.mu.Lock()

	// Only""", """	s.mu <- struct{}{}

	// Only"""),
 (B, """			s.mu.Unlock()
		}
	}()
""", """			<-s.mu
		}
	}()
"""),
 (B, """	// Allow access by other writers
	s.mu.Unlock()
""", """	// Allow access by other writers
	<-s.mu
"""),
 (B, """	"errors"
	"sync"
	"sync/atomic"
""", """	"errors"
	"sync/atomic"
"""),
 (S, """			res, err := store.Read(ctx, q)
			if err != nil {
""", """			type answer struct {
				res collation.Result
				err error
			}
			ch := make(chan answer, 1)
			st := store
			go func() {
				r, err := st.Read(ctx, q)
				ch <- answer{r, err}
			}()
			a := <-ch
			res, err := a.res, a.err
			if err != nil {
"""),
 (F, _between(F, "	hash := *s // avoid", "// Write adds the single byte b"), """	*s = fold(*s, data)
	return len(data), nil
}

func fold(h Fnv64, data []byte) Fnv64 {
	for len(data) >= 4 {
		h = (h * prime64) ^ Fnv64(data[0])
		h = (h * prime64) ^ Fnv64(data[1])
		h = (h * prime64) ^ Fnv64(data[2])
		h = (h * prime64) ^ Fnv64(data[3])
		data = data[4:]
	}
	for _, c := range data {
		h = (h * prime64) ^ Fnv64(c)
	}
	return h
}

"""),
 (F, _between(F, "func sum(n uint64", "// String64 returns"), """func sum(n uint64, buf []byte) []byte {
	for shift := 56; shift >= 0; shift -= 8 {
		buf = append(buf, byte(n>>uint(shift)))
	}
	return buf
}

"""),
 (T, """	n := 0
	for i := 0; i < b.n; i++ {
		if b.Get(i) == v {
			n++
		}
	}
	return n
}
""", """	var hist [256]int
	for i := 0; i < b.n; i++ {
		hist[b.Get(i)]++
	}
	return hist[v]
}
"""),
 (T, """	// Allocate as data arrives, the length in the header may be wrong
	var data bytes.Buffer
	n0, err := io.CopyN(&data, r, int64(length(c, w)))
	n += int(n0)
	if err != nil {
		if err == io.EOF {
			return int64(n), io.ErrUnexpectedEOF
		}
		return int64(n), err
	}

	b.w = w
	b.n = c
	b.data = data.Bytes()
""", """	// Allocate as data arrives, the length in the header may be wrong
	data := []byte{}
	for want := length(c, w); len(data) < want; {
		chunk := want - len(data)
		if chunk > 4096 {
			chunk = 4096
		}
		part := make([]byte, chunk)
		n0, err := io.ReadFull(r, part)
		n += n0
		if err != nil {
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				return int64(n), io.ErrUnexpectedEOF
			}
			return int64(n), err
		}
		data = append(data, part...)
	}

	*b = BitBucket{data: data, n: c, w: w}
"""),
 (T, """import (
	"bytes"
""", """import (
"""),
 ("internal/summary/hll/hll.go", """	z := 0.0
	for i := 0; i < m; i++ {
		reg := c.bits.Get(i)
		if reg == 0 {
			z += 1.0
			continue
		}

		delta := 1.0 / float64(uint64(1)<<reg)
		z += delta
	}

	return z
""", """	var n [64]int
	for i := m - 1; i >= 0; i-- {
		n[c.bits.Get(i)]++
	}
	z := 0.0
	for reg := len(n) - 1; reg >= 0; reg-- {
		z += float64(n[reg]) / float64(uint64(1)<<uint(reg))
	}
	return z
"""),
]
