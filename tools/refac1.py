# Edits that keep the behaviour, in several styles; the checks have to stay quiet on them.
BATCHES = {}
BATCHES["helpers"] = [
 ("internal/bufmap/bufmap.go", """	// Locate the correct slot
	x := -1
	i := 0
	for {
		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return false
		}
	}

	// Read the buffer from the slot using the seqlock
	s := &m.keys[x]
	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

		// No update of the key has succeeded yet?
		if atomic.LoadUint32(&s.live) == 0 {
			return false
		}

		// Get a copy of the data
		copy(buf, m.values[x*m.s:(x+1)*m.s])

		// Check that the data was not updated during the copy
		seq2 := atomic.LoadUint32(&s.seq)

		if seq1 == seq2 {
			// No update was made
			break
		}
	}

	return true
}
""", """	x, ok := m.find(k)
	if !ok {
		return false
	}
	for {
		if found, done := m.tryRead(x, buf); done {
			return found
		}
	}
}

// find locates the slot of k.
func (m *Map) find(k uint64) (int, bool) {
	for i := 0; i <= maxReprobe; i++ {
		if x := m.pos(k, i); atomic.LoadUint64(&m.keys[x].key) == k {
			return x, true
		}
	}
	return 0, false
}

func (m *Map) record(x int) []byte {
	lo := x * m.s
	return m.values[lo : lo+m.s]
}

func (s *slot) stable() (uint32, bool) {
	seq := atomic.LoadUint32(&s.seq)
	return seq, seq&1 == 0
}

func (m *Map) tryRead(x int, buf []byte) (found, done bool) {
	s := &m.keys[x]
	before, ok := s.stable()
	if !ok {
		return false, false
	}
	if atomic.LoadUint32(&s.live) == 0 {
		return false, true
	}
	rec := m.record(x)
	copy(buf, rec)
	return true, atomic.LoadUint32(&s.seq) == before
}
"""),
 ("internal/bufmap/bufmap.go", """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	// Keep the record as it was in case fn fails
	prev := append([]byte(nil), m.values[x*m.s:(x+1)*m.s]...)
	returned := false
	defer func() {
		if !returned {
			// fn panicked
			copy(m.values[x*m.s:(x+1)*m.s], prev)
			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
		}
	}()

	err := fn(m.values[x*m.s:(x+1)*m.s], init)
	returned = true
	if err == nil {
		atomic.StoreUint32(&s.live, 1)
	} else {
		copy(m.values[x*m.s:(x+1)*m.s], prev)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	// Allow access by other writers
	s.mu.Unlock()
	return err
}
""", """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	rec := m.record(x)
	prev := make([]byte, len(rec))
	copy(prev, rec)
	failed := true
	defer func() {
		if failed {
			for i, b := range prev {
				rec[i] = b
			}
		}
		atomic.AddUint32(&s.seq, 1)
		s.mu.Unlock()
	}()

	if err := fn(rec, init); err != nil {
		return err
	}
	atomic.StoreUint32(&s.live, 1)
	failed = false
	return nil
}
"""),
 ("internal/incmap/incmap.go", """	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another updater set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find an empty slot
			return false
		}
	}

	atomic.AddUint64(&m.values[x], d)
	return true
}
""", """	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if m.claim(&m.keys[x], k) {
			atomic.AddUint64(&m.values[x], d)
			return true
		}
	}
	return false
}

// claim reports whether the slot belongs to k, taking it when it is free.
func (m *Map) claim(p *uint64, k uint64) bool {
	switch atomic.LoadUint64(p) {
	case k:
		return true
	case 0:
		return atomic.CompareAndSwapUint64(p, 0, k) || atomic.LoadUint64(p) == k
	}
	return false
}
"""),
 ("internal/seqlock/seqlock.go", """	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

		// Get a copy of the data
		copy(ret[:], s.data[:])

		// Check that the data was not updated during the copy
		seq2 := atomic.LoadUint32(&s.seq)

		if seq1 == seq2 {
			// No update was made
			return
		}
	}
}
""", """	for {
		seq := s.begin()
		ret = s.data
		if !s.changed(seq) {
			return ret
		}
	}
}

func (s *Seqlock) begin() uint32 {
	for {
		if seq := atomic.LoadUint32(&s.seq); seq&1 == 0 {
			return seq
		}
	}
}

func (s *Seqlock) changed(seq uint32) bool { return atomic.LoadUint32(&s.seq) != seq }

func (s *Seqlock) lock() {
	s.mu.Lock()
	atomic.AddUint32(&s.seq, 1)
}

func (s *Seqlock) unlock() {
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
}
"""),
 ("internal/seqlock/seqlock.go", """	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
}
""", """	s.lock()
	defer s.unlock()
	s.data = v
}
"""),
 ("internal/seqlock/seqlock.go", """	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	returned := false
	defer func() {
		if !returned {
			// fn panicked
			atomic.AddUint32(&s.seq, 1)
			s.mu.Unlock()
		}
	}()

	var d [1024]byte
	copy(d[:], s.data[:])
	err := fn(d[:])
	returned = true
	if err == nil {
		copy(s.data[:], d[:])
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
	return err
}""", """	s.lock()
	defer s.unlock()

	d := s.data
	if err := fn(d[:]); err != nil {
		return err
	}
	s.data = d
	return nil
}"""),
 ("internal/storage/storage.go", """	key, found := r.KeyValue(s.Collator.Keys())
	if !found {
		// Nothing to do
		return nil
	}

	t := Transaction{
		Row: r,
		Fn:  s.Collator.Update,
	}

	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}

	return s.Backend.Update(spread(key), t.Do)
""", """	key, found := r.KeyValue(s.Collator.Keys())
	if !found {
		return nil
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return s.Backend.Update(spread(key), func(data []byte, init bool) error {
		return s.Collator.Update(r, data, init)
	})
"""),
 ("internal/collation/schema.go", """	for _, fv := range r.Data {
		// Update measures that operate on the field as a continuous value
		if ws, exists := c.contWriters[string(fv.F)]; exists {
			v, err := strconv.ParseFloat(string(fv.V), 64)
			if err != nil {
				return err
			}
			for _, w := range ws {
				if err := w.UpdateFloat64(buf, init, v); err != nil {
					return err
				}
			}
		}

		// Update measures that operate on the field as a discrete value
		if ws, exists := c.discWriters[string(fv.F)]; exists {
			for _, w := range ws {
				if err := w.UpdateItem(buf, init, fv.V); err != nil {
					return err
				}
			}
		}
	}

	return nil
}
""", """	for i := range r.Data {
		if err := c.updateField(&r.Data[i], buf, init); err != nil {
			return err
		}
	}

	return nil
}

func (c Collator) updateField(fv *FV, buf []byte, init bool) error {
	name := string(fv.F)
	for _, w := range c.discWriters[name] {
		if err := w.UpdateItem(buf, init, fv.V); err != nil {
			return err
		}
	}
	ws := c.contWriters[name]
	if len(ws) == 0 {
		return nil
	}
	v, err := strconv.ParseFloat(string(fv.V), 64)
	if err != nil {
		return err
	}
	for _, w := range ws {
		if err := w.UpdateFloat64(buf, init, v); err != nil {
			return err
		}
	}
	return nil
}
"""),
 ("internal/collation/schema.go", """	h := fnv.New64()
	// TODO: optimize naive key search
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
				h.Write(fv[j].F)
				h.Write(fv[j].V)
				continue outer
			}
		}
		return 0, false
	}

	return h.Sum64(), true
}
""", """	h := fnv.New64()
	for _, k := range keys {
		j := fv.index(k)
		if j < 0 {
			return 0, false
		}
		h.WriteString(string(fv[j].F) + string(fv[j].V))
	}
	return h.Sum64(), true
}

func (fv FVList) index(name []byte) int {
	for j := range fv {
		if bytes.Equal(name, fv[j].F) {
			return j
		}
	}
	return -1
}
"""),
 ("internal/summary/stat64/stats.go", """	count := binary.LittleEndian.Uint64(s[:8])
	sum := math.Float64frombits(binary.LittleEndian.Uint64(s[8:16]))
	mean := math.Float64frombits(binary.LittleEndian.Uint64(s[16:24]))

	// ss is the sum of squares of differences from the current mean
	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))

	count++
	sum += v

	// Calculatation based on section 4.2.2 of Knuth, Vol 2: Seminumerical Algorithms
	delta := v - mean
	mean += delta / float64(count)
	ss += delta * (v - mean)

	binary.LittleEndian.PutUint64(s[:8], count)
	binary.LittleEndian.PutUint64(s[8:16], math.Float64bits(sum))
	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(mean))
	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(ss))
}

// UpdateMulti""", """	vs := [1]float64{v}
	s.UpdateMulti(vs[:])
}

// UpdateMulti"""),
 ("internal/summary/hll/hll.go", """	// Count leading zeros - there are faster ways to do this
	rho := uint8(1)
	t := uint64(1 << (63 - c.p))
	for i := 0; i < 64-int(c.p); i++ {
		if h&t != 0 {
			break
		}
		rho++
		t >>= 1
	}
	if rho""", """	rho := uint8(bits.LeadingZeros64(h<<c.p|1<<(c.p-1))) + 1
	if rho"""),
 ("internal/summary/hll/hll.go", """	"math"
""", """	"math"
	"math/bits"
"""),
 ("internal/summary/hll/hll.go", """		reg := c.bits.Get(i)
		if reg == 0 {
			z += 1.0
			continue
		}

		delta := 1.0 / float64(uint64(1)<<reg)
		z += delta
""", """		z += math.Ldexp(1, -int(c.bits.Get(i)))
"""),
 ("internal/summary/bloom/bloom.go", """	h := newHasher(v, b.m)
	for i := uint8(0); i < b.k; i++ {
		x := int(h.next())
		b.bits.Set(x, 1)
	}
}
""", """	b.each(v, func(x int) bool {
		b.bits.Set(x, 1)
		return true
	})
}

// each calls fn with the position of each bit of v until it returns false.
func (b *Bloom) each(v []byte, fn func(x int) bool) bool {
	h := newHasher(v, b.m)
	for left := int(b.k); left > 0; left-- {
		if !fn(int(h.next())) {
			return false
		}
	}
	return true
}
"""),
 ("internal/summary/bloom/bloom.go", """	h := newHasher(v, b.m)
	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get(int(h.next())) != 1 {
			return false
		}
	}
	return true
}

// Len returns""", """	return b.each(v, func(x int) bool { return b.bits.Get(x) == 1 })
}

// Len returns"""),
 ("internal/bitbucket/bitbucket.go", """	data, shift, mask, index := b.extract(o, l)
	value := uint16((data & mask) >> shift)
	max := uint16(1<<b.w - 1)

	// Cap the value
	value += uint16(v)
	if value > max {
		value = max
	}
	data = data&^mask | value<<shift

	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
}
""", """	value := uint(b.get(o, l)) + uint(v)
	if max := uint(b.Max()); value > max {
		value = max
	}
	b.set(o, l, uint8(value))
}
"""),
 ("internal/hash/fnv/fnv.go", """	hash := uint64(offset64)
	for _, b := range buf {
		hash *= prime64
		hash ^= uint64(b)
	}
	return uint64(hash)
}
""", """	s := New64()
	s.Write(buf)
	return s.Sum64()
}
"""),
 ("internal/hash/fnv/fnv.go", """	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed
	for _, c := range data {
		hash *= prime64
		hash ^= Fnv64(c)
	}
	*s = hash
	return len(data), nil
""", """	for len(data) > 0 {
		s.WriteByte(data[0])
		data = data[1:]
	}
	return cap(data) - cap(data[len(data):]) + 0*len(data), nil
"""),
 ("internal/stats/stats.go", """	sum := Sum(vals)

	mean = sum / count
	for i := range vals {
		variance += (vals[i] - mean) * (vals[i] - mean)
	}
	variance /= count - 1
	return
""", """	mean = Sum(vals) / count
	return mean, squares(vals, mean) / (count - 1)
"""),
 ("internal/stats/stats.go", """	errsum := 0.0
	for _, v := range vals {
		errsum += (v - e) * (v - e)
	}
	return math.Sqrt(errsum / float64(len(vals)-2))
}""", """	return math.Sqrt(squares(vals, e) / float64(len(vals)-2))
}

func squares(vals []float64, e float64) (s float64) {
	for _, v := range vals {
		d := v - e
		s += d * d
	}
	return s
}"""),
]
# (the return value of Write must stay the length)
BATCHES["helpers"] = [(f, o, n.replace("""	for len(data) > 0 {
		s.WriteByte(data[0])
		data = data[1:]
	}
	return cap(data) - cap(data[len(data):]) + 0*len(data), nil
""", """	for i := 0; i < len(data); i++ {
		s.WriteByte(data[i])
	}
	return len(data), nil
""")) for f, o, n in BATCHES["helpers"]]

BATCHES["server"] = [
 ("internal/server/server.go", """	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	})
""", """	s.mux.HandleFunc("/obs", s.handleObs)
"""),
 ("internal/server/server.go", """// recvObservation receives""", """func (s *Server) handleObs(w http.ResponseWriter, req *http.Request) {
	switch req.Method {
	case http.MethodPost:
		s.recvObservation(req.Context(), w, req)
	default:
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	}
}

func (s *Server) write(ctx context.Context, row collation.Row) error {
	for i := range s.Stores {
		if err := s.Stores[i].Write(ctx, row); err != nil {
			return err
		}
	}
	return nil
}

func (s *Server) find(name string) *storage.Store {
	for i := range s.Stores {
		if s.Stores[i].Collator.Name() == name {
			return &s.Stores[i]
		}
	}
	return nil
}

// recvObservation receives"""),
 ("internal/server/server.go", """		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
""", """		if err := s.write(ctx, row); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
"""),
 ("internal/server/server.go", """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}

	return row, nil
""", """	for _, part := range bytes.Split(data[p:], []byte{delim}) {
		row.Data = append(row.Data, parseFV(part))
	}

	return row, nil
"""),
 ("internal/server/server.go", """	eq := bytes.IndexByte(data, '=')
	if eq == -1 {
		return collation.FV{
			F: data,
			V: []byte{},
		}
	}
	return collation.FV{
		F: data[:eq],
		V: data[eq+1:],
	}
}
""", """	parts := bytes.SplitN(data, []byte("="), 2)
	fv := collation.FV{F: parts[0], V: []byte{}}
	if len(parts) == 2 {
		fv.V = parts[1]
	}
	return fv
}
"""),
 ("internal/server/server.go", """	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
			res, err := store.Read(ctx, q)
			if err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}

			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
		}
	}

	http.NotFound(w, req)
}
""", """	store := s.find(cname)
	if store == nil {
		http.NotFound(w, req)
		return
	}
	res, err := store.Read(ctx, q)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	var out bytes.Buffer
	for _, c := range q.Criteria {
		fmt.Fprintf(&out, "%s=%s\\n", c.F, c.V)
	}
	for _, f := range res.FieldMeasureValues {
		fmt.Fprintln(&out, f)
	}
	w.Write(out.Bytes())
}
"""),
 ("internal/query/rough.go", """	fields := map[string][][]byte{}
	order := []string{} // fields in the order they are first named

""", """	at := map[string]int{} // position of each field in the result

"""),
 ("internal/query/rough.go", """		if _, seen := fields[s[2]]; !seen {
			order = append(order, s[2])
		}
		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
	}

	for _, f := range order {
		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: fields[f]})
	}
""", """		i, seen := at[s[2]]
		if !seen {
			i = len(q.FieldMeasures)
			at[s[2]] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
		fm := &q.FieldMeasures[i]
		fm.M = append(fm.M, []byte(s[1]))
	}
"""),
 ("internal/collation/schema.go", """		if rs, exists := c.contReaders[field]; exists {
			for _, measure := range fm.M {
				if r, exists := rs[string(measure)]; exists {
					v, err := r.ReadFloat64(buf)
					if err != nil {
						return res, err
					}
					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
						F: fm.F,
						M: measure,
						V: v,
					})
				}
			}
		}
""", """		rs := c.contReaders[field]
		for _, measure := range fm.M {
			r, exists := rs[string(measure)]
			if !exists {
				continue
			}
			v, err := r.ReadFloat64(buf)
			if err != nil {
				return res, err
			}
			res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{F: fm.F, M: measure, V: v})
		}
"""),
 ("internal/storage/storage.go", """	// TODO: reuse buffer
	buf := make([]byte, s.Collator.Size())

	if !s.Backend.Get(spread(key), buf) {
		// TODO: report not found?
		return collation.Result{}, nil
	}

	return s.Collator.Read(q.FieldMeasures, buf)
}
""", """	bp := bufs.Get().(*[]byte)
	defer bufs.Put(bp)
	if n := s.Collator.Size(); cap(*bp) < n {
		*bp = make([]byte, n)
	}
	buf := (*bp)[:s.Collator.Size()]

	if !s.Backend.Get(spread(key), buf) {
		return collation.Result{}, nil
	}

	return s.Collator.Read(q.FieldMeasures, buf)
}

var bufs = sync.Pool{New: func() interface{} { return new([]byte) }}
"""),
 ("internal/storage/storage.go", """	"context"
""", """	"context"
	"sync"
"""),
]
BATCHES["sync"] = [
 ("internal/bufmap/bufmap.go", """	mu  sync.Mutex
""", """	mu  sync.RWMutex
"""),
 ("internal/bufmap/bufmap.go", """	seq uint32 // monotonically increasing write counter
""", """	seq atomic.Uint32 // monotonically increasing write counter
"""),
 ("internal/bufmap/bufmap.go", """		seq1 := atomic.LoadUint32(&s.seq)
""", """		seq1 := s.seq.Load()
"""),
 ("internal/bufmap/bufmap.go", """		seq2 := atomic.LoadUint32(&s.seq)
""", """		seq2 := s.seq.Load()
"""),
 ("internal/bufmap/bufmap.go", """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)
""", """	// Notify readers that we are writing
	s.seq.Add(1)
"""),
 ("internal/bufmap/bufmap.go", """			copy(m.values[x*m.s:(x+1)*m.s], prev)
			atomic.AddUint32(&s.seq, 1)
""", """			copy(m.values[x*m.s:(x+1)*m.s], prev)
			s.seq.Add(1)
"""),
 ("internal/bufmap/bufmap.go", """	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
""", """	// Notify readers that we are done
	s.seq.Store(s.seq.Load() + 1)
"""),
 ("internal/bufmap/bufmap.go", """		if seq1%2 != 0 {
			continue
		}
""", """		if seq1%2 != 0 {
			runtime.Gosched()
			continue
		}
"""),
 ("internal/bufmap/bufmap.go", """	"errors"
""", """	"errors"
	"runtime"
"""),
 ("internal/seqlock/seqlock.go", """		copy(ret[:], s.data[:])
""", """		for i := 0; i < len(ret); i += 64 {
			copy(ret[i:i+64], s.data[i:i+64])
		}
"""),
 ("internal/seqlock/seqlock.go", """	mu   sync.Mutex
	data""", """	mu   *sync.Mutex
	data"""),
 ("internal/seqlock/seqlock.go", """	return &Seqlock{}
""", """	return &Seqlock{mu: new(sync.Mutex)}
"""),
 ("internal/incmap/incmap.go", """	keys   []uint64
	values []uint64
}
""", """	keys   []atomic.Uint64
	values []atomic.Uint64
}
"""),
 ("internal/incmap/incmap.go", """		keys:   make([]uint64, l),
		values: make([]uint64, l),
""", """		keys:   make([]atomic.Uint64, l),
		values: make([]atomic.Uint64, l),
"""),
 ("internal/incmap/incmap.go", """		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x])
""", """		// Is our key here?
		kexist := m.keys[x].Load()
"""),
 ("internal/incmap/incmap.go", """			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
""", """			if m.keys[x].CompareAndSwap(0, k) {
"""),
 ("internal/incmap/incmap.go", """		kexist = atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		i++""", """		kexist = m.keys[x].Load()
		if kexist == k {
			break
		}

		i++"""),
 ("internal/incmap/incmap.go", """	atomic.AddUint64(&m.values[x], d)
""", """	m.values[x].Add(d)
"""),
 ("internal/incmap/incmap.go", """		if atomic.LoadUint64(&m.keys[x]) == k {
			break
		}
""", """		if m.keys[x].Load() == k {
			break
		}
"""),
 ("internal/incmap/incmap.go", """	return atomic.LoadUint64(&m.values[x]), true
""", """	return m.values[x].Load(), true
"""),
 ("internal/bitbucket/bitbucket.go", """	n, err := w.Write(buf[:])
	if err != nil {
		return int64(n), err
	}

	n0, err := w.Write(b.data)
	n += n0
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
}
""", """	out := append(buf[:], b.data...)
	n, err := w.Write(out)
	return int64(n), err
}
"""),
 ("internal/summary/hll/hll.go", """	n, err := w.Write(buf[:])
	if err != nil {
		return int64(n), err
	}

	n0, err := c.bits.WriteTo(w)
	n += int(n0)
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
}
""", """	var b bytes.Buffer
	b.Write(buf[:])
	if _, err := c.bits.WriteTo(&b); err != nil {
		return 0, err
	}
	return b.WriteTo(w)
}
"""),
 ("internal/summary/hll/hll.go", """	"errors"
""", """	"bytes"
	"errors"
"""),
 ("internal/summary/hll/hll.go", """	m := int(uint(1) << uint(c.p))

	// See if we can get away with linear counting
	v := c.bits.CountN(0)
	if v > 0 {
		// Count is in the low region so try linear counting
		h = math.Ceil(float64(m) * math.Log(float64(m)/float64(v)))
		if h <= c.threshold {
			return int64(h)
		}
	}

	z := c.harmonic(m)
""", """	m := int(uint(1) << uint(c.p))

	z, v := c.harmonic(m), c.bits.CountN(0)
	if v != 0 {
		h = math.Ceil(float64(m) * (math.Log(float64(m)) - math.Log(float64(v))))
		if v == m {
			h = 0
		}
		if h <= c.threshold {
			return int64(h)
		}
	}
"""),
 ("internal/summary/bloom/bloom.go", """	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get(int(h.next())) != 1 {
			return false
		}
	}
	return true
}
""", """	found := true
	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get(int(h.next())) != 1 {
			found = false
		}
	}
	return found
}
"""),
 ("internal/collation/schema.go", """	return fmt.Sprintf("%s(%s)=%v", f.M, f.F, f.V)
""", """	return string(f.M) + "(" + string(f.F) + ")=" + fmt.Sprint(f.V)
"""),
]
