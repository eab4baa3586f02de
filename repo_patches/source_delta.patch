From 0dadeff7701156144ca548c922e67504dd977eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/24] fix: bufmap.Get copies the whole record of the key's
 slot

The upper bound of the copied range was x*(s+1) instead of (x+1)*s, so the
first slot read nothing, most others a part of their record and high slots
panicked.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From 7fbd0b8d2e3dc33079ee590c213c2d5d7e94b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 02/24] fix: bufmap tells exactly the first successful update
 of a key that the record is new

init was set for every update of a key that was not found in the first slot
probed, also when the record already existed, and was given to the wrong
writer when two raced for a new key. A key whose first update had not
completed was reported as found by Get.
---
 internal/bufmap/bufmap.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..cd71b78 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -39,6 +39,9 @@ type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
 	mu  sync.Mutex
+
+	// live is 1 once an update of the key has succeeded, written while holding mu
+	live uint32
 }
 
 // maximum number of hops to make during a linear probe.
@@ -72,6 +75,11 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 			continue
 		}
 
+		// No update of the key has succeeded yet?
+		if atomic.LoadUint32(&s.live) == 0 {
+			return false
+		}
+
 		// Get a copy of the data
 		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
@@ -140,10 +148,16 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Writers need to take a lock
 	s.mu.Lock()
 
+	// Only the holder of the lock can tell whether the record is new
+	init = atomic.LoadUint32(&s.live) == 0
+
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
 	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	if err == nil {
+		atomic.StoreUint32(&s.live, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From 4506e900743ce28be7ba80cd457ce2d79f7c4621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/24] fix: a failing or panicking bufmap update leaves the
 record as it was

The changes made before an update function returned an error stayed in the
record, and a panic left the slot locked for writers and spinning for readers.
---
 internal/bufmap/bufmap.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index cd71b78..c2cd61e 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -154,9 +154,24 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
+	// Keep the record as it was in case fn fails
+	prev := append([]byte(nil), m.values[x*m.s:(x+1)*m.s]...)
+	returned := false
+	defer func() {
+		if !returned {
+			// fn panicked
+			copy(m.values[x*m.s:(x+1)*m.s], prev)
+			atomic.AddUint32(&s.seq, 1)
+			s.mu.Unlock()
+		}
+	}()
+
 	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	returned = true
 	if err == nil {
 		atomic.StoreUint32(&s.live, 1)
+	} else {
+		copy(m.values[x*m.s:(x+1)*m.s], prev)
 	}
 
 	// Notify readers that we are done
-- 
2.43.0


From d1fa783840391f67da599850fa7ce14a157766dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/24] fix: bufmap and incmap report key 0 as not found

Get matched the key 0 that marks empty slots and reported a value that was
never stored.
---
 internal/bufmap/bufmap.go | 5 +++++
 internal/incmap/incmap.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index c2cd61e..f7ff235 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -50,6 +50,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 marks an empty slot so is never the key of a record
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..15bf0fb 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 marks an empty slot so is never the key of a value
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From 87b5225d2e48b73ea8812a12d9c7f59e056be3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 05/24] fix: a panicking seqlock update does not wedge the
 seqlock

The lock stayed held and the sequence odd, so later writers and readers
waited for ever.
---
 internal/seqlock/seqlock.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/seqlock/seqlock.go b/internal/seqlock/seqlock.go
index 41cb8d4..e32fd83 100644
--- a/internal/seqlock/seqlock.go
+++ b/internal/seqlock/seqlock.go
@@ -65,9 +65,19 @@ func (s *Seqlock) Update(fn func(data []byte) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
+	returned := false
+	defer func() {
+		if !returned {
+			// fn panicked
+			atomic.AddUint32(&s.seq, 1)
+			s.mu.Unlock()
+		}
+	}()
+
 	var d [1024]byte
 	copy(d[:], s.data[:])
 	err := fn(d[:])
+	returned = true
 	if err == nil {
 		copy(s.data[:], d[:])
 	}
-- 
2.43.0


From 20845c3e37705f4eb5d83d9a8cbca29b83c81dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 06/24] fix: measures of a field absent from the first
 observation start from no observations

---
 internal/collation/compile.go |  7 +++++++
 internal/collation/measure.go | 34 ++++++++++++++++++++++++++++++++++
 internal/collation/schema.go  | 22 ++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..4894e21 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -51,6 +51,10 @@ func (s *Schema) Compile() (Collator, error) {
 			coll.discReaders[RowPseudoField] = crs
 		}
 
+		if im, ok := m.(Initialiser); ok {
+			coll.inits = append(coll.inits, initer{Low: pos, High: pos + size, Fn: im.Init})
+		}
+
 		pos += size
 		coll.size += size
 
@@ -65,6 +69,9 @@ func (s *Schema) Compile() (Collator, error) {
 			size := m.Size()
 			low, hi := pos, pos+size
 			skipWriter := false
+			if im, ok := m.(Initialiser); ok {
+				coll.inits = append(coll.inits, initer{Low: low, High: hi, Fn: im.Init})
+			}
 			if cm, ok := m.(ContinuousInput); ok {
 				switch m.(type) {
 				case Count, Sum, Mean, Variance:
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..e2cbb17 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -33,6 +33,12 @@ type DiscreteOutput interface {
 	DiscReader() DiscReaderFunc
 }
 
+// Initialiser is implemented by measures whose state when nothing has been
+// observed is not all zero bytes.
+type Initialiser interface {
+	Init(buf []byte) error
+}
+
 type RowWriterFunc func(buf []byte, init bool) error
 type ContWriterFunc func(buf []byte, init bool, v float64) error
 type DiscWriterFunc func(buf []byte, init bool, v []byte) error
@@ -147,8 +153,17 @@ func (Max) Size() int { return 8 }
 
 func (Max) Name() string { return "max" }
 
+// Init marks buf as having no observations, which is reported as NaN.
+func (Max) Init(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
+		if math.IsNaN(v) {
+			return nil
+		}
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 			if c >= v {
@@ -176,8 +191,17 @@ func (Min) Size() int { return 8 }
 
 func (Min) Name() string { return "min" }
 
+// Init marks buf as having no observations, which is reported as NaN.
+func (Min) Init(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
+		if math.IsNaN(v) {
+			return nil
+		}
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
 			if c <= v {
@@ -231,6 +255,16 @@ type Cardinality struct {
 var _ DiscreteInput = Cardinality{}
 var _ ContinuousOutput = Cardinality{}
 
+// Init writes an empty counter to buf.
+func (c Cardinality) Init(buf []byte) error {
+	s := hll.New(uint8(c.Precision))
+
+	var b bytes.Buffer
+	_, err := s.WriteTo(&b)
+	copy(buf, b.Bytes())
+	return err
+}
+
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
 
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..0f63414 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -145,6 +145,7 @@ type Result struct {
 type Collator struct {
 	name        string
 	keys        [][]byte
+	inits       []initer
 	writers     []anyWriter
 	contWriters map[string][]contWriter
 	discWriters map[string][]discWriter
@@ -160,6 +161,22 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	if init {
+		// Not every measure will see a value in this row
+		rec := buf
+		if len(rec) > c.size {
+			rec = rec[:c.size]
+		}
+		for i := range rec {
+			rec[i] = 0
+		}
+		for _, in := range c.inits {
+			if err := in.Fn(buf[in.Low:in.High]); err != nil {
+				return err
+			}
+		}
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -248,6 +265,11 @@ func (c Collator) Name() string {
 	return c.name
 }
 
+type initer struct {
+	Low, High int // index range of data within buffer
+	Fn        func(buf []byte) error
+}
+
 type anyWriter struct {
 	Low, High int // index range of data within buffer
 	Fn        RowWriterFunc
-- 
2.43.0


From 9f99d18945c2041e748cc856c2eb95244d7b96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 07/24] fix: Compile rejects a unique count precision that no
 counter supports

---
 internal/collation/compile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 4894e21..9dc4b77 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -1,5 +1,7 @@
 package collation
 
+import "fmt"
+
 func (s *Schema) Compile() (Collator, error) {
 	coll := Collator{
 		name:        s.Name,
@@ -66,6 +68,9 @@ func (s *Schema) Compile() (Collator, error) {
 		stat64Low, stat64Hi := 0, 0
 
 		for _, m := range ms.Measures {
+			if cm, ok := m.(Cardinality); ok && (cm.Precision < 4 || cm.Precision > 18) {
+				return coll, fmt.Errorf("collation: precision %d of %s(%s) is not in range [4,18]", cm.Precision, m.Name(), ms.Field.Pattern)
+			}
 			size := m.Size()
 			low, hi := pos, pos+size
 			skipWriter := false
-- 
2.43.0


From 54f09b077b158fc74d5cd669160000abfbff814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 08/24] fix: count is answered when declared as a measure of a
 field

---
 internal/collation/compile.go |  5 ++++-
 internal/collation/measure.go | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index 9dc4b77..3a12518 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -71,6 +71,9 @@ func (s *Schema) Compile() (Collator, error) {
 			if cm, ok := m.(Cardinality); ok && (cm.Precision < 4 || cm.Precision > 18) {
 				return coll, fmt.Errorf("collation: precision %d of %s(%s) is not in range [4,18]", cm.Precision, m.Name(), ms.Field.Pattern)
 			}
+			if _, ok := m.(Count); ok {
+				m = fieldCount{}
+			}
 			size := m.Size()
 			low, hi := pos, pos+size
 			skipWriter := false
@@ -79,7 +82,7 @@ func (s *Schema) Compile() (Collator, error) {
 			}
 			if cm, ok := m.(ContinuousInput); ok {
 				switch m.(type) {
-				case Count, Sum, Mean, Variance:
+				case fieldCount, Sum, Mean, Variance:
 					if stat64 {
 						// We already have a stat64 measure, so reuse it for writing
 						low, hi = stat64Low, stat64Hi
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index e2cbb17..93def31 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -73,6 +73,25 @@ func (Count) ContReader() ContReaderFunc {
 	}
 }
 
+// fieldCount is Count used as a measure of a field. It counts the observations
+// that carry the field.
+type fieldCount struct{}
+
+var _ ContinuousInput = fieldCount{}
+
+func (fieldCount) Size() int { return stat64.Len() }
+
+func (fieldCount) Name() string { return Count{}.Name() }
+
+func (fieldCount) ContWriter() ContWriterFunc { return Sum{}.ContWriter() }
+
+func (fieldCount) ContReader() ContReaderFunc {
+	return func(buf []byte) (float64, error) {
+		s := stat64.WithBytes(buf)
+		return float64(s.Count()), nil
+	}
+}
+
 // Sum is a precise sum of continuous observations over all time.
 type Sum struct{}
 
-- 
2.43.0


From 29cd426c6b9a3eb2797c99ccbbc11d25fc7c1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 09/24] fix: hll spreads the hash so that similar values are
 counted accurately

---
 internal/summary/hll/hll.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..2352db8 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -88,8 +88,20 @@ type Counter struct {
 	threshold float64
 }
 
+// mix spreads the entropy of an FNV hash over all of its bits. Hashes of similar
+// or short values differ little in their high bits, which select the register.
+// It is the finalizer of MurmurHash3.
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 func (c *Counter) Add(v []byte) {
-	h := fnv.Sum64(v)
+	h := mix(fnv.Sum64(v))
 	idx := int((h & c.mask) >> (64 - c.p))
 
 	// Count leading zeros - there are faster ways to do this
-- 
2.43.0


From 5c9961e55f96b7d4649d0724bcd00402469078f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 10/24] fix: empty registers weigh 1 in the harmonic mean of
 hll

---
 internal/summary/hll/hll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 2352db8..8c4a49c 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -164,7 +164,7 @@ func (c *Counter) harmonic(m int) float64 {
 	for i := 0; i < m; i++ {
 		reg := c.bits.Get(i)
 		if reg == 0 {
-			z += 0.5
+			z += 1.0
 			continue
 		}
 
-- 
2.43.0


From 8ae1090818eda5c0e3e7a99d636dc0dfc47a6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 11/24] fix: queries keep the order of fields and take any
 value without quotes

---
 internal/query/rough.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..383e79b 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,9 +8,9 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`([^\s=]+)='([^']*)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
@@ -23,17 +23,21 @@ func RoughParse(in string) (collation.Query, error) {
 	}
 
 	fields := map[string][][]byte{}
+	order := []string{} // fields in the order they are first named
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
+		if _, seen := fields[s[2]]; !seen {
+			order = append(order, s[2])
+		}
 		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
 	}
 
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+	for _, f := range order {
+		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: fields[f]})
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From 594ff926ef3bc84cf6602533f3c58d9941f5a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 12/24] fix: a timestamp is read whole, however many digits it
 has

---
 internal/server/server.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..8a3ca64 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -209,13 +209,9 @@ func contentType(req *http.Request) (string, error) {
 // TODO: move parseRow into a dedicated text format parser
 func parseRow(data []byte) (collation.Row, error) {
 	row := collation.Row{}
-	pmax := 20
-	if len(data) < pmax {
-		pmax = len(data)
-	}
 	var p int
 	// Read timestamp
-	for p = 0; p < pmax; p++ {
+	for p = 0; p < len(data); p++ {
 		if data[p] < '0' || data[p] > '9' {
 			break
 		}
-- 
2.43.0


From 520478ac0c1a5ac3ac311a0c0d92d7a93b2be07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 13/24] fix: a line cut short by a failure to read the rest is
 not collated

---
 internal/server/server.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 8a3ca64..8f93fad 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -166,7 +166,9 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	}
 
 	now := time.Now()
-	sc := bufio.NewScanner(r)
+	lr := &lineReader{r: r}
+	sc := bufio.NewScanner(lr)
+	sc.Split(lr.split)
 	for sc.Scan() {
 
 		// Check whether context has been cancelled
@@ -196,6 +198,24 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 	}
 }
 
+// lineReader reads lines and discards a final line that was cut short by a read error.
+type lineReader struct {
+	r      io.Reader
+	failed bool
+}
+
+func (l *lineReader) Read(p []byte) (int, error) {
+	n, err := l.r.Read(p)
+	if err != nil && err != io.EOF {
+		l.failed = true
+	}
+	return n, err
+}
+
+func (l *lineReader) split(data []byte, atEOF bool) (int, []byte, error) {
+	return bufio.ScanLines(data, atEOF && !l.failed)
+}
+
 func contentType(req *http.Request) (string, error) {
 	ct := req.Header.Get("Content-Type")
 	if ct == "" {
-- 
2.43.0


From 24d5be303136c1515b759310bf9ca16b14f71f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 14/24] fix: a batch given up because its request was cancelled
 is not reported as a success

---
 internal/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index 8f93fad..7a475fd 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -174,6 +174,7 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		// Check whether context has been cancelled
 		select {
 		case <-ctx.Done():
+			http.Error(w, ctx.Err().Error(), http.StatusInternalServerError)
 			return
 		default:
 		}
-- 
2.43.0


From dbd2d5dae9a0e422abc5ad536a470acc111ce40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 15/24] fix: bitbucket.ReadFrom tells the end of a stream from
 data that follows and from a failure

---
 internal/bitbucket/bitbucket.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..564fe47 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -209,12 +209,15 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-	if err != io.EOF {
+	if n1 > 0 {
 		// Unexpected trailing data
 		return int64(n), io.ErrShortBuffer
 	}
+	if err != io.EOF {
+		return int64(n), err
+	}
 
 	return int64(n), nil
 }
-- 
2.43.0


From 5f5b8668c62d7d58d20431a9fb6f4c31fc9c7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 16/24] fix: bitbucket refuses impossible headers and allocates
 only as data arrives

---
 internal/bitbucket/bitbucket.go | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 564fe47..9dab316 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -5,9 +5,11 @@
 package bitbucket
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 const (
@@ -17,6 +19,7 @@ const (
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
 var ErrUnsupportedWidth = errors.New("bitbucket: requested bucket width exceeds maximum of 8")
+var ErrInvalidHeader = errors.New("bitbucket: invalid width or number of buckets")
 
 // A BitBucket is a collection of buckets capable of storing values from zero
 // up to maximum specified by the configured number of bits.
@@ -58,7 +61,10 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
+	n, err := count(buf[2:hdrLen], w)
+	if err != nil {
+		return BitBucket{}, err
+	}
 
 	buflen := length(n, w)
 	if len(buf) < hdrLen+buflen {
@@ -72,6 +78,16 @@ func WithBytes(buf []byte) (BitBucket, error) {
 	}, nil
 }
 
+// count reads the number of buckets of w bits from a header and checks that
+// such a bit bucket can exist.
+func count(hdr []byte, w uint8) (int, error) {
+	n := binary.LittleEndian.Uint64(hdr)
+	if w == 0 || n > math.MaxInt64/8-1 {
+		return 0, ErrInvalidHeader
+	}
+	return int(n), nil
+}
+
 // length calculates the length of byte slice needed to accommodate n buckets of w bits
 func length(n int, w uint8) int {
 	return (n*int(w) + 7) / 8
@@ -196,12 +212,20 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	w := buf[1]
+	if w > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
+
+	c, err := count(buf[2:hdrLen], w)
+	if err != nil {
+		return int64(n), err
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	// Allocate as data arrives, the length in the header may be wrong
+	var data bytes.Buffer
+	n0, err := io.CopyN(&data, r, int64(length(c, w)))
+	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
 			return int64(n), io.ErrUnexpectedEOF
@@ -209,6 +233,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.w = w
+	b.n = c
+	b.data = data.Bytes()
+
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if n1 > 0 {
-- 
2.43.0


From b633f54ecc9e985ae443d35373d6e1f1c01f1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 17/24] fix: bloom and hll refuse headers that no filter or
 counter can have

---
 internal/summary/bloom/bloom.go | 28 +++++++++++++++++-----------
 internal/summary/hll/hll.go     | 32 ++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..af72562 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidBits = errors.New("bloom: invalid width or number of bits")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if bits.Width() != 1 || bits.Count() < 1 {
+		return Bloom{}, ErrInvalidBits
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -166,10 +174,9 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.k = buf[1]
-	b.bits = bitbucket.BitBucket{}
-
-	n0, err := b.bits.ReadFrom(r)
+	// This reads until EOF and refuses trailing data
+	bits := bitbucket.BitBucket{}
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -177,15 +184,14 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-	b.m = b.bits.Count()
-
-	n1, err := r.Read(buf[:])
-	n += n1
-	if err != io.EOF {
-		// Unexpected trailing data
-		return int64(n), io.ErrShortBuffer
+	if bits.Width() != 1 || bits.Count() < 1 {
+		return int64(n), ErrInvalidBits
 	}
 
+	b.k = buf[1]
+	b.bits = bits
+	b.m = bits.Count()
+
 	return int64(n), nil
 }
 
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 8c4a49c..7bd7712 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidPrecision = errors.New("hll: precision not in range [4,18] or registers do not match it")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,6 +42,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
@@ -51,6 +56,9 @@ func WithBytes(buf []byte) (Counter, error) {
 	if err != nil {
 		return Counter{}, err
 	}
+	if !valid(p, bits) {
+		return Counter{}, ErrInvalidPrecision
+	}
 
 	c := Counter{
 		p:    p,
@@ -60,6 +68,11 @@ func WithBytes(buf []byte) (Counter, error) {
 	return c, nil
 }
 
+// valid reports whether bits can be the registers of a counter with precision p.
+func valid(p uint8, bits bitbucket.BitBucket) bool {
+	return p >= 4 && p <= 18 && bits.Width() == 6 && bits.Count() == 1<<p
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -298,10 +311,9 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	c.p = buf[1]
-	c.initParams()
-
-	n0, err := c.bits.ReadFrom(r)
+	// This reads until EOF and refuses trailing data
+	bits := bitbucket.BitBucket{}
+	n0, err := bits.ReadFrom(r)
 	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
@@ -309,14 +321,14 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
-
-	n1, err := r.Read(buf[:])
-	n += n1
-	if err != io.EOF {
-		// Unexpected trailing data
-		return int64(n), io.ErrShortBuffer
+	if !valid(buf[1], bits) {
+		return int64(n), ErrInvalidPrecision
 	}
 
+	c.p = buf[1]
+	c.bits = bits
+	c.initParams()
+
 	return int64(n), nil
 }
 
-- 
2.43.0


From 43b57b871a2bbd93e03584c223b42c74b84facde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 18/24] fix: bloom estimates from the share of bits set, also
 when none or all can be

---
 internal/summary/bloom/bloom.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index af72562..b1653ff 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -121,14 +121,25 @@ func Len(n int, p float64) int {
 
 // Count returns an estimate of the number of items that have been added to the bloom filter.
 func (b *Bloom) Count() int64 {
-	x := b.bits.CountN(1)
-	return int64(math.Ceil(-math.Log(1-float64(x)/float64(b.m)) * float64(b.m) / float64(b.k)))
+	if b.k == 0 {
+		// No bits are ever set
+		return 0
+	}
+
+	x := float64(b.bits.CountN(1))
+	m := float64(b.m)
+	if x >= m {
+		// Every bit is set, which no finite number of items is expected to do
+		x = m - 0.5
+	}
+	return int64(math.Ceil(-math.Log(1-x/m) * m / float64(b.k)))
 }
 
 // ErrorRate returns an estimate of the rate of false positives returned by the bloom filter's Has method.
 func (b *Bloom) ErrorRate() float64 {
+	// x is the number of bits set, each hash finds one of them with probability x/m
 	x := b.bits.CountN(1)
-	return math.Pow(1-math.Exp(-float64(b.k)*float64(x)/float64(b.m)), float64(b.k))
+	return math.Pow(float64(x)/float64(b.m), float64(b.k))
 }
 
 // WriteTo writes a binary representation of the bloom filter to w. It adheres
-- 
2.43.0


From d4f831406f380ed4f64bf6c0ef262bdac0995452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 19/24] fix: sample variance divides by n-1 and See is NaN
 where it is not defined

---
 internal/stats/stats.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4515bb2..9dfb2fd 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -20,7 +20,7 @@ func Meanvar(vals []float64) (mean, variance float64) {
 	for i := range vals {
 		variance += (vals[i] - mean) * (vals[i] - mean)
 	}
-	variance /= count
+	variance /= count - 1
 	return
 }
 
@@ -33,8 +33,13 @@ func Sum(vals []float64) float64 {
 	return sum
 }
 
-// See calculates the standard error of the estimate
+// See calculates the standard error of the estimate, which is not defined for
+// fewer than three values.
 func See(vals []float64, e float64) float64 {
+	if len(vals) < 3 {
+		return math.NaN()
+	}
+
 	errsum := 0.0
 	for _, v := range vals {
 		errsum += (v - e) * (v - e)
-- 
2.43.0


From adc9746d834ea77a08c39048dcc23551b93a9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 20/24] fix: groups with similar key values do not exhaust the
 slots around their hashes

---
 internal/storage/storage.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/storage/storage.go b/internal/storage/storage.go
index 1ed488c..207d3cc 100644
--- a/internal/storage/storage.go
+++ b/internal/storage/storage.go
@@ -41,7 +41,7 @@ func (s *Store) Write(ctx context.Context, r collation.Row) error {
 	default:
 	}
 
-	return s.Backend.Update(key, t.Do)
+	return s.Backend.Update(spread(key), t.Do)
 }
 
 func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result, error) {
@@ -54,7 +54,7 @@ func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result,
 	// TODO: reuse buffer
 	buf := make([]byte, s.Collator.Size())
 
-	if !s.Backend.Get(key, buf) {
+	if !s.Backend.Get(spread(key), buf) {
 		// TODO: report not found?
 		return collation.Result{}, nil
 	}
@@ -62,6 +62,18 @@ func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result,
 	return s.Collator.Read(q.FieldMeasures, buf)
 }
 
+// spread distributes the hashes of similar key values, which lie close
+// together, over the slots of a backend. It maps different hashes to different
+// keys and 0 to 0. It is the finalizer of MurmurHash3.
+func spread(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 type Transaction struct {
 	Row collation.Row
 	Fn  func(r collation.Row, data []byte, init bool) error
-- 
2.43.0


From 9bd7bb6a7075b53344d7a2ffd08a8c53bbcf66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 21/24] fix: a group whose hash is 0 is not refused

---
 internal/storage/storage.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/storage/storage.go b/internal/storage/storage.go
index 207d3cc..3180114 100644
--- a/internal/storage/storage.go
+++ b/internal/storage/storage.go
@@ -63,14 +63,18 @@ func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result,
 }
 
 // spread distributes the hashes of similar key values, which lie close
-// together, over the slots of a backend. It maps different hashes to different
-// keys and 0 to 0. It is the finalizer of MurmurHash3.
+// together, over the slots of a backend. It is the finalizer of MurmurHash3,
+// which maps different hashes to different keys, except that the hash it maps
+// to 0, which is not a valid key, shares the key 1.
 func spread(h uint64) uint64 {
 	h ^= h >> 33
 	h *= 0xff51afd7ed558ccd
 	h ^= h >> 33
 	h *= 0xc4ceb9fe1a85ec53
 	h ^= h >> 33
+	if h == 0 {
+		return 1
+	}
 	return h
 }
 
-- 
2.43.0


From 43c49392ae68b74349e56414963cf50691442d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 22/24] fix: do not lose a terminating signal that arrives
 before the server waits for it

---
 internal/server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 7a475fd..2cff3b5 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -83,7 +83,8 @@ func (s *Server) Serve() error {
 
 // waitSignal blocks waiting for operating system signals
 func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
+	// A signal that finds nobody receiving is dropped unless there is room for it
+	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 
 signalloop:
-- 
2.43.0


From ea7b170dad399cdfa218323b682a756ede83c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 23/24] fix: the demo says that it cannot serve and fails

---
 starbow.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starbow.go b/starbow.go
index 73f4f1e..6c38b8e 100644
--- a/starbow.go
+++ b/starbow.go
@@ -11,5 +11,7 @@ func main() {
 	if err := setupDemo(s); err != nil {
 		log.Fatal(err.Error())
 	}
-	s.Serve()
+	if err := s.Serve(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
-- 
2.43.0


From 56b284648a6b279d2ecae146bc0bddf654ed6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 24/24] fix: Serve reports a listener that fails instead of
 serving nobody

---
 internal/server/server.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 2cff3b5..a7a5806 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -75,24 +75,32 @@ func (s *Server) Serve() error {
 		Handler: s,
 	}
 
-	go hs.Serve(listener)
+	served := make(chan error, 1)
+	go func() { served <- hs.Serve(listener) }()
 
-	s.waitSignal()
+	if err := s.waitSignal(served); err != nil {
+		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
+	}
 	return nil
 }
 
-// waitSignal blocks waiting for operating system signals
-func (s *Server) waitSignal() {
+// waitSignal blocks waiting for operating system signals. It returns the
+// error received from served, if any, since nobody is served from then on.
+func (s *Server) waitSignal(served <-chan error) error {
 	// A signal that finds nobody receiving is dropped unless there is room for it
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 
-signalloop:
-	for sig := range ch {
-		switch sig {
-		case syscall.SIGINT, syscall.SIGTERM:
-			break signalloop
-			// TODO: support HUP to reload config
+	for {
+		select {
+		case sig := <-ch:
+			switch sig {
+			case syscall.SIGINT, syscall.SIGTERM:
+				return nil
+				// TODO: support HUP to reload config
+			}
+		case err := <-served:
+			return err
 		}
 	}
 }
-- 
2.43.0

