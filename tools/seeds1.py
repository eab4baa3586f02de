BUF = "internal/bufmap/bufmap.go"
INC = "internal/incmap/incmap.go"
SEQ = "internal/seqlock/seqlock.go"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c01-claim-reload", prop="C01", pkg="internal/bufmap",
 edits=[(BUF, """		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}
""", """		// Did another writer set the key while we were checking?
		if kexist == k {
			break
		}
""")],
 needs="two concurrent first updates of one key, one losing the race to claim the slot",
 breaks="the loser does not look again at who won, probes on and makes a second record for the key: an acknowledged update is lost",
 demo='''package bufmap

import (
	"encoding/binary"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 400000; round++ {
		m := New(16, 8)
		var start, ready int32
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&start) == 0 {
				}
				m.Update(5, func(b []byte, init bool) error {
					binary.LittleEndian.PutUint64(b, binary.LittleEndian.Uint64(b)+1)
					return nil
				})
			}()
		}
		for atomic.LoadInt32(&ready) != 2 {
			runtime.Gosched()
		}
		atomic.StoreInt32(&start, 1)
		wg.Wait()
		var buf [8]byte
		m.Get(5, buf[:])
		if n := binary.LittleEndian.Uint64(buf[:]); n != 2 {
			t.Fatalf("round %d: two updates, found %d", round, n)
		}
	}
}
''')

seed(id="c02-seq-before-lock", prop="C02", pkg="internal/bufmap",
 edits=[(BUF, """	s := &m.keys[x]

	// Writers need to take a lock
	s.mu.Lock()
""", """	s := &m.keys[x]

	// Notify readers that we are about to write
	atomic.AddUint32(&s.seq, 1)

	// Writers need to take a lock
	s.mu.Lock()
"""), (BUF, """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

""", "")],
 needs="a reader while one writer is inside its update function and a second writer of the same key has arrived",
 breaks="the waiting writer makes the sequence even, so a read returns a half-written record",
 demo='''package bufmap

import (
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	m := New(4, 2)
	m.Update(1, func(b []byte, init bool) error { b[0], b[1] = 1, 1; return nil })
	in, out := make(chan bool), make(chan bool)
	done := make(chan bool, 2)
	go func() {
		m.Update(1, func(b []byte, init bool) error {
			b[0] = 2
			in <- true
			<-out
			b[1] = 2
			return nil
		})
		done <- true
	}()
	<-in
	go func() {
		m.Update(1, func(b []byte, init bool) error { b[0], b[1] = 3, 3; return nil })
		done <- true
	}()
	time.Sleep(300 * time.Millisecond)
	got := make(chan [2]byte, 1)
	go func() {
		var b [2]byte
		m.Get(1, b[:])
		got <- b
	}()
	var b [2]byte
	select {
	case b = <-got:
		close(out)
	case <-time.After(300 * time.Millisecond):
		close(out)
		b = <-got
	}
	<-done
	<-done
	if b[0] != b[1] {
		t.Fatalf("read a mixture: %v", b)
	}
}
''')

seed(id="c02-retry-slack", prop="C02", pkg="internal/bufmap",
 edits=[(BUF, """		if seq1 == seq2 {
			// No update was made
			break
		}
""", """		if seq2-seq1 < 2 {
			// No update was made
			break
		}
""")],
 needs="a writer that starts while a reader copies, and is still at work when the reader finishes",
 breaks="the reader accepts a copy made partly during the write",
 demo='''package bufmap

import (
	"runtime"
	"testing"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	const n = 1 << 16
	m := New(1, n)
	stop := make(chan bool)
	go func() {
		for v := byte(1); ; v++ {
			select {
			case <-stop:
				return
			default:
			}
			m.Update(1, func(b []byte, init bool) error {
				for i := range b {
					b[i] = v
				}
				return nil
			})
			for i := 0; i < 20; i++ {
				runtime.Gosched()
			}
		}
	}()
	buf := make([]byte, n)
	for r := 0; r < 100000; r++ {
		if m.Get(1, buf) && buf[0] != buf[n-1] {
			t.Fatalf("read %d: a mixture of %d and %d", r, buf[0], buf[n-1])
		}
	}
	close(stop)
}
''')

seed(id="c03-pos-overflow", prop="C03", pkg="internal/bufmap",
 edits=[(BUF, "	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))", "	return int((k + uint64(i)) % uint64(m.l))")],
 needs="a key hash within ten of 2^64 whose first slots are taken",
 breaks="the sum wraps around, so part of the probe range is never tried and a new key is refused although a slot is free",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	for l := 2; l <= 11; l++ {
		for back := uint64(0); back < 11; back++ {
			m := New(l, 1)
			nop := func(b []byte, init bool) error { return nil }
			k := ^uint64(0) - back
			// all slots but one are taken by other keys
			for free := 0; free < l; free++ {
				m = New(l, 1)
				for s := 0; s < l; s++ {
					if s != free {
						if err := m.Update(uint64(l*1000+s), nop); err != nil {
							t.Fatal(err)
						}
					}
				}
				if err := m.Update(k, nop); err != nil {
					t.Fatalf("size %d key %d: slot %d is free but: %v", l, k, free, err)
				}
			}
		}
	}
}
''')

seed(id="c03-get-last-probe", prop="C03", pkg="internal/bufmap",
 edits=[(BUF, """		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return false
		}
""", """		i++
		if i >= maxReprobe {
			// too many attempts to find slot
			return false
		}
""")],
 needs="eleven keys with the same home slot",
 breaks="the key in the eleventh slot of its probe range is stored but never found",
 demo='''package bufmap

import "testing"

func TestSeed(t *testing.T) {
	m := New(64, 1)
	for i := uint64(0); i < 11; i++ {
		if err := m.Update(7+64*i, func(b []byte, init bool) error { b[0] = byte(i + 1); return nil }); err != nil {
			t.Fatal(i, err)
		}
	}
	for i := uint64(0); i < 11; i++ {
		var b [1]byte
		if !m.Get(7+64*i, b[:]) || b[0] != byte(i+1) {
			t.Fatal("stored key not found:", i)
		}
	}
}
''')

seed(id="c04-error-commits", prop="C04", pkg="internal/seqlock",
 edits=[(SEQ, """	if err == nil {
		copy(s.data[:], d[:])
	}

	// Notify""", """	if err == nil || !bytesEqual(s.data[:8], d[:8]) {
		copy(s.data[:], d[:])
	}

	// Notify"""), (SEQ, """// Update applies the update function""", """func bytesEqual(a, b []byte) bool { return string(a) == string(b) }

// Update applies the update function""")],
 needs="an update that fails after changing the first bytes",
 breaks="the failed update is kept",
 demo='''package seqlock

import (
	"errors"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New()
	s.Update(func(b []byte) error { b[3] = 9; return errors.New("no") })
	if v := s.Get(); v[3] != 0 {
		t.Fatal("failed update kept")
	}
}
''')

seed(id="c04-wedge-on-error", prop="C04", pkg="internal/seqlock",
 edits=[(SEQ, """	if err == nil {
		copy(s.data[:], d[:])
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
	return err
""", """	if err != nil {
		s.mu.Unlock()
		return err
	}
	copy(s.data[:], d[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
	return nil
""")],
 needs="an update that returns an error, then a read",
 breaks="the sequence stays odd and every later read spins for ever",
 demo='''package seqlock

import (
	"errors"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	s := New()
	s.Update(func(b []byte) error { return errors.New("no") })
	done := make(chan bool)
	go func() { s.Get(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("read does not return")
	}
}
''')

seed(id="c05-nonatomic-add", prop="C05", pkg="internal/incmap",
 edits=[(INC, "	atomic.AddUint64(&m.values[x], d)\n", "	atomic.StoreUint64(&m.values[x], atomic.LoadUint64(&m.values[x])+d)\n")],
 needs="two increments of one key at the same moment",
 breaks="one of the two increments is lost",
 demo='''package incmap

import (
	"runtime"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for r := 0; r < 50; r++ {
		m := New(4)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				for i := 0; i < 20000; i++ {
					m.Inc(3, 1)
				}
				wg.Done()
			}()
		}
		wg.Wait()
		if v, _ := m.Get(3); v != 160000 {
			t.Fatal(v)
		}
	}
}
''')

seed(id="c05-claim-no-reload", prop="C05", pkg="internal/incmap",
 edits=[(INC, """		// Did another updater set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

""", "")],
 needs="two concurrent first increments of the same key",
 breaks="the one that loses the slot makes a second entry for the key, which is never read",
 demo='''package incmap

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 400000; round++ {
		m := New(16)
		var start, ready int32
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&start) == 0 {
				}
				m.Inc(5, 1)
			}()
		}
		for atomic.LoadInt32(&ready) != 2 {
			runtime.Gosched()
		}
		atomic.StoreInt32(&start, 1)
		wg.Wait()
		if n, _ := m.Get(5); n != 2 {
			t.Fatalf("round %d: two increments, found %d", round, n)
		}
	}
}
''')

seed(id="c06-update-stale", prop="C06", pkg="internal/seqlock",
 edits=[(SEQ, """	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	returned""", """	d := s.Get()

	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	returned"""), (SEQ, """	var d [1024]byte
	copy(d[:], s.data[:])
	err""", "	err")],
 needs="two updates where the second copies the data while the first is still running",
 breaks="the later update starts from the old value and the earlier one is lost",
 demo='''package seqlock

import (
	"encoding/binary"
	"runtime"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				s.Update(func(b []byte) error {
					binary.LittleEndian.PutUint64(b, binary.LittleEndian.Uint64(b)+1)
					return nil
				})
			}
		}()
	}
	wg.Wait()
	v := s.Get()
	if n := binary.LittleEndian.Uint64(v[:]); n != 80000 {
		t.Fatal("80000 updates, found", n)
	}
}
''')

seed(id="c06-put-unlocked-done", prop="C06", pkg="internal/seqlock",
 edits=[(SEQ, """	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
}""", """	copy(s.data[:], v[:])
	s.mu.Unlock()

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
}""")],
 needs="two writers and a reader: the second writer enters between the first's unlock and its last step",
 breaks="the sequence is even while the second writer copies, so a read can be torn",
 demo='''package seqlock

import (
	"runtime"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	runtime.GOMAXPROCS(8)
	s := New()
	end := time.Now().Add(60 * time.Second)
	stop := make(chan bool)
	for g := 0; g < 3; g++ {
		go func(v byte) {
			var d [1024]byte
			for {
				select {
				case <-stop:
					return
				default:
				}
				for i := range d {
					d[i] = v
				}
				v += 3
				s.Put(d)
			}
		}(byte(g))
	}
	bad := make(chan [2]byte, 4)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 3000000 && time.Now().Before(end); i++ {
				v := s.Get()
				for j := range v {
					if v[j] != v[0] {
						bad <- [2]byte{v[0], v[j]}
						return
					}
				}
			}
			bad <- [2]byte{}
		}()
	}
	for g := 0; g < 4; g++ {
		if b := <-bad; b != [2]byte{} {
			t.Fatal("torn read", b)
		}
	}
	close(stop)
}
''')
