// Package vsync mirrors package sync under the controlled scheduler.
package vsync

import (
	"sync"

	"github.com/iand/starbow/internal/zz/vsched"
)

type Locker = sync.Locker

// Mutex is a sync.Mutex whose waiting is visible to the scheduler.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	if !vsched.Active() {
		if vsched.Sequential && m.locked {
			panic("an operation that nothing interrupts waits for a lock that is never released")
		}
		m.real.Lock()
		m.locked = true
		return
	}
	vsched.PShim()
	for m.locked {
		vsched.Block(m)
	}
	m.locked = true
	vsched.Wrote()
}

func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		if m.locked {
			return false
		}
		ok := m.real.TryLock()
		if ok {
			m.locked = true
		}
		return ok
	}
	vsched.PShim()
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Wrote()
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.locked = false
		m.real.Unlock()
		return
	}
	vsched.PShim()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsched.Wrote()
	vsched.Wake(m)
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	readers int
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		m.w = true
		return
	}
	vsched.PShim()
	for m.w || m.readers > 0 {
		vsched.Block(m)
	}
	m.w = true
	vsched.Wrote()
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.PShim()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vsched.Wrote()
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.w = false
		m.real.Unlock()
		return
	}
	vsched.PShim()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsched.Wrote()
	vsched.Wake(m)
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.PShim()
	for m.w {
		vsched.Block(m)
	}
	m.readers++
	vsched.Wrote()
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.PShim()
	if m.w {
		return false
	}
	m.readers++
	vsched.Wrote()
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	vsched.PShim()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Wrote()
	vsched.Wake(m)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (g *WaitGroup) Add(d int) {
	if !vsched.Active() {
		g.real.Add(d)
		return
	}
	vsched.PShim()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Wrote()
	if g.n == 0 {
		vsched.Wake(g)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !vsched.Active() {
		g.real.Wait()
		return
	}
	vsched.PShim()
	for g.n > 0 {
		vsched.Block(g)
	}
}

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	seq  int
	wait []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	tok := new(int)
	c.wait = append(c.wait, tok)
	c.L.Unlock()
	for *tok == 0 {
		vsched.Block(tok)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	vsched.PShim()
	if len(c.wait) > 0 {
		tok := c.wait[0]
		c.wait = c.wait[1:]
		*tok = 1
		vsched.Wake(tok)
	}
}

func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	vsched.PShim()
	for _, tok := range c.wait {
		*tok = 1
		vsched.Wake(tok)
	}
	c.wait = nil
}

// Pool mirrors sync.Pool; it always hands out the item put back last, the
// behaviour that shows an item kept in use after Put.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	vsched.PShim()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	vsched.PShim()
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map mirrors sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { vsched.PShim(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { vsched.PShim(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.PShim()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.PShim()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{}) { vsched.PShim(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	vsched.PShim()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	vsched.PShim()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vsched.PShim()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { vsched.PShim(); m.m.Range(f) }
func (m *Map) Clear()                              { vsched.PShim(); m.m.Clear() }
