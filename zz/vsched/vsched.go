// Package vsched is a controlled scheduler for code rewritten by /verif/instr.
//
// While an Exec is active exactly one registered thread runs at a time; it
// hands control over only at scheduling points (P, mutex waits, yields, exit).
// Which thread runs next at every point is decided by a list of deviations from
// the default choice (keep running; otherwise the lowest thread id), so an
// execution is reproducible from that list alone. While no Exec is active
// every entry point is a no-op and the shims behave like the standard library.
package vsched

import (
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"unsafe"
)

// Dev is a deviation: at choice point Idx take alternative Alt (>0).
type Dev struct{ Idx, Alt int }

type point struct {
	n       uint8 // number of alternatives, alternative 0 is the default
	preempt bool  // the running thread was still enabled: alternatives cost one preemption
}

type tstate uint8

const (
	ready tstate = iota
	blocked
	done
)

type thread struct {
	id     int
	name   string
	body   func()
	wake   chan struct{}
	state  tstate
	waitOn interface{}
	panicv interface{}
	stack  string

	// spin detection
	lastAddr   interface{}
	lastVal    uint64
	lastRepeat int
	begun      bool // has had its first turn
	atomic     int  // depth of Atomic calls
	within     int  // points passed in the current one
	consec     int  // steps since the thread was last switched to
}

type abortT struct{}

// Exec is one controlled execution.
type Exec struct {
	threads []*thread
	running *thread
	dev     []Dev
	di      int
	points  []point
	Steps   int
	Horizon int
	clock   int
	fresh   bool
	abort   string // reason, when the execution was cut: deadlock or livelock
	endCh   chan struct{}
	live    int
	Diverge string
	trace   []byte
	maps    map[uintptr]*thread // maps being written
	quanta  []int               // when set: how many points each thread passes before the next one runs
	passed  int                 // points passed in the current quantum
	crowd   *crowd              // when set: the turns of a crowd
	waits   int                 // yields since an operation began or memory was written atomically
	cuts    int                 // threads that did not end within their first turn
	freeze  *freeze             // when set: thread 0 is to be stopped at a point
	// Switches lists thread switches for reports (step, to).
	Switches [][2]int
}

var cur *Exec

// MapOrder decides the order in which rewritten range loops visit a map of n
// keys (sorted): it returns a permutation index; nil means ascending order.
var MapOrder func(n int) int

// MapRanges counts rewritten map iterations with two keys or more.
var MapRanges int

const maxConsec = 20000

// maxWaits is how often in a row threads give way without anything happening
// before nothing is expected to happen any more.
const maxWaits = 100000

// maxWithin is how many points an operation passes at most when others do not
// interrupt it.
const maxWithin = 50000000

// Active reports whether a controlled execution is running.
func Active() bool { return cur != nil }

// P is a scheduling point.
func P() {
	if cur != nil {
		cur.point()
		cur.fresh = true
	}
}

// PShim is the scheduling point inside a shimmed operation; it is skipped when
// the statement containing the operation has just had its own point.
func PShim() {
	if cur != nil {
		if cur.fresh {
			cur.fresh = false
			return
		}
		cur.point()
	}
}

// Atomic runs f without scheduling points (unless it has to wait).
func Atomic(f func()) {
	if cur == nil {
		f()
		return
	}
	t := cur.running
	t.atomic++
	t.within = 0
	defer func() { t.atomic-- }()
	f()
}

// IsAbort reports whether a recovered panic value is the scheduler unwinding
// an execution it has cut; it must be passed on.
func IsAbort(r interface{}) bool {
	_, ok := r.(abortT)
	return ok
}

// Work marks that shared memory was touched since the last point.
func Work() {
	if cur != nil {
		cur.fresh = false
	}
}

// Rd returns v after a scheduling point: it separates the read of a compound
// assignment from its write.
func Rd[T any](v T) T {
	if cur != nil {
		cur.point()
		cur.fresh = false
	}
	return v
}

// MapW is called before a write to a map and MapWEnd after it. Between the two
// other threads may run; one that then uses the map ends the execution, as the
// runtime would end the process.
func MapW(m interface{}) {
	p := mapPtr(m)
	if p == 0 {
		return
	}
	MapR(m)
	if cur.maps == nil {
		cur.maps = map[uintptr]*thread{}
	}
	cur.maps[p] = cur.running
	cur.point()
	cur.fresh = true
}

// MapWEnd ends what MapW began.
func MapWEnd(m interface{}) {
	if p := mapPtr(m); p != 0 {
		delete(cur.maps, p)
	}
}

// MapR is called before a read of a map.
func MapR(m interface{}) {
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if t := cur.maps[p]; t != nil && t != cur.running {
		cur.cut("fatal error: concurrent use of a map that is being written")
		panic(abortT{})
	}
}

func mapPtr(m interface{}) uintptr {
	if cur == nil {
		return 0
	}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

// CopyChunks is the number of pieces a slice copy is divided into.
var CopyChunks = 3

// Copy is copy with scheduling points between its pieces.
func Copy[T any](dst, src []T) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if cur == nil || n == 0 {
		return copy(dst, src)
	}
	chunk := (n + CopyChunks - 1) / CopyChunks
	for o := 0; o < n; o += chunk {
		h := o + chunk
		if h > n {
			h = n
		}
		cur.point()
		copy(dst[o:h], src[o:h])
	}
	cur.fresh = false
	return n
}

// CopyVal is *dst = *src for arrays, with scheduling points between pieces.
func CopyVal[T any](dst, src *T) {
	if cur == nil {
		*dst = *src
		return
	}
	n := int(unsafe.Sizeof(*dst))
	d := unsafe.Slice((*byte)(unsafe.Pointer(dst)), n)
	s := unsafe.Slice((*byte)(unsafe.Pointer(src)), n)
	if reflect.TypeOf(*dst).Elem().Kind() > reflect.Complex128 {
		// may hold pointers: not in pieces
		cur.point()
		tmp := *src
		cur.point()
		*dst = tmp
		cur.fresh = false
		return
	}
	Copy(d, s)
}

// freeze says where thread 0 stops until all other threads have ended.
type freeze struct {
	pre    int  // points thread 1 passes first
	at     int  // number of the point
	client bool // only client points count
	count  int
	on     bool // stopped
	hit    bool
}

// Client is a scheduling point at which a client may stop for good: where the
// server waits for it, or an update function runs.
func Client() {
	if cur == nil {
		return
	}
	if f := cur.freeze; f != nil && f.client {
		cur.stopAt()
	}
	cur.point()
	cur.fresh = true
}

// stopAt counts a point of thread 0 and stops it there when it is the one.
func (e *Exec) stopAt() {
	f, t := e.freeze, e.running
	if t.id != 0 || f.hit {
		return
	}
	f.count++
	if f.count != f.at {
		return
	}
	f.hit = true
	for _, o := range e.threads[1:] {
		if o.state != done {
			f.on = true
			t.state = blocked
			t.waitOn = f
			e.switchAway(false)
			return
		}
	}
}

// RunFreeze runs thread 1 for pre points, then thread 0 up to its at-th point
// (client point, when client is set), where it stops until all the others have
// ended; they must manage without it. hit tells whether thread 0 got that far.
func RunFreeze(bodies []func(), pre, at int, client bool, horizon int) (r *Result, hit bool) {
	f := &freeze{pre: pre, at: at, client: client}
	r = run(bodies, nil, nil, 0, horizon, f)
	return r, f.hit
}

// Yield gives way to the other threads (runtime.Gosched, time.Sleep).
func Yield() {
	if cur != nil {
		cur.yield()
	}
}

// Go starts a new controlled thread (the go statement).
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	e := cur
	e.add(f, fmt.Sprintf("go%d", len(e.threads)))
	e.point()
}

// OpStart tells the spin detector that a new operation begins.
func OpStart() {
	if cur != nil {
		cur.waits = 0
		cur.running.lastAddr = nil
		cur.running.lastRepeat = 0
	}
}

// Stamp returns a strictly increasing event time.
func Stamp() int {
	if cur == nil {
		return 0
	}
	cur.clock++
	return cur.clock
}

// Sequential says that outside controlled executions a single goroutine uses
// the code: then an operation that reads without end and nothing is written is
// known not to return.
var Sequential bool

var idle int

var maxIdle = 1000000000

// Progress restarts the count of what an operation reads.
func Progress() {
	if Sequential {
		idle = 0
	}
}

// Loaded is called by atomic loads: three loads in a row of one address that
// see the same value are taken for a wait loop and give way to other threads.
func Loaded(addr interface{}, v uint64) {
	e := cur
	if e == nil {
		if Sequential {
			if idle++; idle > maxIdle {
				idle = 0
				maxIdle = 20000000 // further ones are found sooner
				panic("an operation that nothing interrupts waits for ever")
			}
		}
		return
	}
	t := e.running
	if t.lastAddr == addr && t.lastVal == v {
		t.lastRepeat++
		if t.lastRepeat >= 3 {
			t.lastRepeat = 0
			e.yield()
		}
		return
	}
	t.lastAddr, t.lastVal, t.lastRepeat = addr, v, 1
}

// Wrote is called by atomic writes.
func Wrote() {
	if cur == nil {
		if Sequential {
			idle = 0
		}
		return
	}
	cur.waits = 0
	cur.running.lastAddr = nil
	cur.running.lastRepeat = 0
}

// Block suspends the running thread until Wake(key).
func Block(key interface{}) {
	e := cur
	t := e.running
	t.state = blocked
	t.waitOn = key
	e.switchAway(false)
}

// Wake makes every thread blocked on key ready again.
func Wake(key interface{}) {
	if cur == nil {
		return
	}
	for _, t := range cur.threads {
		if t.state == blocked && t.waitOn == key {
			t.state = ready
			t.waitOn = nil
		}
	}
}

func (e *Exec) point() {
	if e.abort != "" {
		panic(abortT{})
	}
	t := e.running
	if t.atomic > 0 {
		// others cannot help it, so it must not wait
		if t.within++; t.within > maxWithin {
			e.cut("livelock: an operation that others do not interrupt does not end")
			panic(abortT{})
		}
		return
	}
	e.Steps++
	t.consec++
	if e.Steps > e.Horizon {
		e.cut("livelock: no thread finished within the step horizon")
		panic(abortT{})
	}
	if t.consec > maxConsec {
		e.yield()
		return
	}
	if f := e.freeze; f != nil {
		if t.id == 1 && f.pre > 0 {
			if f.pre--; f.pre == 0 && e.threads[0].state == ready {
				e.to(e.threads[0])
			}
			return
		}
		if !f.client {
			e.stopAt()
		}
		return
	}
	n := 1
	for _, o := range e.threads {
		if o != t && o.state == ready {
			n++
		}
	}
	if n == 1 {
		return
	}
	if e.quanta != nil {
		e.passed++
		if e.passed >= e.quantum(t) {
			e.passed = 0
			if !t.begun {
				t.begun = true
				e.cuts++
			}
			e.to(e.cyclic(t))
		}
		return
	}
	if a := e.choice(n, true); a != 0 {
		e.to(e.nth(a-1, t))
	}
}

func (e *Exec) quantum(t *thread) int {
	if c := e.crowd; c != nil {
		if !t.begun {
			return c.first
		}
		return c.rest
	}
	if t.id < len(e.quanta) {
		return e.quanta[t.id]
	}
	return 1
}

// crowd are turns of a crowd: every thread runs for first points, one after
// the other, and only when all have done so each runs on, for rest points at
// a time, in the same or, with back, in the opposite order.
type crowd struct {
	first, rest int
	back        bool
}

func (e *Exec) allBegun() bool {
	for _, t := range e.threads {
		if !t.begun && t.state == ready {
			return false
		}
	}
	return true
}

// RunCrowd executes the thread bodies in the turns of a crowd.
func RunCrowd(bodies []func(), first, rest int, back bool, horizon int) *Result {
	return runCrowd(bodies, &crowd{first, rest, back}, horizon)
}

// cyclic returns the next ready thread after t.
func (e *Exec) cyclic(t *thread) *thread {
	for i := 1; i <= len(e.threads); i++ {
		j := t.id + i
		if e.crowd != nil && e.crowd.back && e.allBegun() {
			j = t.id - i + len(e.threads)
		}
		if o := e.threads[j%len(e.threads)]; o.state == ready {
			return o
		}
	}
	return t
}

// choice records a choice point with n alternatives and returns the one to take.
func (e *Exec) choice(n int, preempt bool) int {
	idx := len(e.points)
	e.points = append(e.points, point{uint8(n), preempt})
	if e.di < len(e.dev) && e.dev[e.di].Idx == idx {
		a := e.dev[e.di].Alt
		e.di++
		if a >= n {
			e.Diverge = fmt.Sprintf("deviation %d:%d but only %d alternatives", idx, a, n)
			a = 0
		}
		return a
	}
	return 0
}

// nth returns the k-th ready thread other than skip in id order.
func (e *Exec) nth(k int, skip *thread) *thread {
	for _, o := range e.threads {
		if o != skip && o.state == ready {
			if k == 0 {
				return o
			}
			k--
		}
	}
	return nil
}

func (e *Exec) to(o *thread) {
	t := e.running
	e.running = o
	o.consec = 0
	e.fresh = false
	if len(e.Switches) < 4096 {
		e.Switches = append(e.Switches, [2]int{e.Steps, o.id})
	}
	o.wake <- struct{}{}
	<-t.wake
	if e.abort != "" {
		panic(abortT{})
	}
}

// yield lets the next ready thread (cyclically) run at no cost; any other
// choice counts as a preemption, so that threads waiting for each other's
// progress do not make the space of schedules infinite.
func (e *Exec) yield() {
	if e.abort != "" {
		panic(abortT{})
	}
	e.Steps++
	e.waits++
	if e.Steps > e.Horizon || e.waits > maxWaits {
		e.cut("livelock: only waiting threads remain")
		panic(abortT{})
	}
	t := e.running
	t.consec = 0
	n := 0
	for _, o := range e.threads {
		if o != t && o.state == ready {
			n++
		}
	}
	if n == 0 {
		return
	}
	e.passed = 0
	t.begun = true
	a := 0
	if n > 1 && e.quanta == nil {
		a = e.choice(n, true)
	}
	// default: next id after t, cyclic
	k := 0
	for _, o := range e.threads {
		if o != t && o.state == ready && o.id < t.id {
			k++
		}
	}
	e.to(e.nth((k+a)%n, t))
}

// switchAway hands over from a thread that cannot run (blocked) or has ended.
func (e *Exec) switchAway(ended bool) {
	t := e.running
	n := 0
	for _, o := range e.threads {
		if o != t && o.state == ready {
			n++
		}
	}
	if n == 0 {
		if ended && e.live == 0 {
			close(e.endCh)
			return
		}
		if t.state == ready && !ended {
			return
		}
		if f := e.freeze; f != nil && f.on {
			f.on = false
			others := 0
			for _, o := range e.threads[1:] {
				if o.state != done {
					others++
				}
			}
			if others == 0 {
				Wake(f)
				e.running = e.threads[0]
				e.fresh = false
				e.threads[0].wake <- struct{}{}
				return // the last of the others has ended
			}
			e.cut("a thread waits for the one that has stopped")
		} else {
			e.cut("deadlock: every remaining thread is blocked")
		}
		if ended {
			e.reap(t)
			return
		}
		panic(abortT{})
	}
	e.passed = 0
	a := 0
	if n > 1 && e.quanta == nil {
		a = e.choice(n, false)
	}
	o := e.nth(a, t)
	if e.crowd != nil {
		t.begun = true
		if !e.allBegun() {
			for _, x := range e.threads {
				if x != t && x.state == ready && !x.begun {
					o = x
					break
				}
			}
		} else if e.crowd.back {
			o = e.nth(n-1, t)
		}
	}
	if ended {
		e.running = o
		o.consec = 0
		e.fresh = false
		if len(e.Switches) < 4096 {
			e.Switches = append(e.Switches, [2]int{e.Steps, o.id})
		}
		o.wake <- struct{}{}
		return
	}
	e.to(o)
}

func (e *Exec) cut(reason string) {
	if e.abort == "" {
		e.abort = reason
	}
}

// reap unwinds the next unfinished thread of an aborted execution.
func (e *Exec) reap(t *thread) {
	for _, o := range e.threads {
		if o != t && o.state != done {
			e.running = o
			o.wake <- struct{}{}
			return
		}
	}
	close(e.endCh)
}

func (e *Exec) add(f func(), name string) {
	t := &thread{id: len(e.threads), name: name, body: f, wake: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	e.live++
	go func() {
		<-t.wake
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abortT); ok {
						return
					}
					t.panicv = r
					t.stack = string(debug.Stack())
				}
			}()
			if e.abort == "" {
				t.body()
			}
		}()
		t.state = done
		e.live--
		if e.abort != "" {
			e.reap(t)
			return
		}
		e.switchAway(true)
	}()
}

// Result describes a finished execution.
type Result struct {
	Abort    string
	Panics   []string
	Stacks   []string
	Steps    int
	Points   int
	Switches [][2]int
	Diverge  string
	Cuts     int // of a crowd: the threads that did not end in their first turn
	points   []point
}

// Run executes the thread bodies under the deviations dev.
func Run(bodies []func(), dev []Dev, horizon int) *Result {
	return run(bodies, dev, nil, 0, horizon, nil)
}

// RunQuanta executes the thread bodies in turn, thread i for quanta[i] points
// each time, the first time thread 0 for first points only.
func RunQuanta(bodies []func(), quanta []int, first, horizon int) *Result {
	return run(bodies, nil, quanta, quanta[0]-first, horizon, nil)
}

func run(bodies []func(), dev []Dev, quanta []int, passed, horizon int, f *freeze) *Result {
	return runExec(bodies, &Exec{dev: dev, quanta: quanta, passed: passed, freeze: f, Horizon: horizon, endCh: make(chan struct{})})
}

func runCrowd(bodies []func(), c *crowd, horizon int) *Result {
	return runExec(bodies, &Exec{quanta: []int{}, crowd: c, Horizon: horizon, endCh: make(chan struct{})})
}

func runExec(bodies []func(), e *Exec) *Result {
	if cur != nil {
		panic("vsched: nested Run")
	}
	e.points = make([]point, 0, 256)
	for i, b := range bodies {
		e.add(b, fmt.Sprintf("t%d", i))
	}
	rendezvous = map[interface{}][]*pendingSend{}
	cur = e
	e.running = e.threads[0]
	// The initial choice of the first thread costs nothing.
	a := 0
	if e.freeze != nil {
		if e.freeze.pre > 0 {
			a = 1
		}
	} else if len(e.threads) > 1 && e.quanta == nil {
		a = e.choice(len(e.threads), false)
	}
	e.running = e.threads[a]
	e.Switches = append(e.Switches, [2]int{0, a})
	e.running.wake <- struct{}{}
	<-e.endCh
	cur = nil
	r := &Result{Abort: e.abort, Steps: e.Steps, Points: len(e.points), Switches: e.Switches, Diverge: e.Diverge, Cuts: e.cuts, points: e.points}
	if e.abort == "" && e.di < len(e.dev) {
		r.Diverge = fmt.Sprintf("deviation at point %d never reached (%d points)", e.dev[e.di].Idx, len(e.points))
	}
	for _, t := range e.threads {
		if t.panicv != nil {
			r.Panics = append(r.Panics, fmt.Sprintf("thread %d: %v", t.id, t.panicv))
			r.Stacks = append(r.Stacks, t.stack)
		}
	}
	return r
}

// Scenario is a small closed program. Setup is called once per execution.
type Scenario struct {
	Name  string
	Setup func() (bodies []func(), check func(r *Result) (outcome string, err error))
}

// Stats describes an exploration.
type Stats struct {
	Execs      int
	Steps      int64
	Points     int64
	MaxPoints  int
	Outcomes   map[string]int
	Complete   bool // every schedule within the bound was run
	Diverged   int
	Violations []Violation
}

// Violation is a failing execution.
type Violation struct {
	Scenario string
	Devs     []Dev
	Err      error
	Bound    int
	Switches [][2]int
}

// Config bounds an exploration.
type Config struct {
	Bound    int
	Shard, N int
	Horizon  int
	Stop     func() bool // polled between executions: true ends the exploration early
	MaxViol  int
	Progress func(d []Dev)
}

// ErrDiverged reports that a recorded schedule could not be followed: the
// program under test behaved differently under the same schedule.
var ErrDiverged = errors.New("the schedule could not be replayed: uncontrolled nondeterminism")

// RunOnce runs one execution of the scenario and evaluates it.
func RunOnce(sc *Scenario, dev []Dev, horizon int) (res *Result, outcome string, err error) {
	bodies, check := sc.Setup()
	res = Run(bodies, dev, horizon)
	if res.Diverge != "" {
		return res, "diverged", ErrDiverged
	}
	if res.Abort != "" {
		return res, "abort", fmt.Errorf("%s", res.Abort)
	}
	outcome, err = check(res)
	return
}

// ExploreBound runs every schedule with at most cfg.Bound preemptions.
func ExploreBound(sc *Scenario, cfg Config) *Stats {
	st := &Stats{Outcomes: map[string]int{}}
	if cfg.Horizon == 0 {
		cfg.Horizon = 200000
	}
	if cfg.N == 0 {
		cfg.N = 1
	}
	if cfg.MaxViol == 0 {
		cfg.MaxViol = 1
	}
	type node struct {
		dev  []Dev
		cost int
	}
	stack := []node{{nil, 0}}
	for len(stack) > 0 {
		if cfg.Stop != nil && cfg.Stop() {
			return st
		}
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if cfg.Progress != nil {
			cfg.Progress(nd.dev)
		}
		res, outcome, err := RunOnce(sc, nd.dev, cfg.Horizon)
		// The execution without deviations is run by every shard but counted by one.
		if !(len(nd.dev) == 0 && cfg.Shard != 0) {
			st.Execs++
			st.Steps += int64(res.Steps)
			st.Points += int64(res.Points)
			if res.Points > st.MaxPoints {
				st.MaxPoints = res.Points
			}
			if len(st.Outcomes) < 2000 || st.Outcomes[outcome] > 0 {
				st.Outcomes[outcome]++
			}
		}
		if err == ErrDiverged {
			st.Diverged++
			continue
		}
		if err != nil {
			st.Violations = append(st.Violations, Violation{sc.Name, nd.dev, err, nd.cost, res.Switches})
			if len(st.Violations) >= cfg.MaxViol {
				return st
			}
			continue
		}
		start := 0
		if len(nd.dev) > 0 {
			start = nd.dev[len(nd.dev)-1].Idx + 1
		}
		root := len(nd.dev) == 0
		for i := len(res.points) - 1; i >= start; i-- {
			p := res.points[i]
			c := nd.cost
			if p.preempt {
				c++
			}
			if c > cfg.Bound {
				continue
			}
			for a := int(p.n) - 1; a >= 1; a-- {
				if root && (i+a)%cfg.N != cfg.Shard {
					continue
				}
				d := make([]Dev, len(nd.dev)+1)
				copy(d, nd.dev)
				d[len(nd.dev)] = Dev{i, a}
				stack = append(stack, node{d, c})
			}
		}
	}
	st.Complete = true
	return st
}

// MapKeys returns the keys of m in the order chosen by MapOrder.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if len(ks) > 1 {
		MapRanges++
		if MapOrder != nil {
			permute(ks, MapOrder(len(ks)))
		}
	}
	return ks
}

// permute arranges ks in its idx-th permutation (factorial number system).
func permute[K any](ks []K, idx int) {
	n := len(ks)
	out := make([]K, 0, n)
	rest := append([]K(nil), ks...)
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	for i := n - 1; i >= 0; i-- {
		k := (idx / f) % len(rest)
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
		if i > 0 {
			f /= max(i, 1)
		}
	}
	copy(ks, out)
}

// Gosched replaces runtime.Gosched.
func Gosched(real func()) {
	if cur == nil {
		real()
		return
	}
	cur.yield()
}

// Sleep replaces time.Sleep: under the scheduler any other thread may run first.
func Sleep[D any](d D, real func(D)) {
	if cur == nil {
		real(d)
		return
	}
	cur.yield()
}

// rendezvous holds pending sends on unbuffered channels of the current execution.
var rendezvous = map[interface{}][]*pendingSend{}

type pendingSend struct {
	v     interface{}
	taken bool
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T, v T) {
	if cur == nil {
		ch <- v
		return
	}
	cur.point()
	if cap(ch) > 0 {
		for {
			select {
			case ch <- v:
				Wake("chan")
				return
			default:
			}
			Block("chan")
		}
	}
	if ch == nil {
		Block(new(int))
	}
	p := &pendingSend{v: v}
	k := chanKey(ch)
	rendezvous[k] = append(rendezvous[k], p)
	Wake("chan")
	for !p.taken {
		Block("chan")
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	cur.point()
	k := chanKey(ch)
	for {
		if q := rendezvous[k]; len(q) > 0 {
			p := q[0]
			rendezvous[k] = q[1:]
			p.taken = true
			Wake("chan")
			v, _ := p.v.(T)
			return v, true
		}
		select {
		case v, ok := <-ch:
			Wake("chan")
			return v, ok
		default:
		}
		Block("chan")
	}
}

func chanKey(ch interface{}) string { return fmt.Sprintf("%p", ch) }

// Together runs scenarios that have nothing to do with each other at the same
// time; each is judged as if it were alone.
func Together(ss ...*Scenario) *Scenario {
	name := "together"
	for _, s := range ss {
		name += " " + s.Name
	}
	return &Scenario{Name: name, Setup: func() ([]func(), func(*Result) (string, error)) {
		var bodies []func()
		var checks []func(*Result) (string, error)
		for _, s := range ss {
			b, c := s.Setup()
			bodies = append(bodies, b...)
			checks = append(checks, c)
		}
		return bodies, func(r *Result) (string, error) {
			var out string
			for i, c := range checks {
				o, err := c(r)
				if err != nil {
					return "", fmt.Errorf("%s: %v", ss[i].Name, err)
				}
				out += o + " / "
			}
			return out, nil
		}
	}}
}
