package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// One operation of a thread program.
type op struct {
	kind byte // 'u' update, 'g' read, 'e' failing update, 'p' panicking update, 'b' burst of n updates without scheduling points
	key  uint64
	n    int
}

// prog is a closed concurrent program on one map.
type prog struct {
	name    string
	l       int
	recLen  int
	pre     []uint64 // keys updated once before the threads start
	threads [][]op
}

var errFn = errors.New("verif: update function failed")

type panicVal struct{ id int }

// event is a finished operation.
type event struct {
	op       op
	id       int // identifies the update in the log, 1..
	inv, res int
	err      error
	panicked bool
	init     bool
	calls    int
	preLog   []byte // the record as the update function saw it
	found    bool
	buf      []byte
	done     bool
}

// A record is a log: byte 0 the number of entries, then the entries, and the
// last byte the number of entries again. Logs of bursts only keep the count
// modulo 251 and the id of the last update.
func appendLog(data []byte, id int, slow bool) error {
	n := int(data[0])
	if slow {
		vsched.P()
	}
	if 1+n >= len(data)-1 {
		return fmt.Errorf("harness: log full")
	}
	data[1+n] = byte(id)
	if slow {
		vsched.P()
	}
	data[0] = byte(n + 1)
	if slow {
		vsched.P()
	}
	data[len(data)-1] = byte(n + 1)
	if slow {
		vsched.P()
	}
	return nil
}

// parseLog returns the entries of a record or reports why it is not whole.
func parseLog(buf []byte) ([]byte, error) {
	n := int(buf[0])
	if n > len(buf)-2 || int(buf[len(buf)-1]) != n {
		return nil, fmt.Errorf("record %v is not whole", buf)
	}
	for i := 1 + n; i < len(buf)-1; i++ {
		if buf[i] != 0 {
			return nil, fmt.Errorf("record %v is not whole", buf)
		}
	}
	for i := 1; i <= n; i++ {
		if buf[i] == 0 || buf[i] == 0xEE {
			return nil, fmt.Errorf("record %v is not whole", buf)
		}
	}
	return buf[1 : 1+n], nil
}

func doOp(m *bufmap.Map, p *prog, o op, id int, ev *event) {
	vsched.OpStart()
	ev.op, ev.id = o, id
	ev.inv = vsched.Stamp()
	switch o.kind {
	case 'u':
		ev.err = m.Update(o.key, func(data []byte, init bool) error {
			if len(data) != p.recLen {
				return fmt.Errorf("update function got %d bytes of a %d byte record", len(data), p.recLen)
			}
			ev.calls++
			ev.init = init
			ev.preLog = append([]byte(nil), data...)
			return appendLog(data, id, true)
		})
	case 'e', 'p':
		func() {
			defer func() {
				if r := recover(); r != nil {
					if vsched.IsAbort(r) {
						panic(r)
					}
					pv, ok := r.(panicVal)
					if !ok || pv.id != id || o.kind != 'p' {
						panic(r)
					}
					ev.panicked = true
				}
			}()
			ev.err = m.Update(o.key, func(data []byte, init bool) error {
				ev.calls++
				ev.init = init
				ev.preLog = append([]byte(nil), data...)
				appendLog(data, id, true)
				if o.n > 0 {
					for i := range data {
						data[i] = 0xDD
					}
				}
				if o.kind == 'p' {
					panic(panicVal{id})
				}
				return errFn
			})
		}()
	case 'g':
		full := make([]byte, p.recLen+4)
		for i := range full {
			full[i] = 0xEE
		}
		ev.buf = full[:p.recLen:p.recLen]
		ev.found = m.Get(o.key, ev.buf)
		for _, b := range full[p.recLen:] {
			if b != 0xEE {
				panic("read wrote beyond its buffer")
			}
		}
	}
	ev.res = vsched.Stamp()
	ev.done = true
}

func (p *prog) scenario() *vsched.Scenario {
	return &vsched.Scenario{Name: p.name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
		m := bufmap.New(p.l, p.recLen)
		var events []*event
		id := 0
		for _, k := range p.pre {
			id++
			ev := &event{}
			events = append(events, ev)
			k, i := k, id
			vsched.Run([]func(){func() { doOp(m, p, op{kind: 'u', key: k}, i, ev) }}, nil, 100000)
			ev.inv, ev.res = -2, -1 // before everything
		}
		var bodies []func()
		for _, th := range p.threads {
			var evs []*event
			var ids []int
			for range th {
				id++
				ids = append(ids, id)
				ev := &event{}
				evs = append(evs, ev)
				events = append(events, ev)
			}
			th := th
			bodies = append(bodies, func() {
				for i, o := range th {
					doOp(m, p, o, ids[i], evs[i])
				}
			})
		}
		return bodies, func(r *vsched.Result) (string, error) {
			if len(r.Panics) > 0 {
				return "panic", fmt.Errorf("panic: %s\n%s", r.Panics[0], trunc(r.Stacks[0], 1500))
			}
			return p.judge(m, events)
		}
	}}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// judge compares a complete history with the sequential meaning of the store.
func (p *prog) judge(m *bufmap.Map, events []*event) (string, error) {
	keys := map[uint64]bool{}
	for _, e := range events {
		keys[e.op.key] = true
		if !e.done {
			return "", fmt.Errorf("operation %c(%d) did not finish", e.op.kind, e.op.key)
		}
	}
	var order []uint64
	for k := range keys {
		order = append(order, k)
	}
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j] < order[i] {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	var out strings.Builder
	for _, k := range order {
		// the final record, read by a thread running alone
		fin := &event{}
		r := vsched.Run([]func(){func() { doOp(m, p, op{kind: 'g', key: k}, 0, fin) }}, nil, 20000)
		if r.Abort != "" || len(r.Panics) > 0 {
			return "", fmt.Errorf("a read of key %d after all operations ended does not finish: %s%s", k, r.Abort, strings.Join(r.Panics, " "))
		}
		fin.inv, fin.res = 1<<30, 1<<30+1
		var log []byte
		if fin.found {
			var err error
			if log, err = parseLog(fin.buf); err != nil {
				return "", fmt.Errorf("final read of key %d: %v", k, err)
			}
		}
		pos := map[int]int{}
		for i, id := range log {
			if _, dup := pos[int(id)]; dup {
				return "", fmt.Errorf("key %d: update %d applied twice, log %v", k, id, log)
			}
			pos[int(id)] = i
		}
		byID := map[int]*event{}
		nOK := 0
		var reads []*event
		for _, e := range events {
			if e.op.key != k {
				if _, in := pos[e.id]; in && e.op.kind != 'g' {
					return "", fmt.Errorf("key %d holds update %d of key %d, log %v", k, e.id, e.op.key, log)
				}
				continue
			}
			switch e.op.kind {
			case 'g':
				reads = append(reads, e)
				continue
			case 'e':
				if e.calls == 0 {
					if e.err != bufmap.ErrOutOfSlots {
						return "", fmt.Errorf("update %d of key %d: update function not called, error %v", e.id, k, e.err)
					}
				} else if e.err != errFn {
					return "", fmt.Errorf("failing update %d of key %d returned %v, not the error of its function", e.id, k, e.err)
				}
			case 'p':
				if e.calls > 0 && !e.panicked {
					return "", fmt.Errorf("the panic of update %d of key %d did not reach the caller", e.id, k)
				}
			}
			_, in := pos[e.id]
			if e.op.kind == 'e' || e.op.kind == 'p' {
				if in {
					return "", fmt.Errorf("failed update %d of key %d left its change, log %v", e.id, k, log)
				}
				if e.calls > 0 {
					// it saw the state some successful update left (or a new record)
					if err := p.sawPrefix(k, e, log); err != nil {
						return "", err
					}
				}
				continue
			}
			byID[e.id] = e
			if e.err == nil {
				nOK++
				if e.calls == 0 {
					return "", fmt.Errorf("update %d of key %d succeeded without calling its function", e.id, k)
				}
				if !in {
					return "", fmt.Errorf("update %d of key %d reported success but is not in the record, log %v (found=%v)", e.id, k, log, fin.found)
				}
				if err := p.sawPrefix(k, e, log); err != nil {
					return "", err
				}
				pl, _ := parseLog(e.preLog)
				if len(pl) != pos[e.id] {
					return "", fmt.Errorf("update %d of key %d was applied to %v but stands at position %d of %v", e.id, k, pl, pos[e.id], log)
				}
			} else {
				if in {
					return "", fmt.Errorf("update %d of key %d reported %v but is in the record, log %v", e.id, k, e.err, log)
				}
				if e.calls > 0 || e.err != bufmap.ErrOutOfSlots {
					return "", fmt.Errorf("update %d of key %d: unexpected error %v (function called %d times)", e.id, k, e.err, e.calls)
				}
				if err := p.refusal(e, events); err != nil {
					return "", err
				}
			}
		}
		if len(log) != nOK {
			return "", fmt.Errorf("key %d: %d successful updates but log %v", k, nOK, log)
		}
		if fin.found && nOK == 0 {
			return "", fmt.Errorf("key %d is found though no update of it succeeded", k)
		}
		// real-time order
		for i := range log {
			for j := i + 1; j < len(log); j++ {
				a, b := byID[int(log[i])], byID[int(log[j])]
				if b.res < a.inv {
					return "", fmt.Errorf("key %d: update %d finished before %d started but stands after it, log %v", k, b.id, a.id, log)
				}
			}
		}
		// reads
		reads = append(reads, fin)
		for _, e := range reads {
			n, err := p.judgeRead(k, e, events, log, byID)
			if err != nil {
				return "", err
			}
			e.calls = n
		}
		for _, a := range reads {
			for _, b := range reads {
				if a.res < b.inv && a.calls > b.calls {
					return "", fmt.Errorf("key %d: a read saw %d updates, a later one only %d", k, a.calls, b.calls)
				}
			}
		}
		fmt.Fprintf(&out, "k%d:%v", k, log)
		for _, e := range reads {
			if e != fin {
				fmt.Fprintf(&out, "r%d", e.calls)
			}
		}
		for _, e := range events {
			if e.op.key == k && e.op.kind == 'u' && e.err != nil {
				out.WriteString("refused")
			}
		}
		out.WriteString(" ")
	}
	return out.String(), nil
}

// judgeRead returns how many updates the read saw (0: not found).
func (p *prog) judgeRead(k uint64, e *event, events []*event, log []byte, byID map[int]*event) (int, error) {
	before := 0
	for i, id := range log {
		if byID[int(id)].res < e.inv {
			before = i + 1
		}
	}
	if !e.found {
		if before > 0 {
			return 0, fmt.Errorf("a read of key %d found nothing though update %d had completed", k, log[0])
		}
		return 0, nil
	}
	got, err := parseLog(e.buf)
	if err != nil {
		return 0, fmt.Errorf("a read of key %d: %v", k, err)
	}
	if len(got) == 0 {
		return 0, fmt.Errorf("a read of key %d found a record no update had written yet", k)
	}
	if len(got) > len(log) || string(got) != string(log[:len(got)]) {
		return 0, fmt.Errorf("a read of key %d saw %v, not a state of %v", k, got, log)
	}
	if len(got) < before {
		return 0, fmt.Errorf("a read of key %d saw %v but %v had completed before it started", k, got, log[:before])
	}
	for _, id := range got {
		if byID[int(id)].inv > e.res {
			return 0, fmt.Errorf("a read of key %d saw update %d that started after it returned", k, id)
		}
	}
	return len(got), nil
}

// sawPrefix checks the record an update function was given.
func (p *prog) sawPrefix(k uint64, e *event, log []byte) error {
	pl, err := parseLog(e.preLog)
	if err != nil {
		return fmt.Errorf("update %d of key %d was given a record that is not whole: %v", e.id, k, err)
	}
	if len(pl) > len(log) || string(pl) != string(log[:len(pl)]) {
		return fmt.Errorf("update %d of key %d was given %v, not a state of %v", e.id, k, pl, log)
	}
	if e.init != (len(pl) == 0) {
		return fmt.Errorf("update %d of key %d was told init=%v with %d updates applied before it", e.id, k, e.init, len(pl))
	}
	return nil
}

// refusal checks that a refused update had a reason: the slots of its probe
// range are taken by other keys.
func (p *prog) refusal(e *event, events []*event) error {
	span := 11
	if p.l < span {
		span = p.l
	}
	in := func(slot int) bool {
		d := (slot - int(e.op.key%uint64(p.l)) + p.l) % p.l
		return d < span
	}
	others := map[uint64]bool{}
	for _, o := range events {
		if o.op.kind == 'g' || o.inv > e.res {
			continue
		}
		if o.op.key == e.op.key {
			if o != e && o.op.kind == 'u' && o.err == nil && o.res < e.inv {
				return fmt.Errorf("update %d of stored key %d was refused", e.id, e.op.key)
			}
			continue
		}
		// a key may occupy any slot of its own probe range
		for i := 0; i < span; i++ {
			if in(int((o.op.key%uint64(p.l) + uint64(i)) % uint64(p.l))) {
				others[o.op.key] = true
			}
		}
	}
	if len(others) < span {
		return fmt.Errorf("key %d refused though at most %d of its %d slots can be taken", e.op.key, len(others), span)
	}
	return nil
}

func ups(keys ...uint64) (o []op) {
	for _, k := range keys {
		o = append(o, op{kind: 'u', key: k})
	}
	return
}

func gets(keys ...uint64) (o []op) {
	for _, k := range keys {
		o = append(o, op{kind: 'g', key: k})
	}
	return
}

func cat(a ...[]op) (o []op) {
	for _, x := range a {
		o = append(o, x...)
	}
	return
}

func scenarios(ps []*prog) (s []*vsched.Scenario) {
	for _, p := range ps {
		s = append(s, p.scenario())
	}
	return
}

const rl = 9 // log of up to 7 updates

func c01(w *vlib.W) {
	lives(w, 0)
	duels(w, "uunu")
	crowds(w, "one new", "one old", "two keys", "two keys twice", "own keys")
	apart(w, ups(3), ups(3, 3), cat(ups(3), gets(3)))
	var ps []*prog
	add := func(name string, l int, pre []uint64, th ...[]op) {
		ps = append(ps, &prog{name: fmt.Sprintf("%s/l%d", name, l), l: l, recLen: rl, pre: pre, threads: th})
	}
	for _, l := range []int{1, 2, 12} {
		k := uint64(3)
		add("same-new-key", l, nil, ups(k), ups(k))
		add("same-old-key", l, []uint64{k}, ups(k), ups(k))
	}
	// keys 5 and 17 share the first slot of a table of 12, 5 and 9 of a table of 4
	add("colliding-new", 12, nil, ups(5), ups(17))
	add("colliding-wrap", 12, nil, ups(11), ups(23))
	add("colliding-new", 2, nil, ups(1), ups(3))
	add("compete-last", 1, nil, ups(1), ups(2))
	add("compete-last", 2, []uint64{1}, ups(2), ups(3))
	add("neighbours", 3, nil, ups(1), ups(2))
	add("colliding-twice", 4, nil, ups(5, 5), ups(9, 9))
	add("crossing", 4, nil, ups(5, 9), ups(9, 5))
	add("same-twice", 2, nil, ups(3, 3), ups(3, 3))
	add("three-same", 2, nil, ups(3), ups(3), ups(3))
	add("three-two-keys", 12, nil, ups(5), ups(5), ups(17))
	add("three-two-keys", 2, nil, ups(1), ups(1), ups(3))
	add("three-keys-two-slots", 2, nil, ups(1), ups(3), ups(5))
	add("three-keys", 3, nil, ups(1), ups(4), ups(7))
	add("old-and-new", 12, []uint64{5}, ups(17, 5), ups(5, 17))
	add("reader-at-birth", 2, nil, ups(3), ups(3), gets(3, 3))
	add("reader-other", 12, []uint64{5}, ups(5), ups(17), gets(5, 17))
	// the same key arriving by two threads behind a key that takes the first slot
	add("behind", 12, nil, ups(5, 17), ups(17, 17), ups(29))
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 3, 5)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("uu", recSizes)), Bound: pick(w, 2, 3)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("uu", largeSizes)), Bound: pick(w, 1, 2)}).Run(w)
	ps = nil
	add("four-same", 2, nil, ups(3), ups(3), ups(3), ups(3))
	add("four-same-old", 2, []uint64{3}, ups(3), ups(3), ups(3), ups(3))
	add("four-pairs", 12, nil, ups(5), ups(5), ups(17), ups(17))
	add("four-keys-three-slots", 3, nil, ups(1), ups(4), ups(7), ups(10))
	add("four-keys", 4, nil, ups(1), ups(5), ups(9), ups(13))
	add("four-crossing", 4, nil, ups(5, 9), ups(9, 5), ups(13, 5), ups(5, 13))
	add("four-behind", 12, nil, ups(29), ups(17), ups(17), ups(5, 17))
	add("four-last-slot", 2, []uint64{1}, ups(2), ups(3), ups(2), ups(3))
	add("four-mixed", 12, []uint64{5}, ups(5), ups(17), ups(17), gets(17, 5))
	add("five-same", 2, nil, ups(3), ups(3), ups(3), ups(3), ups(3))
	add("five-pairs", 12, nil, ups(5), ups(5), ups(17), ups(17), gets(5, 17))
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 1, 2)}).Run(w)
}

var (
	recSizes   = []int{4, 5, 6, 7, 8, 10, 12, 16, 17, 24, 32, 33, 64, 65, 128, 129, 256, 1000, 4096, 5000}
	largeSizes = []int{8193, 16385, 32769, 65535, 65536, 65537, 200001, 1<<20 + 1}
)

// sized are the basic programs over records of other sizes.
func sized(kinds string, sizes []int) (ps []*prog) {
	for _, n := range sizes {
		add := func(name string, l int, pre []uint64, th ...[]op) {
			max := n - 2
			if max > 250 {
				max = 250
			}
			c := len(pre)
			for _, t := range th {
				for _, o := range t {
					if o.kind == 'u' {
						c++
					}
				}
			}
			if c > max {
				return
			}
			ps = append(ps, &prog{name: fmt.Sprintf("%s/l%d/s%d", name, l, n), l: l, recLen: n, pre: pre, threads: th})
		}
		switch kinds {
		case "uu":
			add("same-new-key", 2, nil, ups(3), ups(3))
			add("same-old-key", 2, []uint64{3}, ups(3), ups(3))
			add("colliding-new", 2, nil, ups(1), ups(3))
			add("crossing", 3, nil, ups(1, 2), ups(2, 1))
		case "gu":
			add("read-old", 2, []uint64{3}, ups(3), gets(3))
			add("read-new", 2, nil, ups(3), gets(3))
			add("read-old-twice", 1, []uint64{3}, ups(3, 3), gets(3))
			add("neighbour-writes", 3, []uint64{1, 2}, ups(1), gets(2))
			add("neighbour-writes-low", 3, []uint64{1, 2}, ups(2), gets(1))
		case "e":
			for _, kind := range []byte{'e', 'p'} {
				f := func(k uint64) []op { return []op{{kind: kind, key: k, n: 1}} }
				add(string(kind)+"-vs-update-new", 2, nil, f(3), ups(3))
				add(string(kind)+"-vs-update-old", 2, []uint64{3}, f(3), ups(3))
				add(string(kind)+"-vs-read-old", 2, []uint64{3}, f(3), gets(3))
				add(string(kind)+"-neighbour", 3, []uint64{1, 2}, f(1), gets(2))
			}
		}
	}
	return
}

func pick(w *vlib.W, q, t int) int {
	if w.Thorough {
		return t
	}
	return q
}

func c02(w *vlib.W) {
	slotReads(w)
	bursts(w)
	duels(w, "gu")
	crowds(w, "readers", "readers of two")
	apart(w, gets(3, 3), ups(3), cat(ups(3), gets(3)))
	var ps []*prog
	add := func(name string, l int, pre []uint64, th ...[]op) {
		ps = append(ps, &prog{name: fmt.Sprintf("%s/l%d", name, l), l: l, recLen: rl, pre: pre, threads: th})
	}
	for _, l := range []int{1, 2, 12} {
		add("read-old", l, []uint64{3}, ups(3), gets(3))
		add("read-new", l, nil, ups(3), gets(3))
		add("read-twice", l, nil, ups(3, 3), gets(3, 3))
	}
	add("read-twice-old", 3, []uint64{2, 2}, ups(2, 2), gets(2, 2))
	add("neighbour-writes", 3, []uint64{1, 2}, ups(1), gets(2))
	add("neighbour-writes-low", 3, []uint64{1, 2}, ups(2), gets(1))
	add("neighbours-swap", 3, []uint64{1, 2}, cat(ups(1), gets(2)), cat(ups(2), gets(1)))
	add("two-writers", 2, []uint64{3}, ups(3), ups(3), gets(3, 3))
	add("two-writers-new", 2, nil, ups(3), ups(3), gets(3))
	add("two-readers", 2, []uint64{3}, ups(3), gets(3), gets(3))
	add("two-readers-two-keys", 12, []uint64{5, 17}, ups(17), gets(5), gets(17))
	add("colliding", 12, []uint64{5}, ups(17), gets(5, 17))
	add("colliding-both-new", 2, nil, ups(1), ups(3), gets(1, 3))
	add("absent-key", 2, []uint64{1}, ups(1), gets(3, 3))
	add("read-own", 2, nil, cat(ups(3), gets(3), ups(3), gets(3)), ups(3))
	add("failing-writer", 2, []uint64{3}, []op{{kind: 'e', key: 3, n: 1}}, gets(3, 3))
	add("failing-writer-new", 2, nil, []op{{kind: 'e', key: 3, n: 1}}, gets(3), ups(3))
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 3, 5)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("gu", recSizes)), Bound: pick(w, 2, 3)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("gu", largeSizes)), Bound: pick(w, 1, 2)}).Run(w)
	ps = nil
	add("four-two-two", 2, []uint64{3}, ups(3), ups(3), gets(3), gets(3))
	add("four-two-two-new", 2, nil, ups(3), ups(3), gets(3), gets(3))
	add("four-three-writers", 2, nil, ups(3), ups(3), ups(3), gets(3, 3))
	add("four-three-readers", 2, []uint64{3}, ups(3, 3), gets(3), gets(3), gets(3))
	add("four-neighbours", 3, []uint64{1, 2}, ups(1), ups(2), gets(1), gets(2))
	add("four-colliding", 12, nil, ups(5), ups(17), gets(5, 17), gets(17, 5))
	add("four-failing", 2, []uint64{3}, []op{{kind: 'e', key: 3, n: 1}}, ups(3), gets(3), gets(3))
	add("four-panicking", 2, nil, []op{{kind: 'p', key: 3, n: 1}}, ups(3), ups(3), gets(3, 3))
	add("five", 2, nil, ups(3), ups(3), gets(3), gets(3), []op{{kind: 'e', key: 3, n: 1}})
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 1, 2)}).Run(w)
}

func c04(w *vlib.W) {
	lives(w, 2, 3, 17)
	faultSeqs(w)
	duels(w, "geuene")
	crowds(w, "failing", "failing old", "all failing")
	apart(w, []op{{kind: 'e', key: 3, n: 1}}, []op{{kind: 'p', key: 3, n: 1}}, ups(3), gets(3, 3))
	var ps []*prog
	add := func(name string, l int, pre []uint64, th ...[]op) {
		ps = append(ps, &prog{name: fmt.Sprintf("%s/l%d", name, l), l: l, recLen: rl, pre: pre, threads: th})
	}
	for _, kind := range []byte{'e', 'p'} {
		n := string(kind)
		f := func(k uint64) []op { return []op{{kind: kind, key: k, n: 1}} }
		for _, l := range []int{1, 2} {
			add(n+"-vs-update-new", l, nil, f(3), ups(3))
			add(n+"-vs-update-old", l, []uint64{3}, f(3), ups(3))
			add(n+"-vs-read-new", l, nil, f(3), gets(3, 3))
			add(n+"-vs-read-old", l, []uint64{3}, f(3), gets(3, 3))
		}
		add(n+"-then-update", 2, nil, cat(f(3), ups(3)), gets(3, 3))
		add(n+"-then-updates", 12, []uint64{5}, cat(f(17), ups(17)), cat(ups(17), gets(17)))
		add(n+"-both", 2, nil, f(3), f(3), ups(3))
		add(n+"-colliding", 12, nil, f(5), ups(17), gets(5, 17))
		add(n+"-neighbour", 3, []uint64{1, 2}, f(1), gets(2), ups(2))
		add(n+"-three", 2, nil, f(3), ups(3), gets(3))
	}
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 3, 4)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("e", recSizes)), Bound: pick(w, 2, 3)}).Run(w)
	(&vlib.Sched{Scenarios: scenarios(sized("e", largeSizes)), Bound: pick(w, 1, 2)}).Run(w)
	ps = nil
	for _, kind := range []byte{'e', 'p'} {
		n := string(kind)
		f := func(k uint64) []op { return []op{{kind: kind, key: k, n: 1}} }
		add(n+"-four", 2, nil, f(3), ups(3), ups(3), gets(3, 3))
		add(n+"-four-both", 2, []uint64{3}, f(3), f(3), ups(3), gets(3))
		add(n+"-four-all", 2, nil, f(3), f(3), f(3), ups(3))
		add(n+"-four-colliding", 12, nil, f(5), ups(17), ups(5), gets(5, 17))
		add(n+"-four-neighbours", 3, []uint64{1, 2}, f(1), f(2), ups(1), gets(2, 1))
	}
	add("ep-four", 2, nil, []op{{kind: 'e', key: 3, n: 1}}, []op{{kind: 'p', key: 3, n: 1}}, ups(3), gets(3, 3))
	(&vlib.Sched{Scenarios: scenarios(ps), Bound: pick(w, 1, 2)}).Run(w)
	seqlockFaults(w)
}
