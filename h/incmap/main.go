// Harness for the counter map (C05).
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

type op struct {
	inc bool
	key uint64
}

type prog struct {
	name    string
	l       int
	pre     []uint64
	threads [][]op
}

type event struct {
	op       op
	bit      uint64 // amount of an increment: a power of two of its own
	inv, res int
	ok       bool
	val      uint64
	done     bool
}

func doOp(m *incmap.Map, ev *event) {
	vsched.OpStart()
	ev.inv = vsched.Stamp()
	if ev.op.inc {
		ev.ok = m.Inc(ev.op.key, ev.bit)
	} else {
		ev.val, ev.ok = m.Get(ev.op.key)
	}
	ev.res = vsched.Stamp()
	ev.done = true
}

func (p *prog) scenario() *vsched.Scenario {
	return &vsched.Scenario{Name: p.name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
		m := incmap.New(p.l)
		var events []*event
		bit := uint64(1)
		mk := func(o op) *event {
			e := &event{op: o}
			if o.inc {
				e.bit = bit
				bit <<= 1
			}
			events = append(events, e)
			return e
		}
		for _, k := range p.pre {
			e := mk(op{true, k})
			vsched.Run([]func(){func() { doOp(m, e) }}, nil, 10000)
			e.inv, e.res = -2, -1
		}
		var bodies []func()
		for _, th := range p.threads {
			var evs []*event
			for _, o := range th {
				evs = append(evs, mk(o))
			}
			bodies = append(bodies, func() {
				for _, e := range evs {
					doOp(m, e)
				}
			})
		}
		return bodies, func(r *vsched.Result) (string, error) {
			if len(r.Panics) > 0 {
				return "", fmt.Errorf("panic: %s\n%s", r.Panics[0], r.Stacks[0])
			}
			return p.judge(m, events)
		}
	}}
}

func (p *prog) judge(m *incmap.Map, events []*event) (string, error) {
	keys := map[uint64]bool{}
	for _, e := range events {
		keys[e.op.key] = true
		if !e.done {
			return "", fmt.Errorf("an operation did not finish")
		}
	}
	var order []uint64
	for k := range keys {
		order = append(order, k)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	var out strings.Builder
	span := 11
	if p.l < span {
		span = p.l
	}
	for _, k := range order {
		fin := &event{op: op{false, k}}
		vsched.Run([]func(){func() { doOp(m, fin) }}, nil, 10000)
		fin.inv, fin.res = 1<<30, 1<<30+1
		var accepted uint64
		var reads []*event
		for _, e := range events {
			if e.op.key != k {
				continue
			}
			if !e.op.inc {
				reads = append(reads, e)
				continue
			}
			if e.ok {
				accepted |= e.bit
				continue
			}
			if k == 0 {
				continue
			}
			// refused: its slots must be taken by other keys
			others := map[uint64]bool{}
			for _, o := range events {
				if o.op.inc && o.op.key != k && o.op.key != 0 && o.inv < e.res {
					for i := 0; i < span; i++ {
						x := int((o.op.key%uint64(p.l) + uint64(i)) % uint64(p.l))
						if (x-int(k%uint64(p.l))+p.l)%p.l < span {
							others[o.op.key] = true
						}
					}
				}
				if o.op.inc && o.op.key == k && o.ok && o.res < e.inv {
					return "", fmt.Errorf("increment of stored key %d refused", k)
				}
			}
			if len(others) < span {
				return "", fmt.Errorf("increment of key %d refused though at most %d of its %d slots are taken", k, len(others), span)
			}
		}
		if k == 0 && accepted != 0 {
			return "", fmt.Errorf("key 0 was accepted")
		}
		if fin.ok != (accepted != 0) || fin.val != accepted {
			return "", fmt.Errorf("key %d: increments worth %d were accepted, the final read says found=%v %d", k, accepted, fin.ok, fin.val)
		}
		reads = append(reads, fin)
		for _, r := range reads {
			var must, may uint64
			for _, e := range events {
				if e.op.inc && e.op.key == k && e.ok {
					if e.res < r.inv {
						must |= e.bit
					}
					if e.inv < r.res {
						may |= e.bit
					}
				}
			}
			if !r.ok {
				if must != 0 {
					return "", fmt.Errorf("key %d not found though increments worth %d had completed", k, must)
				}
				if r.val != 0 {
					return "", fmt.Errorf("key %d not found but value %d", k, r.val)
				}
				continue
			}
			if may == 0 {
				return "", fmt.Errorf("key %d found though it was not incremented", k)
			}
			if r.val&must != must || r.val&^may != 0 {
				return "", fmt.Errorf("a read of key %d returned %d, but %d had completed and %d had started", k, r.val, must, may)
			}
		}
		for _, a := range reads {
			for _, b := range reads {
				if a.res < b.inv && (a.val&^b.val != 0 || a.ok && !b.ok) {
					return "", fmt.Errorf("reads of key %d went from %d to %d", k, a.val, b.val)
				}
			}
		}
		fmt.Fprintf(&out, "k%d=%d", k, fin.val)
		for _, r := range reads {
			if r != fin {
				fmt.Fprintf(&out, "r%v%d", r.ok, r.val)
			}
		}
		out.WriteByte(' ')
	}
	return out.String(), nil
}

func incs(ks ...uint64) (o []op) {
	for _, k := range ks {
		o = append(o, op{true, k})
	}
	return
}

func gets(ks ...uint64) (o []op) {
	for _, k := range ks {
		o = append(o, op{false, k})
	}
	return
}

func cat(a ...[]op) (o []op) {
	for _, x := range a {
		o = append(o, x...)
	}
	return
}

func main() {
	vlib.Main(func(w *vlib.W) {
		vsched.Sequential = true
		life(w)
		sequential(w)
		duels(w)
		crowds(w)
		apart(w)
		var ps []*prog
		add := func(name string, l int, pre []uint64, th ...[]op) {
			ps = append(ps, &prog{fmt.Sprintf("%s/l%d", name, l), l, pre, th})
		}
		for _, l := range []int{1, 2, 12} {
			add("same-new", l, nil, incs(3), incs(3))
			add("same-new-read", l, nil, incs(3), incs(3), gets(3, 3))
			add("same-old", l, []uint64{3}, incs(3, 3), incs(3, 3))
			add("same-old-read", l, []uint64{3}, incs(3), incs(3), gets(3, 3))
		}
		add("compete", 1, nil, incs(1), incs(2))
		add("compete-read", 1, nil, cat(incs(1), gets(1, 2)), cat(incs(2), gets(1, 2)))
		add("colliding", 2, nil, incs(1), incs(3), gets(1, 3))
		add("colliding", 12, nil, incs(5), incs(17), gets(5, 17))
		add("colliding-wrap", 12, nil, incs(11, 11), incs(23, 23))
		add("crossing", 4, nil, incs(5, 9), incs(9, 5))
		add("crossing-read", 4, nil, incs(5, 9), incs(9, 5), gets(9, 5))
		add("three-same", 2, nil, incs(3), incs(3), incs(3))
		add("three-two-keys", 12, nil, incs(5), incs(5), incs(17))
		add("three-keys-two-slots", 2, nil, incs(1), incs(3), incs(5))
		add("three-keys-two-slots-again", 2, nil, incs(1, 3), incs(3, 5), incs(5, 1))
		add("three-keys", 3, nil, incs(1), incs(4), incs(7))
		add("last-slot", 2, []uint64{1}, incs(2, 2), incs(3, 3), gets(2, 3))
		add("zero", 2, nil, incs(0, 1), gets(0, 1))
		add("behind", 12, nil, incs(5, 17), incs(17, 17), incs(29))
		add("neighbours", 3, []uint64{1, 2}, incs(1, 2), incs(2, 1), gets(1, 2))
		add("absent", 2, []uint64{1}, incs(1), gets(3, 1))
		b := 3
		if w.Thorough {
			b = 5
		}
		(&vlib.Sched{Scenarios: scenarios(ps), Bound: b}).Run(w)
		ps = nil
		add("four-same", 2, nil, incs(3), incs(3), incs(3), incs(3))
		add("four-same-old", 2, []uint64{3}, incs(3), incs(3), incs(3), gets(3, 3))
		add("four-pairs", 12, nil, incs(5), incs(5), incs(17), incs(17))
		add("four-pairs-again", 12, nil, incs(5, 17), incs(17, 5), incs(5, 17), incs(17, 5))
		add("four-keys-three-slots", 3, nil, incs(1, 4), incs(4, 7), incs(7, 10), incs(10, 1))
		add("four-keys", 4, nil, incs(1), incs(5), incs(9), incs(13))
		add("four-crossing", 4, nil, incs(5, 9), incs(9, 5), incs(13, 5), gets(5, 13))
		add("four-behind", 12, nil, incs(29), incs(17), incs(17), incs(5, 17))
		add("four-last-slot", 2, []uint64{1}, incs(2), incs(3), incs(2), incs(3))
		add("five-same", 2, nil, incs(3), incs(3), incs(3), incs(3), gets(3, 3))
		add("six", 3, nil, incs(1), incs(1), incs(4), incs(4), incs(7), incs(7))
		b = 2
		if w.Thorough {
			b = 3
		}
		(&vlib.Sched{Scenarios: scenarios(ps), Bound: b}).Run(w)
	})
}

func scenarios(ps []*prog) (s []*vsched.Scenario) {
	for _, p := range ps {
		s = append(s, p.scenario())
	}
	return
}

// model is the reference: a map of totals, new keys taking the first free slot
// of the eleven (or l) starting at their home slot.
type model struct {
	l    int
	slot []uint64
	lax  bool
	tot  map[uint64]uint64
	has  map[uint64]bool
}

func (b *model) free(k uint64) int {
	for i := 0; i < b.l && i < 11; i++ {
		x := int((k%uint64(b.l) + uint64(i)) % uint64(b.l))
		if b.slot[x] == 0 {
			return x
		}
	}
	return -1
}

func (b *model) inc(m *incmap.Map, k, d uint64) error {
	ok := m.Inc(k, d)
	switch {
	case k == 0:
		if ok {
			return fmt.Errorf("increment of key 0 accepted")
		}
	case ok:
		if !b.has[k] {
			if x := b.free(k); x >= 0 {
				b.slot[x] = k
			} else {
				b.lax = true
			}
			b.has[k] = true
		}
		b.tot[k] += d
	default:
		if b.has[k] {
			return fmt.Errorf("increment of stored key %d refused", k)
		}
		if x := b.free(k); x >= 0 && !b.lax {
			return fmt.Errorf("new key %d refused though slot %d of its range is free; slots %v", k, x, b.slot)
		}
	}
	return nil
}

func (b *model) check(m *incmap.Map, k uint64) error {
	v, ok := m.Get(k)
	if ok != b.has[k] || v != b.tot[k] {
		return fmt.Errorf("key %d reads found=%v %d, want found=%v %d", k, ok, v, b.has[k], b.tot[k])
	}
	return nil
}

func dedup(a []uint64) []uint64 {
	a = append([]uint64(nil), a...)
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	out := a[:0]
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			out = append(out, v)
		}
	}
	return out
}

func sequential(w *vlib.W) {
	amounts := []uint64{1, 3, 1 << 40, 0, math.MaxUint64, 7, 1 << 63, 255, 1 << 32}
	run := func(l int, ks, probe []uint64, every bool) error {
		m := incmap.New(l)
		b := &model{l: l, slot: make([]uint64, l), tot: map[uint64]uint64{}, has: map[uint64]bool{}}
		for i, k := range ks {
			if err := b.inc(m, k, amounts[i%len(amounts)]); err != nil {
				return fmt.Errorf("l=%d increments %v step %d: %v", l, ks, i, err)
			}
			if every || i == len(ks)-1 {
				for _, q := range probe {
					if err := b.check(m, q); err != nil {
						return fmt.Errorf("l=%d increments %v after step %d: %v", l, ks, i, err)
					}
				}
			}
		}
		w.Eval(1)
		if len(ks) > 1 {
			w.NT(1)
		}
		w.Tick()
		return nil
	}
	x := 0
	if w.Thorough {
		x = 1
	}
	for _, c := range []struct {
		l     int
		keys  []uint64
		depth int
	}{
		{1, []uint64{0, 1, 2, 3}, 6 + x},
		{2, []uint64{0, 1, 2, 3, 4}, 6 + x},
		{3, []uint64{0, 1, 2, 4, 5, 9}, 5 + x},
		{4, []uint64{0, 3, 4, 7, 8, 11}, 5 + x},
		{11, []uint64{0, 10, 21, 32, 11, 22, 1}, 5 + x},
		{12, []uint64{0, 11, 23, 35, 12, 24, 1}, 5 + x},
		{13, []uint64{0, 12, 25, 38, 13, 1, 2}, 5 + x},
	} {
		for a := range c.keys {
			for b := range c.keys {
				c, a, b := c, a, b
				w.Case(fmt.Sprintf("seq l=%d first=%d second=%d", c.l, c.keys[a], c.keys[b]), func() error {
					var bad error
					vlib.Seqs(len(c.keys), c.depth-2, func(sq []int) {
						if bad != nil {
							return
						}
						ks := []uint64{c.keys[a], c.keys[b]}
						for _, i := range sq {
							ks = append(ks, c.keys[i])
						}
						bad = run(c.l, ks, append([]uint64{0, 99}, c.keys...), true)
					})
					return bad
				})
			}
		}
	}
	for _, l := range []int{1, 2, 3, 5, 8, 10, 11, 12, 13, 14, 16, 22, 23, 64} {
		for base := 0; base < l; base++ {
			if l > 16 && base > 2 && base < l-3 {
				continue
			}
			for mask := 0; mask < 32; mask++ {
				l, base, mask := l, base, mask
				w.Case(fmt.Sprintf("fill l=%d base=%d mask=%d", l, base, mask), func() error {
					var ks []uint64
					for bit, d := range []int{1, 3, 10, 11, l - 1} {
						if mask>>uint(bit)&1 == 1 {
							ks = append(ks, uint64(l*(100+bit)+(base+d)%l))
						}
					}
					for j := 1; j <= 14; j++ {
						ks = append(ks, uint64(l*j+base))
					}
					ks = append(ks, ks...)
					for d := 0; d < l && d < 14; d++ {
						ks = append(ks, uint64(l*50+d))
					}
					return run(l, ks, dedup(append(append([]uint64{0}, ks...), uint64(l*77+base))), len(ks) < 45)
				})
			}
		}
	}
	extremes := []uint64{1, 2, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
	for _, l := range []int{1, 2, 3, 5, 11, 12, 16, 17, 100, 5000} {
		l := l
		w.Case(fmt.Sprintf("extreme l=%d", l), func() error {
			for i := range extremes {
				for j := range extremes {
					ks := append([]uint64{extremes[i], extremes[j], extremes[i]}, extremes...)
					if err := run(l, ks, dedup(append([]uint64{0}, extremes...)), false); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// keys around the ends of integer types whose probe range has one free slot, or none
	for l := 1; l <= 24; l++ {
		for _, at := range []uint64{1 << 31, 1 << 32, 1 << 53, 1 << 63, 0} {
			l, at := l, at
			w.Case(fmt.Sprintf("boundary l=%d at=%d", l, at), func() error {
				span := l
				if span > 11 {
					span = 11
				}
				for d := -12; d <= 12; d++ {
					k := at + uint64(d)
					if k == 0 {
						continue
					}
					for free := -1; free < span; free++ {
						var ks []uint64
						for i := 0; i < span; i++ {
							if i != free {
								ks = append(ks, uint64(l)*1000+(k%uint64(l)+uint64(i))%uint64(l))
							}
						}
						ks = append(ks, k, k+uint64(l), k)
						ks = append(ks, ks...)
						if err := run(l, ks, dedup(append([]uint64{0, k - uint64(l), at + 13}, ks...)), false); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	for _, l := range []int{1, 2, 7, 10, 11, 12, 16, 100, 255, 256, 257, 1000, 4096, 5000} {
		l := l
		w.Case(fmt.Sprintf("full l=%d", l), func() error {
			var ks []uint64
			for i := 0; i < l; i++ {
				ks = append(ks, uint64(i+1))
			}
			ks = append(ks, uint64(l+1), 1, uint64(l))
			return run(l, ks, dedup(append(append([]uint64{0}, ks...), uint64(3*l))), false)
		})
	}
	ns := []int{1, 16, 100, 127, 128, 255, 256, 257, 1000, 4096, 10001, 32768, 65535, 65536, 65537, 100001, 300001}
	if w.Thorough {
		ns = append(ns, 1000001, 1<<24+1)
	}
	for _, l := range []int{1, 2, 11, 12, 24, 64} {
		for _, n := range ns {
			for _, how := range []string{"refused key", "refused keys", "reads", "reads of absent"} {
				l, n, how := l, n, how
				w.Case(fmt.Sprintf("%d times %s l=%d", n, how, l), func() error {
					m, ul := incmap.New(l), uint64(l)
					b := &model{l: l, slot: make([]uint64, l), tot: map[uint64]uint64{}, has: map[uint64]bool{}}
					for i := 0; i < l && i < 11; i++ {
						if err := b.inc(m, ul+uint64(i), 5); err != nil {
							return err
						}
						if how[0] == 'r' && how[2] == 'a' {
							break
						}
					}
					for i := 0; i < n; i++ {
						var err error
						switch how {
						case "refused key":
							err = b.inc(m, ul*2, 1)
						case "refused keys":
							err = b.inc(m, ul*uint64(2+i), 1)
						case "reads":
							err = b.check(m, ul)
						default:
							err = b.check(m, ul*3)
						}
						if err != nil {
							return fmt.Errorf("after %d times: %v", i, err)
						}
					}
					w.Eval(1)
					w.Tick()
					for i := uint64(0); i < 2*ul; i++ {
						if err := b.inc(m, ul+i, 1); err != nil {
							return fmt.Errorf("%d times %s: %v", n, how, err)
						}
					}
					for i := uint64(0); i < 3*ul; i++ {
						if err := b.check(m, ul+i); err != nil {
							return fmt.Errorf("%d times %s: %v", n, how, err)
						}
					}
					return nil
				})
			}
		}
	}
	w.Case("many increments", func() error {
		m := incmap.New(2)
		var t uint64
		for i := uint64(0); i < 200000; i++ {
			if !m.Inc(3, i) {
				return fmt.Errorf("refused")
			}
			t += i
			if v, ok := m.Get(3); !ok || v != t {
				return fmt.Errorf("after %d increments %d, want %d", i+1, v, t)
			}
		}
		w.Eval(200000)
		return nil
	})
}

// crowds: many threads under way at the same time (see vlib.Crowd).
func crowds(w *vlib.W) {
	var sc []*vsched.Scenario
	sizes := []int{3, 4, 5, 6, 9, 17, 30}
	if w.Thorough {
		sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 30}
	}
	for _, n := range sizes {
		for _, kind := range []string{"one new", "one old", "two keys", "own keys", "readers"} {
			p := &prog{name: fmt.Sprintf("%s of %d", kind, n), l: 12}
			for i := 0; i < n; i++ {
				var o []op
				switch kind {
				case "one new":
					o = incs(5, 5)
				case "one old":
					p.pre = []uint64{5}
					o = incs(5, 5)
				case "two keys":
					o = incs([]uint64{5, 17}[i%2], []uint64{5, 17}[1-i%2])
				case "own keys":
					p.l = 4
					o = incs(uint64(i*4+1), 1)
				case "readers":
					if i%2 == 0 {
						o = incs(5, 17)
					} else {
						o = gets(5, 17)
					}
				}
				p.threads = append(p.threads, o)
			}
			sc = append(sc, p.scenario())
		}
	}
	rest := []int{0, 1, 2}
	if w.Thorough {
		rest = []int{0, 1, 2, 3, 4, 5, 7, 9, 11, 13}
	}
	(&vlib.Crowd{Scenarios: sc, Rest: rest}).Run(w)
}

// apart: programs on separate maps, of equal and of different sizes.
func apart(w *vlib.W) {
	ths := [][]op{incs(3), incs(3, 3), gets(3, 3), cat(incs(3), gets(3))}
	var sc, three []*vsched.Scenario
	mk := func(l int, pre []uint64, th ...[]op) *vsched.Scenario {
		return (&prog{fmt.Sprintf("%d %v %v", l, pre, th), l, pre, th}).scenario()
	}
	for i, a := range ths {
		for j, b := range ths {
			if j < i {
				continue
			}
			for _, pre := range [][]uint64{nil, {3}} {
				for _, l := range [][2]int{{2, 2}, {1, 12}} {
					sc = append(sc, vsched.Together(mk(l[0], pre, a), mk(l[1], pre, b)))
				}
				three = append(three, vsched.Together(mk(2, pre, a), mk(2, pre, b), mk(3, nil, a)), vsched.Together(mk(2, pre, a, b), mk(2, pre, b)))
			}
		}
	}
	b, b3 := 2, 1
	if w.Thorough {
		b, b3 = 4, 2
	}
	(&vlib.Sched{Scenarios: sc, Bound: b}).Run(w)
	(&vlib.Sched{Scenarios: three, Bound: b3}).Run(w)
}
