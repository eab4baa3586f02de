// Harness for the sequence-locked cell (C06).
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// An operation: P put, U update, E failing update, G get.
type prog struct {
	name    string
	pre     string
	threads []string
}

type event struct {
	kind     byte
	id       int
	inv, res int
	val      string // what a read returned or an update function was given
	err      error
	done     bool
}

var errFn = errors.New("verif: update function failed")

// A state is a list of ids; encode spreads it over all 1024 bytes.
func encode(log string) (v [1024]byte) {
	if log == "" {
		return
	}
	for i := range v {
		v[i] = log[i%len(log)] + byte(len(log))*16
	}
	copy(v[:], log)
	v[1023] = byte(len(log))
	return
}

func decode(v *[1024]byte) (string, error) {
	n := int(v[1023])
	if n < 16 {
		log := string(v[:n])
		if encode(log) == *v {
			return log, nil
		}
	}
	return "", fmt.Errorf("torn value: starts % x, middle % x, ends % x", v[:6], v[510:514], v[1018:])
}

func step(log string, id int) string {
	if len(log) > 8 {
		log = log[:8]
	}
	return log + string(rune('a'+id-1))
}

func doOp(s *seqlock.Seqlock, e *event) {
	vsched.OpStart()
	e.inv = vsched.Stamp()
	var bad error
	switch e.kind {
	case 'P':
		s.Put(encode(step("", e.id)))
	case 'G':
		v := s.Get()
		e.val, bad = decode(&v)
	case 'U', 'E':
		e.err = s.Update(func(d []byte) error {
			if len(d) != 1024 {
				bad = fmt.Errorf("update function got %d bytes", len(d))
				return nil
			}
			var v [1024]byte
			copy(v[:], d)
			e.val, bad = decode(&v)
			if bad != nil {
				return nil
			}
			nv := encode(step(e.val, e.id))
			vsched.P()
			copy(d[:600], nv[:600])
			vsched.P()
			copy(d[600:], nv[600:])
			vsched.P()
			if e.kind == 'E' {
				return errFn
			}
			return nil
		})
		if e.kind == 'U' && e.err != nil || e.kind == 'E' && e.err != errFn {
			panic(fmt.Sprintf("update %c returned %v", e.kind, e.err))
		}
	}
	if bad != nil {
		panic(fmt.Sprintf("operation %c%d: %v", e.kind, e.id, bad))
	}
	e.res = vsched.Stamp()
	e.done = true
}

// linearizable searches an order of the events that respects real time and
// explains every value seen.
func linearizable(ev []*event, used int, state string) bool {
	if used == 1<<uint(len(ev))-1 {
		return true
	}
	for i, e := range ev {
		if used>>uint(i)&1 == 1 {
			continue
		}
		ok := true
		for j, o := range ev {
			if used>>uint(j)&1 == 0 && j != i && o.res < e.inv {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		next := state
		switch e.kind {
		case 'P':
			next = step("", e.id)
		case 'G':
			if e.val != state {
				continue
			}
		case 'E':
			if e.val != state {
				continue
			}
		case 'U':
			if e.val != state {
				continue
			}
			next = step(state, e.id)
		}
		if linearizable(ev, used|1<<uint(i), next) {
			return true
		}
	}
	return false
}

func (p *prog) scenario() *vsched.Scenario {
	return &vsched.Scenario{Name: p.name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
		s := seqlock.New()
		var events []*event
		id := 0
		mk := func(k byte) *event {
			id++
			e := &event{kind: k, id: id}
			events = append(events, e)
			return e
		}
		for i := range p.pre {
			e := mk(p.pre[i])
			vsched.Run([]func(){func() { doOp(s, e) }}, nil, 100000)
			e.inv, e.res = -100+2*i, -99+2*i
		}
		var bodies []func()
		for _, th := range p.threads {
			var evs []*event
			for i := range th {
				evs = append(evs, mk(th[i]))
			}
			bodies = append(bodies, func() {
				for _, e := range evs {
					doOp(s, e)
				}
			})
		}
		return bodies, func(r *vsched.Result) (string, error) {
			if len(r.Panics) > 0 {
				return "", fmt.Errorf("%s", r.Panics[0])
			}
			fin := &event{kind: 'G', id: id + 1}
			rr := vsched.Run([]func(){func() { doOp(s, fin) }}, nil, 20000)
			if rr.Abort != "" || len(rr.Panics) > 0 {
				return "", fmt.Errorf("a read after all operations ended: %s %s", rr.Abort, strings.Join(rr.Panics, " "))
			}
			fin.inv, fin.res = 1<<30, 1<<30+1
			all := append(events, fin)
			var out strings.Builder
			for _, e := range all {
				if !e.done {
					return "", fmt.Errorf("an operation did not finish")
				}
				fmt.Fprintf(&out, "%c%d:%s ", e.kind, e.id, e.val)
			}
			if !linearizable(all, 0, "") {
				var h strings.Builder
				for _, e := range all {
					fmt.Fprintf(&h, "%c%d[%d,%d]saw=%q ", e.kind, e.id, e.inv, e.res, e.val)
				}
				return "", fmt.Errorf("no order of the operations explains what they saw: %s", h.String())
			}
			return out.String(), nil
		}
	}}
}

func main() {
	vlib.Main(func(w *vlib.W) {
		vsched.Sequential = true
		life(w)
		bursts(w)
		sequences(w)
		duels(w)
		crowds(w)
		apart(w)
		ps := []*prog{
			{"put-get", "", []string{"P", "G"}},
			{"put-get-get", "", []string{"P", "GG"}},
			{"put-put-get", "", []string{"P", "P", "GG"}},
			{"old-put-get", "P", []string{"P", "G"}},
			{"update-get", "P", []string{"U", "GG"}},
			{"update-update", "", []string{"U", "U"}},
			{"update-update-old", "P", []string{"UU", "UU"}},
			{"update-update-update", "", []string{"U", "U", "U"}},
			{"put-update", "", []string{"P", "U"}},
			{"put-update-get", "P", []string{"P", "U", "G"}},
			{"puts-updates", "", []string{"PU", "UP"}},
			{"two-readers", "P", []string{"P", "G", "G"}},
			{"two-readers-update", "P", []string{"U", "GG", "G"}},
			{"fail-get", "P", []string{"E", "GG"}},
			{"fail-update", "", []string{"E", "U"}},
			{"fail-put", "", []string{"EU", "PG"}},
			{"write-read", "", []string{"PG", "PG"}},
			{"update-read", "", []string{"UG", "UG"}},
			{"twice", "", []string{"PP", "GG"}},
		}
		var sc []*vsched.Scenario
		for _, p := range ps {
			sc = append(sc, p.scenario())
		}
		b := 3
		if w.Thorough {
			b = 5
		}
		(&vlib.Sched{Scenarios: sc, Bound: b}).Run(w)
		sc = nil
		for _, p := range []*prog{
			{"four-updates", "", []string{"U", "U", "U", "U"}},
			{"four-two-two", "P", []string{"P", "U", "G", "GG"}},
			{"four-puts", "", []string{"P", "P", "P", "GG"}},
			{"four-fail", "P", []string{"E", "U", "P", "GG"}},
			{"four-mixed", "", []string{"UG", "PG", "GG", "E"}},
			{"five", "", []string{"U", "U", "P", "G", "G"}},
		} {
			sc = append(sc, p.scenario())
		}
		b = 1
		if w.Thorough {
			b = 2
		}
		(&vlib.Sched{Scenarios: sc, Bound: b}).Run(w)
	})
}

// sequences: every single-threaded sequence of operations.
func sequences(w *vlib.W) {
	for first := 0; first < 4; first++ {
		first := first
		w.Case(fmt.Sprintf("sequences first=%d", first), func() error {
			var bad error
			n := 6
			if w.Thorough {
				n = 8
			}
			vlib.SeqsUpTo(4, n-1, func(sq []int) {
				if bad != nil {
					return
				}
				var evs []*event
				s := seqlock.New()
				var names []byte
				for i, o := range append([]int{first}, sq...) {
					evs = append(evs, &event{kind: "PUEG"[o], id: i + 1})
					names = append(names, "PUEG"[o])
				}
				r := vsched.Run([]func(){func() {
					state := ""
					for _, e := range evs {
						doOp(s, e)
						if e.kind != 'P' && e.val != state {
							panic(fmt.Sprintf("sequence %s: operation %d saw %q, want %q", names, e.id, e.val, state))
						}
						switch e.kind {
						case 'P':
							state = step("", e.id)
						case 'U':
							state = step(state, e.id)
						}
						v := s.Get()
						if got, err := decode(&v); err != nil || got != state {
							panic(fmt.Sprintf("sequence %s: after operation %d the cell reads %q, want %q (%v)", names, e.id, got, state, err))
						}
					}
				}}, nil, 100000)
				w.Eval(1)
				w.Tick()
				if r.Abort != "" || len(r.Panics) > 0 {
					bad = fmt.Errorf("sequence %s: %s %s", names, r.Abort, strings.Join(r.Panics, " "))
				}
			})
			return bad
		})
	}
}

// bursts: one read interrupted by many writes.
func bursts(w *vlib.W) {
	for _, n := range []int{1, 2, 127, 128, 32768} {
		for _, how := range []byte("PU") {
			n, how := n, how
			w.Case(fmt.Sprintf("burst %c %d", how, n), func() error {
				sc := &vsched.Scenario{Name: "burst", Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
					s := seqlock.New()
					set := func(b byte) {
						var v [1024]byte
						for i := range v {
							v[i] = b
						}
						if how == 'P' {
							s.Put(v)
						} else {
							s.Update(func(d []byte) error { copy(d, v[:]); return nil })
						}
					}
					vsched.Run([]func(){func() { set(200) }}, nil, 100000)
					var got [1024]byte
					return []func(){
						func() { got = s.Get() },
						func() {
							vsched.Atomic(func() {
								for i := 0; i < n; i++ {
									set(byte(i%199) + 1)
								}
							})
						},
					}, func(r *vsched.Result) (string, error) {
						if len(r.Panics) > 0 {
							return "", fmt.Errorf("panic: %s", r.Panics[0])
						}
						for _, b := range got {
							if b != got[0] {
								return "", fmt.Errorf("a read interrupted by %d writes mixes versions %d and %d", n, got[0], b)
							}
						}
						if got[0] != 200 && got[0] != byte((n-1)%199)+1 {
							return "", fmt.Errorf("a read interrupted by %d writes returned version %d", n, got[0])
						}
						return fmt.Sprint(got[0] == 200), nil
					}
				}}
				st := vsched.ExploreBound(sc, vsched.Config{Bound: 1, MaxViol: 1, Horizon: 100000, Progress: func([]vsched.Dev) { w.Tick() }})
				w.Res.Evals += int64(st.Execs)
				w.Res.Traces += int64(st.Execs)
				w.Res.States += st.Points
				w.Res.Transitions += st.Steps
				if len(st.Violations) > 0 {
					return st.Violations[0].Err
				}
				return nil
			})
		}
	}
}

// crowds: many threads under way at the same time (see vlib.Crowd).
func crowds(w *vlib.W) {
	var sc []*vsched.Scenario
	sizes := []int{3, 4, 5, 6, 9, 17}
	if w.Thorough {
		sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24}
	}
	for _, n := range sizes {
		for _, kind := range []string{"U", "UG", "UE", "UGE", "GP"} {
			p := &prog{name: fmt.Sprintf("%s of %d", kind, n)}
			for i := 0; i < n; i++ {
				p.threads = append(p.threads, kind[i%len(kind):i%len(kind)+1])
			}
			if kind == "GP" && n > 6 {
				continue
			}
			sc = append(sc, p.scenario())
		}
	}
	rest := []int{0, 1, 2}
	if w.Thorough {
		rest = []int{0, 1, 2, 3, 4, 5, 7, 9, 11, 13}
	}
	(&vlib.Crowd{Scenarios: sc, Rest: rest}).Run(w)
}

// apart: programs on separate cells.
func apart(w *vlib.W) {
	ths := []string{"P", "U", "GG", "E", "UG", "PU"}
	var sc, three []*vsched.Scenario
	mk := func(pre string, th ...string) *vsched.Scenario {
		return (&prog{fmt.Sprintf("%s %v", pre, th), pre, th}).scenario()
	}
	for i, a := range ths {
		for j, b := range ths {
			if j < i {
				continue
			}
			for _, pre := range []string{"", "P"} {
				sc = append(sc, vsched.Together(mk(pre, a), mk(pre, b)), vsched.Together(mk("", a), mk("PU", b)))
				three = append(three, vsched.Together(mk(pre, a), mk(pre, b), mk("", a)), vsched.Together(mk(pre, a, b), mk(pre, b)))
			}
		}
	}
	b, b3 := 2, 1
	if w.Thorough {
		b, b3 = 4, 2
	}
	(&vlib.Sched{Scenarios: sc, Bound: b}).Run(w)
	(&vlib.Sched{Scenarios: three, Bound: b3}).Run(w)
}
