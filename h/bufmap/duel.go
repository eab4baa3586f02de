package main

import (
	"encoding/binary"
	"fmt"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// duels: one operation against a long series of operations of another thread,
// in every alternation of turns (see vlib.Duel).
func duels(w *vlib.W, kinds string) {
	const k, k2 = 3, 5 // share a slot of a table of 2
	// mk makes the duel of operation a ('g' read, 'u' update, 'n' update of another key)
	// against count operations b ('u' update, 'e' failing update), each without points when atomic
	mk := func(a, b byte, old bool, count int, atomic bool) *vsched.Scenario {
		return &vsched.Scenario{Name: fmt.Sprintf("%c-vs-%c old=%v x%d atomic=%v", a, b, old, count, atomic), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			m := bufmap.New(2, 12)
			var problem error
			set := func(err error) {
				if problem == nil {
					problem = err
				}
			}
			done, started := map[uint64]uint32{}, map[uint64]uint32{}
			inits := map[uint64]int{}
			ver := func(d []byte) uint32 { return binary.LittleEndian.Uint32(d) }
			whole := func(d []byte) bool { return ver(d) == ver(d[4:]) && ver(d) == ver(d[8:]) }
			update := func(key uint64) {
				vsched.OpStart()
				started[key]++
				err := m.Update(key, func(d []byte, init bool) error {
					if !whole(d) {
						set(fmt.Errorf("an update of key %d was given a torn record %v", key, d))
					}
					if init != (ver(d) == 0) {
						set(fmt.Errorf("an update of key %d was told init=%v on version %d", key, init, ver(d)))
					}
					if init {
						inits[key]++
					}
					v := ver(d) + 1
					vsched.P()
					binary.LittleEndian.PutUint32(d, v)
					vsched.P()
					put12(d, v)
					return nil
				})
				if err != nil {
					set(fmt.Errorf("update of key %d: %v", key, err))
				}
				done[key]++
			}
			fail := func(key uint64) {
				vsched.OpStart()
				err := m.Update(key, func(d []byte, init bool) error {
					if !whole(d) || init != (ver(d) == 0) {
						set(fmt.Errorf("a failing update of key %d: init=%v on record %v", key, init, d))
					}
					put12(d, 1<<30)
					vsched.P()
					return errFn
				})
				if err != errFn {
					set(fmt.Errorf("failing update of key %d: %v", key, err))
				}
			}
			read := func(key uint64) {
				vsched.OpStart()
				d := make([]byte, 12)
				lo := done[key]
				ok := m.Get(key, d)
				hi := started[key]
				switch {
				case !ok && lo > 0:
					set(fmt.Errorf("key %d not found after %d updates", key, lo))
				case ok && !whole(d):
					set(fmt.Errorf("a read of key %d returned a torn record %v", key, d))
				case ok && (ver(d) < lo || ver(d) > hi || ver(d) == 0):
					set(fmt.Errorf("a read of key %d returned version %d, %d had completed and %d had started", key, ver(d), lo, hi))
				}
			}
			if old {
				vsched.Run([]func(){func() { update(k) }}, nil, 10000)
			}
			one := func() {
				switch a {
				case 'g':
					read(k)
				case 'u':
					update(k)
				case 'n':
					update(k2)
				}
			}
			bodies := []func(){one, func() {
				f := func() { update(k) }
				if b == 'e' {
					f = func() { fail(k) }
				}
				for i := 0; i < count; i++ {
					if atomic {
						vsched.Atomic(f)
						vsched.P()
					} else {
						f()
					}
				}
			}}
			return bodies, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				for _, key := range []uint64{k, k2} {
					if problem != nil {
						return "", problem
					}
					d := make([]byte, 12)
					ok := m.Get(key, d)
					if ok != (done[key] > 0) || ok && (ver(d) != done[key] || !whole(d)) {
						return "", fmt.Errorf("after %d updates of key %d it reads found=%v %v", done[key], key, ok, d)
					}
					if done[key] > 0 && inits[key] != 1 {
						return "", fmt.Errorf("%d updates of key %d were told that it is new", inits[key], key)
					}
				}
				return "", nil
			}
		}}
	}
	var fine, coarse []*vsched.Scenario
	long := pick(w, 3000, 20000)
	for i := 0; i < len(kinds); i += 2 {
		for _, old := range []bool{false, true} {
			fine = append(fine, mk(kinds[i], kinds[i+1], old, 6, false))
			coarse = append(coarse, mk(kinds[i], kinds[i+1], old, long, true))
		}
	}
	var bursts []*vsched.Scenario
	for i := 0; i < len(kinds); i += 2 {
		for _, n := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536} {
			bursts = append(bursts, mk(kinds[i], kinds[i+1], true, n, true))
		}
		bursts = append(bursts, mk(kinds[i], kinds[i+1], false, 65536, true))
	}
	(&vlib.Burst{Scenarios: bursts, Points: pick(w, 24, 40)}).Run(w)
	(&vlib.Duel{Scenarios: fine, Q: pick(w, 30, 50), P: pick(w, 60, 120), Horizon: 100000}).Run(w)
	(&vlib.Duel{Scenarios: coarse, Q: pick(w, 12, 30), P: 1, Horizon: 10000000}).Run(w)
}

func put12(d []byte, v uint32) {
	for i := 0; i < 12; i += 4 {
		binary.LittleEndian.PutUint32(d[i:], v)
	}
}
