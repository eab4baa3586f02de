package main

import (
	"fmt"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// duels: one operation against a long series of increments by another thread,
// in every alternation of turns (see vlib.Duel).
func duels(w *vlib.W) {
	const k, k2, big = 3, 5, 1 << 40
	// a: 'i' increment, 'g' read, 'n' increment of another key; several in a row by n
	mk := func(a byte, n int, old bool, count int, atomic bool) *vsched.Scenario {
		return &vsched.Scenario{Name: fmt.Sprintf("%c%d old=%v x%d atomic=%v", a, n, old, count, atomic), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			m := incmap.New(2)
			var problem error
			set := func(err error) {
				if problem == nil {
					problem = err
				}
			}
			var done, started, other, bigs uint64
			inc := func() {
				vsched.OpStart()
				started++
				if !m.Inc(k, 1) {
					set(fmt.Errorf("increment of key %d refused", k))
				}
				done++
			}
			if old {
				vsched.Run([]func(){inc}, nil, 10000)
			}
			bodies := []func(){func() {
				for i := 0; i < n; i++ {
					vsched.OpStart()
					switch a {
					case 'i':
						if !m.Inc(k, big) {
							set(fmt.Errorf("increment of key %d refused", k))
						}
						bigs++
					case 'n':
						if !m.Inc(k2, big) {
							set(fmt.Errorf("increment of key %d refused", k2))
						}
						other++
					case 'g':
						lo := done
						v, ok := m.Get(k)
						if !ok && lo > 0 || ok && (v < lo || v > started) {
							set(fmt.Errorf("a read returned found=%v %d, %d increments had completed and %d had started", ok, v, lo, started))
						}
					}
				}
			}, func() {
				for i := 0; i < count; i++ {
					if atomic {
						vsched.Atomic(inc)
						vsched.P()
					} else {
						inc()
					}
				}
			}}
			return bodies, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				if problem != nil {
					return "", problem
				}
				if v, ok := m.Get(k); !ok || v != done+bigs*big {
					return "", fmt.Errorf("after %d increments by 1 and %d by 2^40 the total is %d (found=%v)", done, bigs, v, ok)
				}
				if v, ok := m.Get(k2); ok != (other > 0) || v != other*big {
					return "", fmt.Errorf("after %d increments by 2^40 of another key its total is %d (found=%v)", other, v, ok)
				}
				return "", nil
			}
		}}
	}
	var fine, coarse []*vsched.Scenario
	long, q := 3000, 16
	if w.Thorough {
		long, q = 20000, 40
	}
	for _, a := range []byte("ign") {
		for _, old := range []bool{false, true} {
			for _, n := range []int{1, 4} {
				fine = append(fine, mk(a, n, old, 20, false))
			}
			coarse = append(coarse, mk(a, 1, old, long, true))
		}
	}
	var bursts []*vsched.Scenario
	for _, a := range []byte("ign") {
		for _, n := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536} {
			bursts = append(bursts, mk(a, 1, n%2 == 0, n, true))
		}
	}
	(&vlib.Burst{Scenarios: bursts, Points: 2 * q}).Run(w)
	(&vlib.Duel{Scenarios: fine, Q: 2 * q, P: 2 * q, Horizon: 100000}).Run(w)
	(&vlib.Duel{Scenarios: coarse, Q: q, P: 1, Horizon: 10000000}).Run(w)
}
