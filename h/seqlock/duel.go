package main

import (
	"encoding/binary"
	"fmt"

	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// duels: one operation against a long series of writes by another thread, in
// every alternation of turns (see vlib.Duel).
func duels(w *vlib.W) {
	ver := func(v []byte) (uint32, error) {
		a := binary.LittleEndian.Uint32(v)
		for i := 0; i < 1024; i += 4 {
			if b := binary.LittleEndian.Uint32(v[i:]); b != a {
				return 0, fmt.Errorf("a mixture of versions %d and %d", a, b)
			}
		}
		return a, nil
	}
	fill := func(v []byte, n uint32) {
		for i := 0; i < 1024; i += 4 {
			binary.LittleEndian.PutUint32(v[i:], n)
		}
	}
	// a: 'G' read, 'U' update; b: 'P' put (versions counted by the writer), 'U' update, 'E' failing update
	mk := func(a, b byte, count int, atomic bool) *vsched.Scenario {
		return &vsched.Scenario{Name: fmt.Sprintf("%c-vs-%c x%d atomic=%v", a, b, count, atomic), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			s := seqlock.New()
			var problem error
			set := func(err error) {
				if problem == nil {
					problem = err
				}
			}
			var done, started uint32
			update := func() {
				vsched.OpStart()
				started++
				s.Update(func(d []byte) error {
					v, err := ver(d)
					if err != nil {
						set(fmt.Errorf("an update was given %v", err))
					}
					vsched.P()
					fill(d, v+1)
					vsched.P()
					return nil
				})
				done++
			}
			write := func() {
				switch b {
				case 'U':
					update()
				case 'E':
					vsched.OpStart()
					if err := s.Update(func(d []byte) error {
						if _, err := ver(d); err != nil {
							set(fmt.Errorf("a failing update was given %v", err))
						}
						fill(d, 1<<30)
						vsched.P()
						return errFn
					}); err != errFn {
						set(fmt.Errorf("a failing update returned %v", err))
					}
				case 'P':
					vsched.OpStart()
					var v [1024]byte
					started++
					fill(v[:], started)
					s.Put(v)
					done++
				}
			}
			bodies := []func(){func() {
				if a == 'U' {
					update()
					return
				}
				vsched.OpStart()
				lo := done
				g := s.Get()
				hi := started
				if v, err := ver(g[:]); err != nil {
					set(fmt.Errorf("a read returned %v", err))
				} else if v < lo || v > hi {
					set(fmt.Errorf("a read returned version %d, %d had completed and %d had started", v, lo, hi))
				}
			}, func() {
				for i := 0; i < count; i++ {
					if atomic {
						vsched.Atomic(write)
						vsched.P()
					} else {
						write()
					}
				}
			}}
			return bodies, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				if problem != nil {
					return "", problem
				}
				g := s.Get()
				if v, err := ver(g[:]); err != nil || v != done {
					return "", fmt.Errorf("after %d writes the cell holds version %d (%v)", done, v, err)
				}
				return "", nil
			}
		}}
	}
	var fine, coarse []*vsched.Scenario
	long, q := 2000, 10
	if w.Thorough {
		long, q = 15000, 25
	}
	for _, d := range []string{"GP", "GU", "GE", "UU", "UE"} {
		fine = append(fine, mk(d[0], d[1], 6, false))
		coarse = append(coarse, mk(d[0], d[1], long, true))
	}
	var long1 []*vsched.Scenario
	for _, d := range []string{"GP", "GU", "GE", "UU", "UE"} {
		for _, n := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536} {
			long1 = append(long1, mk(d[0], d[1], n, true))
		}
	}
	(&vlib.Burst{Scenarios: long1, Points: 2 * q}).Run(w)
	(&vlib.Duel{Scenarios: fine, Q: 2 * q, P: 4 * q, Horizon: 100000}).Run(w)
	(&vlib.Duel{Scenarios: coarse, Q: q, P: 1, Horizon: 10000000}).Run(w)
}
