package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// alone runs f as the only controlled thread, so that waiting for ever shows as an error.
func alone(f func() error) error {
	var err error
	r := vsched.Run([]func(){func() { err = f() }}, nil, 200000)
	if len(r.Panics) > 0 {
		return fmt.Errorf("panic: %s\n%s", r.Panics[0], trunc(r.Stacks[0], 1500))
	}
	if r.Abort != "" {
		return fmt.Errorf("an operation does not finish: %s", r.Abort)
	}
	return err
}

func pat(k uint64, ver, i int) byte {
	return byte(k*31+uint64(ver)*7+uint64(i)*13+k>>8) | 1
}

func fill(data []byte, k uint64, ver int) {
	for i := range data {
		data[i] = pat(k, ver, i)
	}
}

func want(k uint64, ver, n int) []byte {
	b := make([]byte, n)
	fill(b, k, ver)
	return b
}

func get(m *bufmap.Map, k uint64, s int) ([]byte, bool, error) {
	full := bytes.Repeat([]byte{0xEE}, s+3)
	ok := m.Get(k, full[:s:s])
	for _, b := range full[s:] {
		if b != 0xEE {
			return nil, false, fmt.Errorf("get(%d) wrote beyond its buffer", k)
		}
	}
	return full[:s], ok, nil
}

// slotReads stores a key in every slot and reads every record back.
func slotReads(w *vlib.W) {
	ls := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 64, 257}
	ss := []int{1, 2, 3, 7, 8, 9, 16, 33, 72, 257}
	if w.Thorough {
		ls = append(ls, 100, 255, 256, 1000, 1024, 5000)
		ss = append(ss, 31, 32, 127, 128, 1034)
	}
	for _, l := range append(ls, 5000) {
		for _, s := range ss {
			if l*s > 1<<21 {
				continue
			}
			l, s := l, s
			w.Case(fmt.Sprintf("slots l=%d s=%d", l, s), func() error {
				m := bufmap.New(l, s)
				for ver := 1; ver <= 2; ver++ {
					for x := 0; x < l; x++ {
						k := uint64(l + x)
						if err := m.Update(k, func(d []byte, init bool) error {
							if init != (ver == 1) {
								return fmt.Errorf("slot %d: init=%v on update %d", x, init, ver)
							}
							fill(d, k, ver)
							return nil
						}); err != nil {
							return err
						}
						got, ok, err := get(m, k, s)
						if err != nil {
							return err
						}
						if !ok || !bytes.Equal(got, want(k, ver, s)) {
							return fmt.Errorf("slot %d of %d, record size %d: read found=%v %v, stored %v", x, l, s, ok, clip(got), clip(want(k, ver, s)))
						}
						w.Eval(1)
					}
					for x := 0; x < l; x++ {
						k := uint64(l + x)
						got, ok, err := get(m, k, s)
						if err != nil {
							return err
						}
						if !ok || !bytes.Equal(got, want(k, ver, s)) {
							return fmt.Errorf("slot %d of %d, record size %d, after all slots were written: read found=%v %v, stored %v", x, l, s, ok, clip(got), clip(want(k, ver, s)))
						}
						w.Eval(1)
						w.NT(1)
					}
				}
				return nil
			})
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// bursts: a read is interrupted once by a long burst of updates of the same
// record, long enough to wrap a narrow sequence counter.
func bursts(w *vlib.W) {
	for _, n := range []int{1, 2, 127, 128, 256, 32768} {
		n := n
		sc := &vsched.Scenario{Name: fmt.Sprintf("burst%d", n), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
			m := bufmap.New(2, 12)
			set := func(v byte) {
				m.Update(3, func(d []byte, _ bool) error {
					for i := range d {
						d[i] = v
					}
					return nil
				})
			}
			set(200)
			buf := make([]byte, 12)
			var ok bool
			return []func(){
				func() { ok = m.Get(3, buf) },
				func() {
					vsched.Atomic(func() {
						for i := 0; i < n; i++ {
							set(byte(i%199) + 1)
						}
					})
				},
			}, func(r *vsched.Result) (string, error) {
				if len(r.Panics) > 0 {
					return "", fmt.Errorf("panic: %s", r.Panics[0])
				}
				if !ok {
					return "", fmt.Errorf("a stored key was not found")
				}
				for _, b := range buf {
					if b != buf[0] || b == 0 {
						return "", fmt.Errorf("a read interrupted by %d updates returned %v", n, buf)
					}
				}
				if buf[0] != 200 && buf[0] != byte((n-1)%199)+1 {
					return "", fmt.Errorf("a read interrupted by %d updates returned version %d", n, buf[0])
				}
				return fmt.Sprint(buf[0] == 200), nil
			}
		}}
		w.Case("burst "+sc.Name, func() error {
			st := vsched.ExploreBound(sc, vsched.Config{Bound: 2, MaxViol: 1, Horizon: 100000, Progress: func([]vsched.Dev) { w.Tick() }})
			w.Res.Evals += int64(st.Execs)
			w.Res.Traces += int64(st.Execs)
			w.Res.States += st.Points
			w.Res.Transitions += st.Steps
			if len(st.Violations) > 0 {
				return st.Violations[0].Err
			}
			return nil
		})
	}
}

// faultSeqs runs every sequence of successful, failing and panicking updates
// and reads of two keys.
func faultSeqs(w *vlib.W) {
	type fop struct {
		kind byte
		key  int
		n    int // bytes changed before failing
	}
	const s = 6
	ops := []fop{{'u', 0, 0}, {'e', 0, 0}, {'e', 0, 1}, {'e', 0, s}, {'p', 0, 1}, {'p', 0, s}, {'u', 1, 0}, {'e', 1, s}}
	depth := pick(w, 5, 6)
	for _, l := range []int{1, 2, 12} {
		keys := []uint64{5, 17}
		for first := range ops {
			for second := range ops {
				l, first, second := l, first, second
				w.Case(fmt.Sprintf("faultseq l=%d %d %d", l, first, second), func() error {
					var bad error
					one := func(seq []int) error {
						return alone(func() error {
							m := bufmap.New(l, s)
							ver := map[uint64]int{} // versions applied
							tried := map[uint64]bool{}
							check := func(at int) error {
								for _, k := range keys {
									got, ok, err := get(m, k, s)
									if err != nil {
										return err
									}
									if ok != (ver[k] > 0) {
										return fmt.Errorf("after step %d: key %d found=%v with %d successful updates", at, k, ok, ver[k])
									}
									if ok && !bytes.Equal(got, want(k, ver[k], s)) {
										return fmt.Errorf("after step %d: key %d reads %v, want %v", at, k, got, want(k, ver[k], s))
									}
								}
								return nil
							}
							for i, o := range seq {
								f := ops[o]
								k := keys[f.key]
								called := false
								var herr error
								var panicked bool
								err := func() (err error) {
									defer func() {
										if r := recover(); r != nil {
											if vsched.IsAbort(r) {
												panic(r)
											}
											if pv, ok := r.(panicVal); ok && pv.id == i && f.kind == 'p' {
												panicked = true
												return
											}
											panic(r)
										}
									}()
									return m.Update(k, func(d []byte, init bool) error {
										called = true
										if init != (ver[k] == 0) {
											herr = fmt.Errorf("step %d: key %d told init=%v after %d successful updates", i, k, init, ver[k])
										}
										pre := make([]byte, s)
										if ver[k] > 0 {
											pre = want(k, ver[k], s)
										}
										if !bytes.Equal(d, pre) {
											herr = fmt.Errorf("step %d: update of key %d starts from %v, want %v", i, k, d, pre)
										}
										switch f.kind {
										case 'u':
											fill(d, k, ver[k]+1)
											return nil
										default:
											for j := 0; j < f.n; j++ {
												d[j] = 0xDD
												d[s-1-j] = 0xDE
											}
											if f.kind == 'p' {
												panic(panicVal{i})
											}
											return errFn
										}
									})
								}()
								if herr != nil {
									return herr
								}
								full := false
								if !called {
									// only a table full of other keys refuses
									others := 0
									for k2 := range tried {
										if k2 != k {
											others++
										}
									}
									full = err == bufmap.ErrOutOfSlots && others >= l && ver[k] == 0
									if !full {
										return fmt.Errorf("step %d: update of key %d did not call its function and returned %v", i, k, err)
									}
								} else {
									tried[k] = true
									switch f.kind {
									case 'u':
										if err != nil {
											return fmt.Errorf("step %d: update returned %v", i, err)
										}
										ver[k]++
									case 'e':
										if err != errFn {
											return fmt.Errorf("step %d: update returned %v, its function %v", i, err, errFn)
										}
									case 'p':
										if !panicked {
											return fmt.Errorf("step %d: the panic did not reach the caller", i)
										}
									}
								}
								if err := check(i); err != nil {
									return err
								}
							}
							return nil
						})
					}
					vlib.SeqsUpTo(len(ops), depth-2, func(rest []int) {
						if bad != nil {
							return
						}
						seq := append([]int{first, second}, rest...)
						w.Eval(1)
						w.NT(1)
						w.Tick()
						if err := one(seq); err != nil {
							var d []string
							for _, o := range seq {
								d = append(d, fmt.Sprintf("%c(key %d, %d bytes changed)", ops[o].kind, keys[ops[o].key], ops[o].n))
							}
							bad = fmt.Errorf("sequence %s: %v", strings.Join(d, ", "), err)
						}
					})
					return bad
				})
			}
		}
	}
}

// seqlockFaults: failing and panicking updates of the sequence-locked cell.
func seqlockFaults(w *vlib.W) {
	type fop struct {
		kind byte
		n    int
	}
	ops := []fop{{'P', 0}, {'u', 0}, {'e', 1}, {'e', 1024}, {'p', 1}, {'p', 1024}}
	for first := range ops {
		for second := range ops {
			first, second := first, second
			w.Case(fmt.Sprintf("seqlockfault %d %d", first, second), func() error {
				var bad error
				vlib.SeqsUpTo(len(ops), pick(w, 2, 3), func(rest []int) {
					if bad != nil {
						return
					}
					seq := append([]int{first, second}, rest...)
					w.Eval(1)
					w.Tick()
					bad = alone(func() error {
						s := seqlock.New()
						var model [1024]byte
						for i, o := range seq {
							f := ops[o]
							var nv [1024]byte
							fill(nv[:], uint64(i+1), 1)
							switch f.kind {
							case 'P':
								s.Put(nv)
								model = nv
							default:
								var seen [1024]byte
								panicked := false
								err := func() (err error) {
									defer func() {
										if r := recover(); r != nil {
											if vsched.IsAbort(r) {
												panic(r)
											}
											if pv, ok := r.(panicVal); ok && pv.id == i && f.kind == 'p' {
												panicked = true
												return
											}
											panic(r)
										}
									}()
									return s.Update(func(d []byte) error {
										copy(seen[:], d)
										switch f.kind {
										case 'u':
											copy(d, nv[:])
											return nil
										default:
											for j := 0; j < f.n; j++ {
												d[j] = 0xDD
											}
											if f.kind == 'p' {
												panic(panicVal{i})
											}
											return errFn
										}
									})
								}()
								if seen != model {
									return fmt.Errorf("sequence %v step %d: the update function did not get the stored value", seq, i)
								}
								switch f.kind {
								case 'u':
									if err != nil {
										return fmt.Errorf("update returned %v", err)
									}
									model = nv
								case 'e':
									if err != errFn {
										return fmt.Errorf("failing update returned %v", err)
									}
								case 'p':
									if !panicked {
										return fmt.Errorf("the panic did not reach the caller")
									}
								}
							}
							if got := s.Get(); got != model {
								return fmt.Errorf("sequence %v: after step %d the cell holds something else than the last successful write", seq, i)
							}
						}
						return nil
					})
				})
				return bad
			})
		}
	}
}
