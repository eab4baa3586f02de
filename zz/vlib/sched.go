package vlib

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/zz/vsched"
)

// Sched explores every scenario with up to 0, 1, ... bound preemptions, all
// scenarios at one bound before any at the next.
type Sched struct {
	Scenarios []*vsched.Scenario
	Bound     int
	Horizon   int
}

// bounds may be lowered per scenario by a suffix "@n" of its name (at most n preemptions).
func limit(name string, d int) int {
	if i := strings.LastIndex(name, "@"); i >= 0 {
		if n, err := strconv.Atoi(name[i+1:]); err == nil && n < d {
			return n
		}
	}
	return d
}

func devString(d []vsched.Dev) string {
	var s []string
	for _, x := range d {
		s = append(s, fmt.Sprintf("%d:%d", x.Idx, x.Alt))
	}
	return strings.Join(s, ",")
}

func parseDevs(s string) (d []vsched.Dev) {
	if s == "" {
		return
	}
	for _, p := range strings.Split(s, ",") {
		var x vsched.Dev
		fmt.Sscanf(p, "%d:%d", &x.Idx, &x.Alt)
		d = append(d, x)
	}
	return
}

// Run explores (or replays) the scenarios.
func (s *Sched) Run(w *W) {
	if s.Horizon == 0 {
		s.Horizon = 60000
	}
	if w.Replay() {
		if !strings.HasPrefix(w.ReplayID(), "sched|") {
			return
		}
		f := strings.SplitN(w.ReplayID(), "|", 3)
		for _, sc := range s.Scenarios {
			if sc.Name == f[1] {
				w.Replayed = true
				devs := parseDevs(f[2])
				w.Announce(w.ReplayID())
				run := func() error {
					_, _, err := vsched.RunOnce(sc, devs, s.Horizon)
					return err
				}
				if err := Guard(run); err != nil {
					w.ViolateDetail(w.ReplayID(), err, run, nil)
				}
			}
		}
		return
	}
	done := map[string]bool{}
	last := map[string]*vsched.Stats{}
	failed := map[string]bool{}
	for b := 0; b <= s.Bound; b++ {
		for _, sc := range s.Scenarios {
			if b > limit(sc.Name, s.Bound) || failed[sc.Name] {
				continue
			}
			if w.Expired() {
				w.Res.Exhaustive = false
				continue
			}
			w.Announce("sched|" + sc.Name + "|")
			n := 0
			st := vsched.ExploreBound(sc, vsched.Config{Bound: b, Shard: w.Shard, N: w.N, Horizon: s.Horizon, MaxViol: 1,
				Stop: func() bool {
					n++
					return n&63 == 0 && w.Expired()
				},
				Progress: func(d []vsched.Dev) {
					w.Tick()
					w.setCur(lazyCase{sc.Name, d})
				},
			})
			last[sc.Name] = st
			done[sc.Name] = st.Complete
			if !st.Complete {
				w.Res.Exhaustive = false
				w.Add(fmt.Sprintf("scenarios_incomplete_at_bound_%d", b), 1)
			} else {
				w.Add(fmt.Sprintf("scenarios_completed_at_bound_%d", b), 1)
			}
			if st.Diverged > 0 {
				w.Res.Exhaustive = false
				w.Add("diverged_schedules", st.Diverged)
			}
			for _, v := range st.Violations {
				id := "sched|" + v.Scenario + "|" + devString(v.Devs)
				devs := v.Devs
				failed[sc.Name] = true
				w.ViolateDetail(id, v.Err, func() error {
					_, _, err := vsched.RunOnce(sc, devs, s.Horizon)
					return err
				}, map[string]interface{}{"preemptions": v.Bound, "thread_switches_step_to": v.Switches})
			}
		}
	}
	for _, sc := range s.Scenarios {
		st := last[sc.Name]
		if st == nil {
			continue
		}
		w.Res.Cases++
		w.Res.Evals += int64(st.Execs)
		w.Res.Traces += int64(st.Execs)
		w.Res.States += st.Points
		w.Res.Transitions += st.Steps
		w.Max("choice_points_in_one_execution", st.MaxPoints)
		for o, c := range st.Outcomes {
			w.Res.Outcomes[sc.Name+" => "+o] += int64(c)
		}
		w.Sample("%s: %d schedules in this worker, up to %d choice points, e.g. outcome %s", sc.Name, st.Execs, st.MaxPoints, anyKey(st.Outcomes))
	}
}

// Duel is two threads that alternate: the first runs q points, the second p,
// over and over, for every q, every p and every length of the first turn. It
// reaches histories with far more thread switches than the preemption bound,
// as when a read is disturbed by an update again and again.
type Duel struct {
	Scenarios []*vsched.Scenario
	Q, P      int // largest turns
	Horizon   int
}

// Run explores all turns.
func (d *Duel) Run(w *W) {
	for _, sc := range d.Scenarios {
		for q := 1; q <= d.Q; q++ {
			sc, q := sc, q
			w.Case(fmt.Sprintf("duel %s q=%d", sc.Name, q), func() error {
				for p := 1; p <= d.P; p++ {
					for first := 1; first <= q; first++ {
						bodies, check := sc.Setup()
						res := vsched.RunQuanta(bodies, []int{q, p}, first, d.Horizon)
						w.Tick()
						w.Eval(1)
						w.Res.Traces++
						w.Res.States += int64(len(res.Switches))
						w.Res.Transitions += int64(res.Steps)
						where := fmt.Sprintf("turns of %d and %d points, the first of %d", q, p, first)
						if res.Abort != "" {
							return fmt.Errorf("%s: %s", where, res.Abort)
						}
						if _, err := check(res); err != nil {
							return fmt.Errorf("%s: %v", where, err)
						}
					}
				}
				return nil
			})
		}
	}
}

// Burst is a first thread that is interrupted once, after 1, 2, ... points, by a
// second one that then runs to its end: a long series of operations, say, within
// one operation.
type Burst struct {
	Scenarios []*vsched.Scenario
	Points    int // last point at which the first thread is interrupted
	Horizon   int
}

// Run explores all interruptions.
func (b *Burst) Run(w *W) {
	if b.Horizon == 0 {
		b.Horizon = 10000000
	}
	for _, sc := range b.Scenarios {
		for first := 1; first <= b.Points; first++ {
			sc, first := sc, first
			w.Case(fmt.Sprintf("burst %s after %d", sc.Name, first), func() error {
				bodies, check := sc.Setup()
				res := vsched.RunQuanta(bodies, []int{1 << 40, 1 << 40}, first, b.Horizon)
				w.Tick()
				w.Eval(1)
				w.Res.Traces++
				w.Res.States += int64(len(res.Switches))
				w.Res.Transitions += int64(res.Steps)
				if res.Abort != "" {
					return fmt.Errorf("interrupted after %d points: %s", first, res.Abort)
				}
				if _, err := check(res); err != nil {
					return fmt.Errorf("interrupted after %d points: %v", first, err)
				}
				return nil
			})
		}
	}
}

// Crowd is many threads under way at the same time: each of them runs First
// points (1, 2, ... until none of them gets further), one after the other, and
// then they go on, each to its end or for one, two, ... points at a time, in the
// order they came or the opposite one.
type Crowd struct {
	Scenarios []*vsched.Scenario
	Rest      []int // turns after the first; 0 stands for to the end
	Step      int   // first turns 1, 1+Step, ... (1 when 0)
	Horizon   int
}

// Run explores all turns.
func (c *Crowd) Run(w *W) {
	if c.Horizon == 0 {
		c.Horizon = 1000000
	}
	if c.Step == 0 {
		c.Step = 1
	}
	for _, sc := range c.Scenarios {
		for _, rest := range c.Rest {
			for _, back := range []bool{false, true} {
				sc, rest, back := sc, rest, back
				if rest == 0 {
					rest = 1 << 30
				}
				w.Case(fmt.Sprintf("crowd %s rest=%d back=%v", sc.Name, rest, back), func() error {
					for first := 1; ; first += c.Step {
						bodies, check := sc.Setup()
						res := vsched.RunCrowd(bodies, first, rest, back, c.Horizon)
						w.Tick()
						w.Eval(1)
						w.Res.Traces++
						w.Res.States += int64(len(res.Switches))
						w.Res.Transitions += int64(res.Steps)
						where := fmt.Sprintf("%d threads, first turns of %d points, then %d, back=%v", len(bodies), first, rest, back)
						if res.Abort != "" {
							return fmt.Errorf("%s: %s", where, res.Abort)
						}
						if _, err := check(res); err != nil {
							return fmt.Errorf("%s: %v", where, err)
						}
						if res.Cuts == 0 {
							w.Max("points of a crowd's first turns", first)
							return nil
						}
						w.NT(1)
					}
				})
			}
		}
	}
}

// Freeze stops the first thread of each scenario for good, at every one of its
// points (or client points), after the second has passed 0, 1, ... Pre points:
// the others must still end, and the history must still be right.
type Freeze struct {
	Scenarios []*vsched.Scenario
	Pre       int
	Client    bool
	Horizon   int
}

// Run explores all stops.
func (f *Freeze) Run(w *W) {
	if f.Horizon == 0 {
		f.Horizon = 100000
	}
	for _, sc := range f.Scenarios {
		for pre := 0; pre <= f.Pre; pre++ {
			sc, pre := sc, pre
			w.Case(fmt.Sprintf("stop %s pre=%d", sc.Name, pre), func() error {
				for at := 1; ; at++ {
					bodies, check := sc.Setup()
					res, hit := vsched.RunFreeze(bodies, pre, at, f.Client, f.Horizon)
					w.Tick()
					w.Eval(1)
					w.Res.Traces++
					w.Res.States += int64(len(res.Switches))
					w.Res.Transitions += int64(res.Steps)
					where := fmt.Sprintf("thread 0 stops at its point %d after thread 1 has passed %d", at, pre)
					if res.Abort != "" {
						return fmt.Errorf("%s: %s", where, res.Abort)
					}
					if _, err := check(res); err != nil {
						return fmt.Errorf("%s: %v", where, err)
					}
					if !hit {
						w.Max("points at which a thread was stopped", at-1)
						return nil
					}
					w.NT(1)
				}
			})
		}
	}
}

type lazyCase struct {
	n string
	d []vsched.Dev
}

func (l lazyCase) String() string { return "sched|" + l.n + "|" + devString(l.d) }

func anyKey(m map[string]int) string {
	best := ""
	for k := range m {
		if best == "" || k < best {
			best = k
		}
	}
	return trunc(best, 200)
}
