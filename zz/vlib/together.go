package vlib

import (
	"fmt"

	"github.com/iand/starbow/internal/zz/vsched"
)

// Use is something a thread does by itself, for the by-th thread; it tells all
// that it saw.
type Use struct {
	Name string
	Do   func(by int) string
}

// Together runs every pair of uses in two threads that take turns at every
// point of the schedule: each tells what it tells alone.
func Together(w *W, us []Use) {
	var scs []*vsched.Scenario
	for x := range us {
		for y := 0; y <= x; y++ {
			u, v := us[x], us[y]
			alone, alone2 := u.Do(0), v.Do(1)
			scs = append(scs, &vsched.Scenario{Name: "together " + u.Name + " with " + v.Name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
				var a, b string
				return []func(){func() { a = u.Do(0) }, func() { b = v.Do(1) }}, func(r *vsched.Result) (string, error) {
					if len(r.Panics) > 0 {
						return "", fmt.Errorf("%s\n%s", r.Panics[0], r.Stacks[0])
					}
					if a != alone || b != alone2 {
						return "", fmt.Errorf("at once they tell %q and %q, alone %q and %q", a, b, alone, alone2)
					}
					return "same", nil
				}
			}})
		}
	}
	bound := 1
	if w.Thorough {
		bound = 2
	}
	(&Sched{Scenarios: scs, Bound: bound}).Run(w)
}
