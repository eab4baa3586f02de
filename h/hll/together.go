package main

import (
	"fmt"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// together uses separate counters in two threads that take turns at every
// point of the schedule: each ends as when it is used alone.
func together(w *vlib.W) {
	uses := []struct {
		name string
		do   func(by int) string
	}{
		{"add", func(by int) string {
			c := hll.New(4)
			for i := 0; i < 3; i++ {
				c.Add([]byte(fmt.Sprintf("value %d of %d", i, by)))
			}
			return fmt.Sprintf("%x", save(&c))
		}},
		{"add and count", func(by int) string {
			c := hll.New(uint8(4 + by))
			c.Add([]byte{byte(by)})
			n := c.Count()
			c.Add([]byte{byte(by), 1})
			return fmt.Sprintf("%d %x", n, save(&c))
		}},
		{"reset", func(by int) string {
			c := hll.New(4)
			c.Add([]byte{byte(by)})
			c.Reset()
			c.Add([]byte{byte(by), 2})
			return fmt.Sprintf("%x", save(&c))
		}},
		{"adopt", func(by int) string {
			c := hll.New(4)
			c.Add([]byte{byte(by), 3})
			d, err := hll.WithBytes(save(&c))
			if err != nil {
				return err.Error()
			}
			d.Add([]byte{byte(by), 4})
			return fmt.Sprintf("%x", save(&d))
		}},
	}
	var scs []*vsched.Scenario
	for x := range uses {
		for y := 0; y <= x; y++ {
			u, v := uses[x], uses[y]
			alone, alone2 := u.do(0), v.do(1)
			scs = append(scs, &vsched.Scenario{Name: "together " + u.name + " with " + v.name, Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
				var a, b string
				return []func(){func() { a = u.do(0) }, func() { b = v.do(1) }}, func(r *vsched.Result) (string, error) {
					if len(r.Panics) > 0 {
						return "", fmt.Errorf("%s\n%s", r.Panics[0], r.Stacks[0])
					}
					if a != alone || b != alone2 {
						return "", fmt.Errorf("two counters used at once end as %s and %s, alone as %s and %s", a, b, alone, alone2)
					}
					return "same", nil
				}
			}})
		}
	}
	bound := 1
	if w.Thorough {
		bound = 2
	}
	(&vlib.Sched{Scenarios: scs, Bound: bound}).Run(w)
}
