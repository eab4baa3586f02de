package main

import (
	"bytes"
	"fmt"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// together uses separate structures in two threads that take turns at every
// point of the schedule: each ends as when it is used alone.
func together(w *vlib.W, kind string) {
	type use struct {
		name string
		do   func(by int) string
	}
	uses := func(k kindOf, mk func(by int) sk) []use {
		return []use{
			{"add", func(by int) string {
				s := mk(by)
				for i := 0; i < 3; i++ {
					k.add(s, by*5+i)
				}
				return k.show(s)
			}},
			{"reset", func(by int) string {
				s := mk(by)
				k.add(s, by)
				s.Reset()
				k.add(s, by+7)
				return k.show(s)
			}},
			{"save and load", func(by int) string {
				s := mk(by)
				k.add(s, by)
				var b bytes.Buffer
				n, err := s.WriteTo(&b)
				o := k.blank()
				m, err2 := o.ReadFrom(bytes.NewReader(b.Bytes()))
				k.add(o, by+9)
				return fmt.Sprintf("%d %v %d %v %x %s", n, err, m, err2, b.Bytes(), k.show(o))
			}},
			{"adopt", func(by int) string {
				s := mk(by)
				k.add(s, by)
				var b bytes.Buffer
				s.WriteTo(&b)
				o, err := k.adopt(b.Bytes())
				if err != nil {
					return err.Error()
				}
				k.add(o, by+9)
				return fmt.Sprintf("%x %s", b.Bytes(), k.show(o))
			}},
		}
	}
	var us []use
	switch kind {
	case "buckets":
		us = uses(bitKind, func(by int) sk { b := bitbucket.New(9+by, 3); return &b })
	case "filters":
		us = uses(bloomKind, func(by int) sk { b := bloom.NewBits(41+8*by, 3); return &b })
	case "saved":
		us = uses(bitKind, func(by int) sk { b := bitbucket.New(9+by, 5); return &b })[2:]
		us = append(us, uses(bloomKind, func(by int) sk { b := bloom.NewBits(41+8*by, 3); return &b })[2:]...)
		us = append(us, uses(hllKind, func(by int) sk { c := hll.New(4); return &c })[2:]...)
	}
	var scs []*vsched.Scenario
	for x := range us {
		for y := 0; y <= x; y++ {
			u, v := us[x], us[y]
			alone, alone2 := u.do(0), v.do(1)
			scs = append(scs, &vsched.Scenario{Name: fmt.Sprintf("together %d %s with %d %s", x, u.name, y, v.name), Setup: func() ([]func(), func(*vsched.Result) (string, error)) {
				var a, b string
				return []func(){func() { a = u.do(0) }, func() { b = v.do(1) }}, func(r *vsched.Result) (string, error) {
					if len(r.Panics) > 0 {
						return "", fmt.Errorf("%s\n%s", r.Panics[0], r.Stacks[0])
					}
					if a != alone || b != alone2 {
						return "", fmt.Errorf("two structures used at once tell %q and %q, alone %q and %q", a, b, alone, alone2)
					}
					return "same", nil
				}
			}})
		}
	}
	bound := 1
	if w.Thorough {
		bound = 2
	}
	(&vlib.Sched{Scenarios: scs, Bound: bound}).Run(w)
}
