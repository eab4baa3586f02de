package main

import (
	"fmt"

	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// crowds: many threads under way at the same time (see vlib.Crowd).
func crowds(w *vlib.W, kinds ...string) {
	var sc []*vsched.Scenario
	sizes := []int{3, 4, 5, 6, 9, 17, 33, 65}
	if w.Thorough {
		sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 40, 65, 100}
	}
	for _, n := range sizes {
		for _, kind := range kinds {
			p := &prog{name: fmt.Sprintf("%s of %d", kind, n), l: 12, recLen: 2*n + 8}
			for i := 0; i < n; i++ {
				f := func(k uint64) []op { return []op{{kind: "ep"[i/2%2], key: k, n: 1}} }
				var o []op
				switch kind {
				case "one new":
					o = ups(5)
				case "one old":
					p.pre = []uint64{5}
					o = ups(5)
				case "two keys":
					o = ups([]uint64{5, 17}[i%2])
				case "two keys twice":
					o = ups([]uint64{5, 17}[i%2], []uint64{5, 17}[1-i%2])
				case "own keys": // more of them than slots
					p.l = 4
					o = ups(uint64(i*4+1), 1)
				case "readers":
					if i%2 == 0 {
						o = ups(5)
					} else {
						o = gets(5)
					}
				case "readers of two":
					p.pre = []uint64{5, 17}
					o = cat(ups([]uint64{5, 17}[i%2]), gets(17, 5))
				case "failing":
					if i%2 == 0 {
						o = f(5)
					} else {
						o = ups(5)
					}
				case "failing old":
					p.pre = []uint64{5, 17}
					if i%2 == 0 {
						o = cat(f(5), gets(17))
					} else {
						o = cat(ups(17), gets(5))
					}
				case "all failing":
					o = f(5)
				}
				p.threads = append(p.threads, o)
			}
			sc = append(sc, p.scenario())
		}
	}
	rest := []int{0, 1, 2}
	if w.Thorough {
		rest = []int{0, 1, 2, 3, 4, 5, 7, 9, 11, 13}
	}
	(&vlib.Crowd{Scenarios: sc, Rest: rest}).Run(w)
}

// apart: programs on separate maps, of equal and of different shapes.
func apart(w *vlib.W, ths ...[]op) {
	var sc, three []*vsched.Scenario
	mk := func(l, recLen int, pre []uint64, th ...[]op) *vsched.Scenario {
		return (&prog{name: fmt.Sprintf("%d x %d %v %v", l, recLen, pre, th), l: l, recLen: recLen, pre: pre, threads: th}).scenario()
	}
	for i, a := range ths {
		for j, b := range ths {
			if j < i {
				continue
			}
			for _, pre := range [][]uint64{nil, {3}} {
				for _, sh := range [][4]int{{2, 6, 2, 6}, {2, 6, 12, 9}, {1, 24, 1, 6}} {
					sc = append(sc, vsched.Together(mk(sh[0], sh[1], pre, a), mk(sh[2], sh[3], pre, b)))
				}
				three = append(three, vsched.Together(mk(2, 6, pre, a), mk(2, 6, pre, b), mk(2, 9, nil, a)),
					vsched.Together(mk(2, 8, pre, a, b), mk(2, 6, pre, b)))
			}
		}
	}
	(&vlib.Sched{Scenarios: sc, Bound: pick(w, 2, 3)}).Run(w)
	(&vlib.Sched{Scenarios: three, Bound: pick(w, 1, 2)}).Run(w)
}
