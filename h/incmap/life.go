package main

import (
	"fmt"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zz/vlib"
)

// life increments one counter very many times.
func life(w *vlib.W) {
	n := uint64(1<<23 + 9)
	if w.Thorough {
		n = 1<<29 + 9
	}
	for _, d := range []uint64{1, 1<<32 + 1, 1<<63 + 3} {
		d := d
		w.Case(fmt.Sprintf("life %d", d), func() error {
			m := incmap.New(3)
			for i := uint64(1); i <= n; i++ {
				if !m.Inc(4, d) {
					return fmt.Errorf("the increment number %d of %d is refused", i, d)
				}
				if v, ok := m.Get(4); !ok || v != i*d {
					return fmt.Errorf("after %d increments by %d: %d %v", i, d, v, ok)
				}
				if i%65536 == 0 {
					w.Tick()
				}
			}
			w.Eval(int(n))
			w.Max("increments_of_one_counter", int(n))
			return nil
		})
	}
}
