package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/zz/vlib"
)

// lives update one record very many times, with a refused update at every
// failing-th time (none when 0): each update is told whether the record is new
// and given what the one before it left, and each read gets what it left.
func lives(w *vlib.W, failing ...int) {
	for _, fail := range failing {
		fail := fail
		n := uint64(pick(w, 1<<22+9, 1<<28+9))
		w.Case(fmt.Sprintf("life fail=%d", fail), func() error {
			m := bufmap.New(3, 8)
			refused := errors.New("refused")
			var count, tries, bad uint64
			var got uint64
			var told, fails bool
			fn := func(b []byte, init bool) error {
				got, told = binary.LittleEndian.Uint64(b), init
				if fails {
					binary.LittleEndian.PutUint64(b, ^got)
					return refused
				}
				binary.LittleEndian.PutUint64(b, got+1)
				return nil
			}
			buf := make([]byte, 8)
			for tries = 1; count < n; tries++ {
				fails = fail > 0 && tries%uint64(fail) == 0
				err := m.Update(4, fn)
				if told != (count == 0) {
					return fmt.Errorf("after %d updates and %d refused ones: told init=%v", count, bad, told)
				}
				if got != count {
					return fmt.Errorf("after %d updates and %d refused ones: given %d", count, bad, got)
				}
				if fails {
					bad++
					if err != refused {
						return fmt.Errorf("after %d updates and %d refused ones: a refusal gives %v", count, bad, err)
					}
				} else {
					count++
					if err != nil {
						return fmt.Errorf("after %d updates and %d refused ones: %v", count, bad, err)
					}
				}
				if ok := m.Get(4, buf); ok != (count > 0) || ok && binary.LittleEndian.Uint64(buf) != count {
					return fmt.Errorf("after %d updates and %d refused ones: read %v %x", count, bad, ok, buf)
				}
				if tries%65536 == 0 {
					w.Tick()
				}
			}
			if m.Get(1, buf) || m.Get(7, buf) {
				return fmt.Errorf("a key that was never updated is found")
			}
			w.Eval(int(tries))
			w.Max("updates_of_one_record", int(count))
			return nil
		})
	}
}
