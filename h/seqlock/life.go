package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zz/vlib"
)

// life writes one cell very many times: turns of Put, Update and an Update that
// is refused.
func life(w *vlib.W) {
	n := uint64(1<<20 + 9)
	if w.Thorough {
		n = 1<<26 + 9
	}
	w.Case("life", func() error {
		var s seqlock.Seqlock
		refused := errors.New("refused")
		var v [1024]byte
		var got uint64
		for i := uint64(1); i <= n; i++ {
			switch i % 3 {
			case 0:
				binary.LittleEndian.PutUint64(v[1000:], i)
				s.Put(v)
			case 1:
				if err := s.Update(func(b []byte) error {
					got = binary.LittleEndian.Uint64(b[1000:])
					binary.LittleEndian.PutUint64(b[1000:], i)
					return nil
				}); err != nil || got != i-1 {
					return fmt.Errorf("write number %d: given %d, error %v", i, got, err)
				}
			case 2:
				if err := s.Update(func(b []byte) error {
					got = binary.LittleEndian.Uint64(b[1000:])
					binary.LittleEndian.PutUint64(b[1000:], 0)
					return refused
				}); err != refused || got != i-1 {
					return fmt.Errorf("write number %d, refused: given %d, error %v", i, got, err)
				}
				binary.LittleEndian.PutUint64(v[1000:], i)
				s.Put(v)
			}
			r := s.Get()
			if x := binary.LittleEndian.Uint64(r[1000:]); x != i {
				return fmt.Errorf("after write number %d: read %d", i, x)
			}
			if i%4096 == 0 {
				w.Tick()
			}
		}
		w.Eval(int(n))
		w.Max("writes_of_one_cell", int(n))
		return nil
	})
}
