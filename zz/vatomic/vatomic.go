// Code generated for /verif: mirrors sync/atomic under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/iand/starbow/internal/zz/vsched"
)

func LoadInt32(p *int32) int32 {
	vsched.PShim()
	v := atomic.LoadInt32(p)
	vsched.Loaded(p, uint64(v))
	return v
}
func StoreInt32(p *int32, v int32) { vsched.PShim(); atomic.StoreInt32(p, v); vsched.Wrote() }
func AddInt32(p *int32, d int32) int32 {
	vsched.PShim()
	v := atomic.AddInt32(p, d)
	vsched.Wrote()
	return v
}
func SwapInt32(p *int32, v int32) int32 {
	vsched.PShim()
	r := atomic.SwapInt32(p, v)
	vsched.Wrote()
	return r
}
func AndInt32(p *int32, v int32) int32 {
	vsched.PShim()
	r := atomic.AndInt32(p, v)
	vsched.Wrote()
	return r
}
func OrInt32(p *int32, v int32) int32 {
	vsched.PShim()
	r := atomic.OrInt32(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapInt32(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32              { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32               { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func LoadInt64(p *int64) int64 {
	vsched.PShim()
	v := atomic.LoadInt64(p)
	vsched.Loaded(p, uint64(v))
	return v
}
func StoreInt64(p *int64, v int64) { vsched.PShim(); atomic.StoreInt64(p, v); vsched.Wrote() }
func AddInt64(p *int64, d int64) int64 {
	vsched.PShim()
	v := atomic.AddInt64(p, d)
	vsched.Wrote()
	return v
}
func SwapInt64(p *int64, v int64) int64 {
	vsched.PShim()
	r := atomic.SwapInt64(p, v)
	vsched.Wrote()
	return r
}
func AndInt64(p *int64, v int64) int64 {
	vsched.PShim()
	r := atomic.AndInt64(p, v)
	vsched.Wrote()
	return r
}
func OrInt64(p *int64, v int64) int64 {
	vsched.PShim()
	r := atomic.OrInt64(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapInt64(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64              { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64               { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func LoadUint32(p *uint32) uint32 {
	vsched.PShim()
	v := atomic.LoadUint32(p)
	vsched.Loaded(p, uint64(v))
	return v
}
func StoreUint32(p *uint32, v uint32) { vsched.PShim(); atomic.StoreUint32(p, v); vsched.Wrote() }
func AddUint32(p *uint32, d uint32) uint32 {
	vsched.PShim()
	v := atomic.AddUint32(p, d)
	vsched.Wrote()
	return v
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.PShim()
	r := atomic.SwapUint32(p, v)
	vsched.Wrote()
	return r
}
func AndUint32(p *uint32, v uint32) uint32 {
	vsched.PShim()
	r := atomic.AndUint32(p, v)
	vsched.Wrote()
	return r
}
func OrUint32(p *uint32, v uint32) uint32 {
	vsched.PShim()
	r := atomic.OrUint32(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapUint32(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32             { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32              { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func LoadUint64(p *uint64) uint64 {
	vsched.PShim()
	v := atomic.LoadUint64(p)
	vsched.Loaded(p, uint64(v))
	return v
}
func StoreUint64(p *uint64, v uint64) { vsched.PShim(); atomic.StoreUint64(p, v); vsched.Wrote() }
func AddUint64(p *uint64, d uint64) uint64 {
	vsched.PShim()
	v := atomic.AddUint64(p, d)
	vsched.Wrote()
	return v
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.PShim()
	r := atomic.SwapUint64(p, v)
	vsched.Wrote()
	return r
}
func AndUint64(p *uint64, v uint64) uint64 {
	vsched.PShim()
	r := atomic.AndUint64(p, v)
	vsched.Wrote()
	return r
}
func OrUint64(p *uint64, v uint64) uint64 {
	vsched.PShim()
	r := atomic.OrUint64(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapUint64(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64             { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64              { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

func LoadUintptr(p *uintptr) uintptr {
	vsched.PShim()
	v := atomic.LoadUintptr(p)
	vsched.Loaded(p, uint64(v))
	return v
}
func StoreUintptr(p *uintptr, v uintptr) { vsched.PShim(); atomic.StoreUintptr(p, v); vsched.Wrote() }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.PShim()
	v := atomic.AddUintptr(p, d)
	vsched.Wrote()
	return v
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.PShim()
	r := atomic.SwapUintptr(p, v)
	vsched.Wrote()
	return r
}
func AndUintptr(p *uintptr, v uintptr) uintptr {
	vsched.PShim()
	r := atomic.AndUintptr(p, v)
	vsched.Wrote()
	return r
}
func OrUintptr(p *uintptr, v uintptr) uintptr {
	vsched.PShim()
	r := atomic.OrUintptr(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapUintptr(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.PShim()
	v := atomic.LoadPointer(p)
	vsched.Loaded(p, uint64(uintptr(v)))
	return v
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsched.PShim()
	atomic.StorePointer(p, v)
	vsched.Wrote()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.PShim()
	r := atomic.SwapPointer(p, v)
	vsched.Wrote()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	vsched.PShim()
	ok := atomic.CompareAndSwapPointer(p, o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(p, 1<<63)
	}
	return ok
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	vsched.PShim()
	v := x.v.Load()
	var n uint64
	if v {
		n = 1
	}
	vsched.Loaded(x, n)
	return v
}
func (x *Bool) Store(v bool)     { vsched.PShim(); x.v.Store(v); vsched.Wrote() }
func (x *Bool) Swap(v bool) bool { vsched.PShim(); r := x.v.Swap(v); vsched.Wrote(); return r }
func (x *Bool) CompareAndSwap(o, v bool) bool {
	vsched.PShim()
	ok := x.v.CompareAndSwap(o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(x, 1<<63)
	}
	return ok
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	vsched.PShim()
	v := x.v.Load()
	vsched.Loaded(x, uint64(uintptr(unsafe.Pointer(v))))
	return v
}
func (x *Pointer[T]) Store(v *T)   { vsched.PShim(); x.v.Store(v); vsched.Wrote() }
func (x *Pointer[T]) Swap(v *T) *T { vsched.PShim(); r := x.v.Swap(v); vsched.Wrote(); return r }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	vsched.PShim()
	ok := x.v.CompareAndSwap(o, v)
	if ok {
		vsched.Wrote()
	} else {
		vsched.Loaded(x, 1<<63)
	}
	return ok
}

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}   { vsched.PShim(); return x.v.Load() }
func (x *Value) Store(v interface{}) { vsched.PShim(); x.v.Store(v); vsched.Wrote() }
func (x *Value) Swap(v interface{}) interface{} {
	vsched.PShim()
	r := x.v.Swap(v)
	vsched.Wrote()
	return r
}
func (x *Value) CompareAndSwap(o, v interface{}) bool {
	vsched.PShim()
	ok := x.v.CompareAndSwap(o, v)
	vsched.Wrote()
	return ok
}
