package vrt

import (
	"sync/atomic"
	"unsafe"
)

func atomicOp(p unsafe.Pointer, size uintptr, write bool) {
	x := live()
	if x == nil {
		exitIfGone()
		return
	}
	o := x.objFor(p, "atomic")
	k := opRead
	if write {
		k = opWrite
	}
	t := x.step(opDesc{obj: o, kind: k}, nil)
	if write {
		x.acqRel(t, o)
	} else {
		x.acquire(t, o)
	}
	if x.ex.Races {
		ak := accAR
		if write {
			ak = accAW
		}
		x.access(p, size, ak, 0)
	}
}

func rd[T any](p *T) { atomicOp(unsafe.Pointer(p), unsafe.Sizeof(*p), false) }
func wr[T any](p *T) { atomicOp(unsafe.Pointer(p), unsafe.Sizeof(*p), true) }

func LoadInt32(p *int32) int32                         { rd(p); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { rd(p); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { rd(p); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { rd(p); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { rd(p); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rd(p); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { wr(p); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { wr(p); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { wr(p); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { wr(p); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { wr(p); atomic.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(p); atomic.StorePointer(p, v) }
func AddInt32(p *int32, d int32) int32                 { wr(p); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { wr(p); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { wr(p); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { wr(p); return atomic.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { wr(p); return atomic.AddUintptr(p, d) }
func SwapInt32(p *int32, v int32) int32                { wr(p); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { wr(p); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { wr(p); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { wr(p); return atomic.SwapUint64(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr        { wr(p); return atomic.SwapUintptr(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(p)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(p)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(p)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(p)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(p)
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(p)
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(p)
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Int32 is the controlled atomic.Int32 (and so on below).
type Int32 struct{ v int32 }

func (a *Int32) Load() int32                    { return LoadInt32(&a.v) }
func (a *Int32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *Int32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *Int32) Swap(v int32) int32             { return SwapInt32(&a.v, v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

type Int64 struct{ v int64 }

func (a *Int64) Load() int64                    { return LoadInt64(&a.v) }
func (a *Int64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *Int64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *Int64) Swap(v int64) int64             { return SwapInt64(&a.v, v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

type Uint32 struct{ v uint32 }

func (a *Uint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *Uint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *Uint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *Uint32) Swap(v uint32) uint32            { return SwapUint32(&a.v, v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

type Uint64 struct{ v uint64 }

func (a *Uint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *Uint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *Uint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *Uint64) Swap(v uint64) uint64            { return SwapUint64(&a.v, v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

type Uintptr struct{ v uintptr }

func (a *Uintptr) Load() uintptr                    { return LoadUintptr(&a.v) }
func (a *Uintptr) Store(v uintptr)                  { StoreUintptr(&a.v, v) }
func (a *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&a.v, d) }
func (a *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&a.v, v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (a *Bool) Load() bool       { return LoadUint32(&a.v) != 0 }
func (a *Bool) Store(v bool)     { StoreUint32(&a.v, b32(v)) }
func (a *Bool) Swap(v bool) bool { return SwapUint32(&a.v, b32(v)) != 0 }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	return CompareAndSwapUint32(&a.v, b32(o), b32(n))
}

type Pointer[T any] struct{ v unsafe.Pointer }

func (a *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&a.v)) }
func (a *Pointer[T]) Store(v *T)   { StorePointer(&a.v, unsafe.Pointer(v)) }
func (a *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&a.v, unsafe.Pointer(v))) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&a.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Value is the controlled atomic.Value.
type Value struct {
	v atomic.Value
}

func (a *Value) Load() any   { rd(&a.v); return a.v.Load() }
func (a *Value) Store(v any) { wr(&a.v); a.v.Store(v) }
func (a *Value) Swap(v any) any {
	wr(&a.v)
	return a.v.Swap(v)
}
func (a *Value) CompareAndSwap(o, n any) bool { wr(&a.v); return a.v.CompareAndSwap(o, n) }
