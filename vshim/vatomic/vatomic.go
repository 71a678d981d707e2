// Package vatomic stands in for sync/atomic under the cooperative scheduler.
package vatomic

import (
	"unsafe"

	"vshim/vsched"
)

func AddInt32(p *int32, d int32) int32  { vsched.Atomic(); *p += d; return *p }
func LoadInt32(p *int32) int32          { vsched.Atomic(); return *p }
func StoreInt32(p *int32, v int32)      { vsched.Atomic(); *p = v }
func SwapInt32(p *int32, v int32) int32 { vsched.Atomic(); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }

func AddInt64(p *int64, d int64) int64  { vsched.Atomic(); *p += d; return *p }
func LoadInt64(p *int64) int64          { vsched.Atomic(); return *p }
func StoreInt64(p *int64, v int64)      { vsched.Atomic(); *p = v }
func SwapInt64(p *int64, v int64) int64 { vsched.Atomic(); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }

func AddUint32(p *uint32, d uint32) uint32  { vsched.Atomic(); *p += d; return *p }
func LoadUint32(p *uint32) uint32           { vsched.Atomic(); return *p }
func StoreUint32(p *uint32, v uint32)       { vsched.Atomic(); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { vsched.Atomic(); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }

func AddUint64(p *uint64, d uint64) uint64  { vsched.Atomic(); *p += d; return *p }
func LoadUint64(p *uint64) uint64           { vsched.Atomic(); return *p }
func StoreUint64(p *uint64, v uint64)       { vsched.Atomic(); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { vsched.Atomic(); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { vsched.Atomic(); *p += d; return *p }
func LoadUintptr(p *uintptr) uintptr            { vsched.Atomic(); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { vsched.Atomic(); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsched.Atomic(); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }

type Bool struct{ v bool }

func (x *Bool) Load() bool       { vsched.Atomic(); return x.v }
func (x *Bool) Store(v bool)     { vsched.Atomic(); x.v = v }
func (x *Bool) Swap(v bool) bool { vsched.Atomic(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	vsched.Atomic()
	if x.v == a {
		x.v = b
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { vsched.Atomic(); return x.v }
func (x *Pointer[T]) Store(v *T)   { vsched.Atomic(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { vsched.Atomic(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	vsched.Atomic()
	if x.v == a {
		x.v = b
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any      { vsched.Atomic(); return x.v }
func (x *Value) Store(v any)    { vsched.Atomic(); x.v = v }
func (x *Value) Swap(v any) any { vsched.Atomic(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(a, b any) bool {
	vsched.Atomic()
	if x.v == a {
		x.v = b
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Atomic(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsched.Atomic(); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic()
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vsched.Atomic()
	if *p == a {
		*p = b
		return true
	}
	return false
}
