// Package atomic wraps the standard atomics with scheduling points.
// Generated by gen.py.
package atomic

import (
	std "sync/atomic"
	"unsafe"

	"trcsim/rt"
)

func pre()  { rt.AtomicPoint(30) }
func post() { rt.AtomicPoint(31) }

// Int32 wraps the standard type.
type Int32 struct{ v std.Int32 }

func (x *Int32) Load() int32        { pre(); return x.v.Load() }
func (x *Int32) Store(v int32)      { pre(); x.v.Store(v); post() }
func (x *Int32) Swap(v int32) int32 { pre(); r := x.v.Swap(v); post(); return r }
func (x *Int32) Add(d int32) int32  { pre(); r := x.v.Add(d); post(); return r }
func (x *Int32) And(m int32) int32  { pre(); r := x.v.And(m); post(); return r }
func (x *Int32) Or(m int32) int32   { pre(); r := x.v.Or(m); post(); return r }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

func LoadInt32(p *int32) int32          { pre(); return std.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pre(); std.StoreInt32(p, v); post() }
func SwapInt32(p *int32, v int32) int32 { pre(); r := std.SwapInt32(p, v); post(); return r }
func AddInt32(p *int32, d int32) int32  { pre(); r := std.AddInt32(p, d); post(); return r }
func AndInt32(p *int32, d int32) int32  { pre(); r := std.AndInt32(p, d); post(); return r }
func OrInt32(p *int32, d int32) int32   { pre(); r := std.OrInt32(p, d); post(); return r }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pre()
	r := std.CompareAndSwapInt32(p, o, n)
	post()
	return r
}

// Int64 wraps the standard type.
type Int64 struct{ v std.Int64 }

func (x *Int64) Load() int64        { pre(); return x.v.Load() }
func (x *Int64) Store(v int64)      { pre(); x.v.Store(v); post() }
func (x *Int64) Swap(v int64) int64 { pre(); r := x.v.Swap(v); post(); return r }
func (x *Int64) Add(d int64) int64  { pre(); r := x.v.Add(d); post(); return r }
func (x *Int64) And(m int64) int64  { pre(); r := x.v.And(m); post(); return r }
func (x *Int64) Or(m int64) int64   { pre(); r := x.v.Or(m); post(); return r }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

func LoadInt64(p *int64) int64          { pre(); return std.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pre(); std.StoreInt64(p, v); post() }
func SwapInt64(p *int64, v int64) int64 { pre(); r := std.SwapInt64(p, v); post(); return r }
func AddInt64(p *int64, d int64) int64  { pre(); r := std.AddInt64(p, d); post(); return r }
func AndInt64(p *int64, d int64) int64  { pre(); r := std.AndInt64(p, d); post(); return r }
func OrInt64(p *int64, d int64) int64   { pre(); r := std.OrInt64(p, d); post(); return r }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pre()
	r := std.CompareAndSwapInt64(p, o, n)
	post()
	return r
}

// Uint32 wraps the standard type.
type Uint32 struct{ v std.Uint32 }

func (x *Uint32) Load() uint32         { pre(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { pre(); x.v.Store(v); post() }
func (x *Uint32) Swap(v uint32) uint32 { pre(); r := x.v.Swap(v); post(); return r }
func (x *Uint32) Add(d uint32) uint32  { pre(); r := x.v.Add(d); post(); return r }
func (x *Uint32) And(m uint32) uint32  { pre(); r := x.v.And(m); post(); return r }
func (x *Uint32) Or(m uint32) uint32   { pre(); r := x.v.Or(m); post(); return r }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

func LoadUint32(p *uint32) uint32           { pre(); return std.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pre(); std.StoreUint32(p, v); post() }
func SwapUint32(p *uint32, v uint32) uint32 { pre(); r := std.SwapUint32(p, v); post(); return r }
func AddUint32(p *uint32, d uint32) uint32  { pre(); r := std.AddUint32(p, d); post(); return r }
func AndUint32(p *uint32, d uint32) uint32  { pre(); r := std.AndUint32(p, d); post(); return r }
func OrUint32(p *uint32, d uint32) uint32   { pre(); r := std.OrUint32(p, d); post(); return r }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pre()
	r := std.CompareAndSwapUint32(p, o, n)
	post()
	return r
}

// Uint64 wraps the standard type.
type Uint64 struct{ v std.Uint64 }

func (x *Uint64) Load() uint64         { pre(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { pre(); x.v.Store(v); post() }
func (x *Uint64) Swap(v uint64) uint64 { pre(); r := x.v.Swap(v); post(); return r }
func (x *Uint64) Add(d uint64) uint64  { pre(); r := x.v.Add(d); post(); return r }
func (x *Uint64) And(m uint64) uint64  { pre(); r := x.v.And(m); post(); return r }
func (x *Uint64) Or(m uint64) uint64   { pre(); r := x.v.Or(m); post(); return r }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

func LoadUint64(p *uint64) uint64           { pre(); return std.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pre(); std.StoreUint64(p, v); post() }
func SwapUint64(p *uint64, v uint64) uint64 { pre(); r := std.SwapUint64(p, v); post(); return r }
func AddUint64(p *uint64, d uint64) uint64  { pre(); r := std.AddUint64(p, d); post(); return r }
func AndUint64(p *uint64, d uint64) uint64  { pre(); r := std.AndUint64(p, d); post(); return r }
func OrUint64(p *uint64, d uint64) uint64   { pre(); r := std.OrUint64(p, d); post(); return r }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pre()
	r := std.CompareAndSwapUint64(p, o, n)
	post()
	return r
}

// Uintptr wraps the standard type.
type Uintptr struct{ v std.Uintptr }

func (x *Uintptr) Load() uintptr          { pre(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pre(); x.v.Store(v); post() }
func (x *Uintptr) Swap(v uintptr) uintptr { pre(); r := x.v.Swap(v); post(); return r }
func (x *Uintptr) Add(d uintptr) uintptr  { pre(); r := x.v.Add(d); post(); return r }
func (x *Uintptr) And(m uintptr) uintptr  { pre(); r := x.v.And(m); post(); return r }
func (x *Uintptr) Or(m uintptr) uintptr   { pre(); r := x.v.Or(m); post(); return r }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

func LoadUintptr(p *uintptr) uintptr            { pre(); return std.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pre(); std.StoreUintptr(p, v); post() }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pre(); r := std.SwapUintptr(p, v); post(); return r }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pre(); r := std.AddUintptr(p, d); post(); return r }
func AndUintptr(p *uintptr, d uintptr) uintptr  { pre(); r := std.AndUintptr(p, d); post(); return r }
func OrUintptr(p *uintptr, d uintptr) uintptr   { pre(); r := std.OrUintptr(p, d); post(); return r }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pre()
	r := std.CompareAndSwapUintptr(p, o, n)
	post()
	return r
}

// Bool wraps the standard type.
type Bool struct{ v std.Bool }

func (x *Bool) Load() bool                    { pre(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pre(); x.v.Store(v); post() }
func (x *Bool) Swap(v bool) bool              { pre(); r := x.v.Swap(v); post(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool { pre(); r := x.v.CompareAndSwap(o, n); post(); return r }

// Pointer wraps the standard type.
type Pointer[T any] struct{ v std.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pre(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pre(); x.v.Store(v); post() }
func (x *Pointer[T]) Swap(v *T) *T { pre(); r := x.v.Swap(v); post(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pre()
	r := x.v.CompareAndSwap(o, n)
	post()
	return r
}

// Value wraps the standard type.
type Value struct{ v std.Value }

func (x *Value) Load() any                    { pre(); return x.v.Load() }
func (x *Value) Store(v any)                  { pre(); x.v.Store(v); post() }
func (x *Value) Swap(v any) any               { pre(); r := x.v.Swap(v); post(); return r }
func (x *Value) CompareAndSwap(o, n any) bool { pre(); r := x.v.CompareAndSwap(o, n); post(); return r }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pre(); return std.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pre(); std.StorePointer(p, v); post() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre()
	r := std.SwapPointer(p, v)
	post()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pre()
	r := std.CompareAndSwapPointer(p, o, n)
	post()
	return r
}
