ints=[("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]
o='''// Package atomic wraps the standard atomics with scheduling points.
// Generated by gen.py.
package atomic

import (
	std "sync/atomic"
	"unsafe"

	"trcsim/rt"
)

func pre()  { rt.AtomicPoint(30) }
func post() { rt.AtomicPoint(31) }

'''
for N,t in ints:
    o+=f'''// {N} wraps the standard type.
type {N} struct{{ v std.{N} }}

func (x *{N}) Load() {t}           {{ pre(); return x.v.Load() }}
func (x *{N}) Store(v {t})         {{ pre(); x.v.Store(v); post() }}
func (x *{N}) Swap(v {t}) {t}      {{ pre(); r := x.v.Swap(v); post(); return r }}
func (x *{N}) Add(d {t}) {t}       {{ pre(); r := x.v.Add(d); post(); return r }}
func (x *{N}) And(m {t}) {t}       {{ pre(); r := x.v.And(m); post(); return r }}
func (x *{N}) Or(m {t}) {t}        {{ pre(); r := x.v.Or(m); post(); return r }}
func (x *{N}) CompareAndSwap(o, n {t}) bool {{ pre(); r := x.v.CompareAndSwap(o, n); post(); return r }}

func Load{N}(p *{t}) {t}           {{ pre(); return std.Load{N}(p) }}
func Store{N}(p *{t}, v {t})       {{ pre(); std.Store{N}(p, v); post() }}
func Swap{N}(p *{t}, v {t}) {t}    {{ pre(); r := std.Swap{N}(p, v); post(); return r }}
func Add{N}(p *{t}, d {t}) {t}     {{ pre(); r := std.Add{N}(p, d); post(); return r }}
func And{N}(p *{t}, d {t}) {t}     {{ pre(); r := std.And{N}(p, d); post(); return r }}
func Or{N}(p *{t}, d {t}) {t}      {{ pre(); r := std.Or{N}(p, d); post(); return r }}
func CompareAndSwap{N}(p *{t}, o, n {t}) bool {{ pre(); r := std.CompareAndSwap{N}(p, o, n); post(); return r }}

'''
o+='''// Bool wraps the standard type.
type Bool struct{ v std.Bool }

func (x *Bool) Load() bool                    { pre(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pre(); x.v.Store(v); post() }
func (x *Bool) Swap(v bool) bool              { pre(); r := x.v.Swap(v); post(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool { pre(); r := x.v.CompareAndSwap(o, n); post(); return r }

// Pointer wraps the standard type.
type Pointer[T any] struct{ v std.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pre(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pre(); x.v.Store(v); post() }
func (x *Pointer[T]) Swap(v *T) *T                { pre(); r := x.v.Swap(v); post(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pre(); r := x.v.CompareAndSwap(o, n); post(); return r }

// Value wraps the standard type.
type Value struct{ v std.Value }

func (x *Value) Load() any                    { pre(); return x.v.Load() }
func (x *Value) Store(v any)                  { pre(); x.v.Store(v); post() }
func (x *Value) Swap(v any) any               { pre(); r := x.v.Swap(v); post(); return r }
func (x *Value) CompareAndSwap(o, n any) bool { pre(); r := x.v.CompareAndSwap(o, n); post(); return r }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pre(); return std.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pre(); std.StorePointer(p, v); post() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre()
	r := std.SwapPointer(p, v)
	post()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pre()
	r := std.CompareAndSwapPointer(p, o, n)
	post()
	return r
}
'''
open('atomic.go','w').write(o)
