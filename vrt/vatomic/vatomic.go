// Package vatomic stands in for package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/vrt"
)

// All package-level functions share one object; they are rare.
var global vrt.Obj

func pt(w bool) { vrt.Touch("atomic", &global, w) }

type Bool struct {
	o vrt.Obj
	v bool
}

func (x *Bool) Load() bool   { vrt.Touch("atomic load", &x.o, false); return x.v }
func (x *Bool) Store(v bool) { vrt.Touch("atomic store", &x.o, true); x.v = v }
func (x *Bool) Swap(v bool) bool {
	vrt.Touch("atomic swap", &x.o, true)
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vrt.Touch("atomic cas", &x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[T integer] struct {
	o vrt.Obj
	v T
}

func (x *num[T]) Load() T   { vrt.Touch("atomic load", &x.o, false); return x.v }
func (x *num[T]) Store(v T) { vrt.Touch("atomic store", &x.o, true); x.v = v }
func (x *num[T]) Swap(v T) T {
	vrt.Touch("atomic swap", &x.o, true)
	o := x.v
	x.v = v
	return o
}
func (x *num[T]) CompareAndSwap(o, n T) bool {
	vrt.Touch("atomic cas", &x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *num[T]) Add(d T) T { vrt.Touch("atomic add", &x.o, true); x.v += d; return x.v }
func (x *num[T]) And(m T) T { vrt.Touch("atomic and", &x.o, true); o := x.v; x.v &= m; return o }
func (x *num[T]) Or(m T) T  { vrt.Touch("atomic or", &x.o, true); o := x.v; x.v |= m; return o }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Pointer[T any] struct {
	o vrt.Obj
	v *T
}

func (x *Pointer[T]) Load() *T   { vrt.Touch("atomic load", &x.o, false); return x.v }
func (x *Pointer[T]) Store(v *T) { vrt.Touch("atomic store", &x.o, true); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T {
	vrt.Touch("atomic swap", &x.o, true)
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vrt.Touch("atomic cas", &x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	o vrt.Obj
	v any
}

func (x *Value) Load() any { vrt.Touch("atomic load", &x.o, false); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	vrt.Touch("atomic store", &x.o, true)
	x.v = v
}
func (x *Value) Swap(v any) any {
	vrt.Touch("atomic swap", &x.o, true)
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	vrt.Touch("atomic cas", &x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                 { pt(true); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { pt(true); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { pt(true); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { pt(true); return atomic.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { pt(true); return atomic.AddUintptr(p, d) }
func LoadInt32(p *int32) int32                         { pt(false); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { pt(false); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { pt(false); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { pt(false); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { pt(false); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(false); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { pt(true); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { pt(true); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { pt(true); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { pt(true); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { pt(true); atomic.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(true); atomic.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { pt(true); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { pt(true); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { pt(true); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { pt(true); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(true)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(true)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(true)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(true)
	return atomic.CompareAndSwapUint64(p, o, n)
}
