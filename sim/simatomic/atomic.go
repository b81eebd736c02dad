//go:build go1.21

// Package simatomic replaces sync/atomic in the code under test: a scheduling
// point before every operation, then the real operation.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"VERIFMOD/verifsim"
)

func AddInt32(p *int32, d int32) int32 {
	verifsim.Y(-1)
	r := atomic.AddInt32(p, d)
	verifsim.Progress()
	return r
}
func AndInt32(p *int32, d int32) int32 { verifsim.Y(-1); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { verifsim.Y(-1); return atomic.OrInt32(p, d) }
func AddInt64(p *int64, d int64) int64 {
	verifsim.Y(-1)
	r := atomic.AddInt64(p, d)
	verifsim.Progress()
	return r
}
func AndInt64(p *int64, d int64) int64 { verifsim.Y(-1); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { verifsim.Y(-1); return atomic.OrInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 {
	verifsim.Y(-1)
	r := atomic.AddUint32(p, d)
	verifsim.Progress()
	return r
}
func AndUint32(p *uint32, d uint32) uint32 { verifsim.Y(-1); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { verifsim.Y(-1); return atomic.OrUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 {
	verifsim.Y(-1)
	r := atomic.AddUint64(p, d)
	verifsim.Progress()
	return r
}
func AndUint64(p *uint64, d uint64) uint64 { verifsim.Y(-1); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { verifsim.Y(-1); return atomic.OrUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	verifsim.Y(-1)
	r := atomic.AddUintptr(p, d)
	verifsim.Progress()
	return r
}
func AndUintptr(p *uintptr, d uintptr) uintptr { verifsim.Y(-1); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr  { verifsim.Y(-1); return atomic.OrUintptr(p, d) }
func LoadInt32(p *int32) int32                 { verifsim.Y(-1); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)             { verifsim.Y(-1); atomic.StoreInt32(p, v); verifsim.Progress() }
func SwapInt32(p *int32, v int32) int32        { verifsim.Y(-1); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func LoadInt64(p *int64) int64          { verifsim.Y(-1); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { verifsim.Y(-1); atomic.StoreInt64(p, v); verifsim.Progress() }
func SwapInt64(p *int64, v int64) int64 { verifsim.Y(-1); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func LoadUint32(p *uint32) uint32           { verifsim.Y(-1); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { verifsim.Y(-1); atomic.StoreUint32(p, v); verifsim.Progress() }
func SwapUint32(p *uint32, v uint32) uint32 { verifsim.Y(-1); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func LoadUint64(p *uint64) uint64           { verifsim.Y(-1); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { verifsim.Y(-1); atomic.StoreUint64(p, v); verifsim.Progress() }
func SwapUint64(p *uint64, v uint64) uint64 { verifsim.Y(-1); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadUintptr(p *uintptr) uintptr { verifsim.Y(-1); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) {
	verifsim.Y(-1)
	atomic.StoreUintptr(p, v)
	verifsim.Progress()
}
func SwapUintptr(p *uintptr, v uintptr) uintptr { verifsim.Y(-1); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { verifsim.Y(-1); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	verifsim.Y(-1)
	atomic.StorePointer(p, v)
	verifsim.Progress()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	verifsim.Y(-1)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	verifsim.Y(-1)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32 { verifsim.Y(-1); r := x.v.Add(d); verifsim.Progress(); return r }
func (x *Int32) And(d int32) int32 { verifsim.Y(-1); return x.v.And(d) }
func (x *Int32) Or(d int32) int32  { verifsim.Y(-1); return x.v.Or(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64 { verifsim.Y(-1); r := x.v.Add(d); verifsim.Progress(); return r }
func (x *Int64) And(d int64) int64 { verifsim.Y(-1); return x.v.And(d) }
func (x *Int64) Or(d int64) int64  { verifsim.Y(-1); return x.v.Or(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32 { verifsim.Y(-1); r := x.v.Add(d); verifsim.Progress(); return r }
func (x *Uint32) And(d uint32) uint32 { verifsim.Y(-1); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32  { verifsim.Y(-1); return x.v.Or(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64 { verifsim.Y(-1); r := x.v.Add(d); verifsim.Progress(); return r }
func (x *Uint64) And(d uint64) uint64 { verifsim.Y(-1); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64  { verifsim.Y(-1); return x.v.Or(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr {
	verifsim.Y(-1)
	r := x.v.Add(d)
	verifsim.Progress()
	return r
}
func (x *Uintptr) And(d uintptr) uintptr            { verifsim.Y(-1); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { verifsim.Y(-1); return x.v.Or(d) }
func (x *Int32) Load() int32                        { verifsim.Y(-1); return x.v.Load() }
func (x *Int32) Store(v int32)                      { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Int32) Swap(v int32) int32                 { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool     { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Load() int64                        { verifsim.Y(-1); return x.v.Load() }
func (x *Int64) Store(v int64)                      { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Int64) Swap(v int64) int64                 { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool     { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Load() uint32                      { verifsim.Y(-1); return x.v.Load() }
func (x *Uint32) Store(v uint32)                    { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Uint32) Swap(v uint32) uint32              { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool   { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Load() uint64                      { verifsim.Y(-1); return x.v.Load() }
func (x *Uint64) Store(v uint64)                    { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Uint64) Swap(v uint64) uint64              { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool   { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Load() uintptr                    { verifsim.Y(-1); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Uintptr) Swap(v uintptr) uintptr           { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { verifsim.Y(-1); return x.v.Load() }
func (x *Bool) Store(v bool)                  { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Bool) Swap(v bool) bool              { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { verifsim.Y(-1); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Pointer[T]) Swap(v *T) *T                { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { verifsim.Y(-1); return x.v.Load() }
func (x *Value) Store(v any)                  { verifsim.Y(-1); x.v.Store(v); verifsim.Progress() }
func (x *Value) Swap(v any) any               { verifsim.Y(-1); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { verifsim.Y(-1); return x.v.CompareAndSwap(o, n) }
