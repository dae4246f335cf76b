// Package atomic mirrors sync/atomic; every operation is a scheduling point.
package atomic

import (
	"mcverif/vs"
	"sync/atomic"
	"unsafe"
)

func LoadInt32(p *int32) int32          { vs.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vs.Point(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { vs.Point(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { vs.Point(); return atomic.SwapInt32(p, v) }
func AndInt32(p *int32, v int32) int32  { vs.Point(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32   { vs.Point(); return atomic.OrInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vs.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vs.Point(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { vs.Point(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { vs.Point(); return x.v.Swap(v) }
func (x *Int32) And(v int32) int32              { vs.Point(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { vs.Point(); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { vs.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vs.Point(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { vs.Point(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { vs.Point(); return atomic.SwapInt64(p, v) }
func AndInt64(p *int64, v int64) int64  { vs.Point(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64   { vs.Point(); return atomic.OrInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vs.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vs.Point(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { vs.Point(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { vs.Point(); return x.v.Swap(v) }
func (x *Int64) And(v int64) int64              { vs.Point(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { vs.Point(); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { vs.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vs.Point(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { vs.Point(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { vs.Point(); return atomic.SwapUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { vs.Point(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { vs.Point(); return atomic.OrUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vs.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vs.Point(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { vs.Point(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { vs.Point(); return x.v.Swap(v) }
func (x *Uint32) And(v uint32) uint32             { vs.Point(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { vs.Point(); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { vs.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vs.Point(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { vs.Point(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { vs.Point(); return atomic.SwapUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64  { vs.Point(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64   { vs.Point(); return atomic.OrUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vs.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vs.Point(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { vs.Point(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { vs.Point(); return x.v.Swap(v) }
func (x *Uint64) And(v uint64) uint64             { vs.Point(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { vs.Point(); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { vs.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vs.Point(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { vs.Point(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vs.Point(); return atomic.SwapUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr  { vs.Point(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr   { vs.Point(); return atomic.OrUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vs.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vs.Point(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { vs.Point(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vs.Point(); return x.v.Swap(v) }
func (x *Uintptr) And(v uintptr) uintptr            { vs.Point(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { vs.Point(); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vs.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vs.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vs.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vs.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vs.Point(); return x.v.Load() }
func (x *Value) Store(v any)                  { vs.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vs.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vs.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vs.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vs.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vs.Point(); return x.v.CompareAndSwap(o, n) }
