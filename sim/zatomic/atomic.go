// Package atomic stands in for sync/atomic in the code under test: the real
// operations, each with a scheduling point before it, so that two of them in
// one statement can be separated.
package atomic

import (
	r "sync/atomic"
	"unsafe"

	"verifsim/rt"
)

type Int32 struct{ v r.Int32 }

func (x *Int32) Load() int32                    { rt.SyncOp(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { rt.SyncOp(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { rt.SyncOp(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { rt.SyncOp(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { rt.SyncOp(); return x.v.Or(m) }

type Int64 struct{ v r.Int64 }

func (x *Int64) Load() int64                    { rt.SyncOp(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { rt.SyncOp(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { rt.SyncOp(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { rt.SyncOp(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { rt.SyncOp(); return x.v.Or(m) }

type Uint32 struct{ v r.Uint32 }

func (x *Uint32) Load() uint32                    { rt.SyncOp(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { rt.SyncOp(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { rt.SyncOp(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { rt.SyncOp(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { rt.SyncOp(); return x.v.Or(m) }

type Uint64 struct{ v r.Uint64 }

func (x *Uint64) Load() uint64                    { rt.SyncOp(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { rt.SyncOp(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { rt.SyncOp(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { rt.SyncOp(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { rt.SyncOp(); return x.v.Or(m) }

type Uintptr struct{ v r.Uintptr }

func (x *Uintptr) Load() uintptr                    { rt.SyncOp(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { rt.SyncOp(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { rt.SyncOp(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { rt.SyncOp(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { rt.SyncOp(); return x.v.Or(m) }

type Bool struct{ v r.Bool }

func (x *Bool) Load() bool                    { rt.SyncOp(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { rt.SyncOp(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v r.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { rt.SyncOp(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { rt.SyncOp(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v r.Value }

func (x *Value) Load() any                    { rt.SyncOp(); return x.v.Load() }
func (x *Value) Store(n any)                  { rt.SyncOp(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { rt.SyncOp(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { rt.SyncOp(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32                         { rt.SyncOp(); return r.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { rt.SyncOp(); return r.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { rt.SyncOp(); return r.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { rt.SyncOp(); return r.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { rt.SyncOp(); return r.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.SyncOp(); return r.LoadPointer(p) }
func StoreInt32(p *int32, n int32)                     { rt.SyncOp(); r.StoreInt32(p, n) }
func StoreInt64(p *int64, n int64)                     { rt.SyncOp(); r.StoreInt64(p, n) }
func StoreUint32(p *uint32, n uint32)                  { rt.SyncOp(); r.StoreUint32(p, n) }
func StoreUint64(p *uint64, n uint64)                  { rt.SyncOp(); r.StoreUint64(p, n) }
func StoreUintptr(p *uintptr, n uintptr)               { rt.SyncOp(); r.StoreUintptr(p, n) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { rt.SyncOp(); r.StorePointer(p, n) }
func SwapInt32(p *int32, n int32) int32                { rt.SyncOp(); return r.SwapInt32(p, n) }
func SwapInt64(p *int64, n int64) int64                { rt.SyncOp(); return r.SwapInt64(p, n) }
func SwapUint32(p *uint32, n uint32) uint32            { rt.SyncOp(); return r.SwapUint32(p, n) }
func SwapUint64(p *uint64, n uint64) uint64            { rt.SyncOp(); return r.SwapUint64(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr        { rt.SyncOp(); return r.SwapUintptr(p, n) }
func AddInt32(p *int32, d int32) int32                 { rt.SyncOp(); return r.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { rt.SyncOp(); return r.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { rt.SyncOp(); return r.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { rt.SyncOp(); return r.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { rt.SyncOp(); return r.AddUintptr(p, d) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.SyncOp()
	return r.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.SyncOp()
	return r.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.SyncOp()
	return r.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.SyncOp()
	return r.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.SyncOp()
	return r.CompareAndSwapUintptr(p, o, n)
}

func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	rt.SyncOp()
	return r.SwapPointer(p, n)
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.SyncOp()
	return r.CompareAndSwapPointer(p, o, n)
}

func AndInt32(p *int32, m int32) int32     { rt.SyncOp(); return r.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32      { rt.SyncOp(); return r.OrInt32(p, m) }
func AndUint32(p *uint32, m uint32) uint32 { rt.SyncOp(); return r.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { rt.SyncOp(); return r.OrUint32(p, m) }
func AndInt64(p *int64, m int64) int64     { rt.SyncOp(); return r.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64      { rt.SyncOp(); return r.OrInt64(p, m) }
func AndUint64(p *uint64, m uint64) uint64 { rt.SyncOp(); return r.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { rt.SyncOp(); return r.OrUint64(p, m) }
