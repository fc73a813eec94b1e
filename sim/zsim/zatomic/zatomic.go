// Package atomic is the real one with a scheduling point before each operation.
package atomic

import (
	r "sync/atomic"
	"unsafe"

	"JXLMOD/zsim/rt"
)

type Int32 struct{ v r.Int32 }

func (x *Int32) Load() int32                    { rt.SyncPoint(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { rt.SyncPoint(); return x.v.Add(n) }
func AddInt32(p *int32, n int32) int32          { rt.SyncPoint(); return r.AddInt32(p, n) }
func (x *Int32) And(n int32) int32              { rt.SyncPoint(); return x.v.And(n) }
func AndInt32(p *int32, n int32) int32          { rt.SyncPoint(); return r.AndInt32(p, n) }
func (x *Int32) Or(n int32) int32               { rt.SyncPoint(); return x.v.Or(n) }
func OrInt32(p *int32, n int32) int32           { rt.SyncPoint(); return r.OrInt32(p, n) }
func (x *Int32) Swap(n int32) int32             { rt.SyncPoint(); return x.v.Swap(n) }
func SwapInt32(p *int32, n int32) int32         { rt.SyncPoint(); return r.SwapInt32(p, n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.SyncPoint()
	return r.CompareAndSwapInt32(p, o, n)
}
func LoadInt32(p *int32) int32     { rt.SyncPoint(); return r.LoadInt32(p) }
func StoreInt32(p *int32, n int32) { rt.SyncPoint(); r.StoreInt32(p, n) }

type Int64 struct{ v r.Int64 }

func (x *Int64) Load() int64                    { rt.SyncPoint(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { rt.SyncPoint(); return x.v.Add(n) }
func AddInt64(p *int64, n int64) int64          { rt.SyncPoint(); return r.AddInt64(p, n) }
func (x *Int64) And(n int64) int64              { rt.SyncPoint(); return x.v.And(n) }
func AndInt64(p *int64, n int64) int64          { rt.SyncPoint(); return r.AndInt64(p, n) }
func (x *Int64) Or(n int64) int64               { rt.SyncPoint(); return x.v.Or(n) }
func OrInt64(p *int64, n int64) int64           { rt.SyncPoint(); return r.OrInt64(p, n) }
func (x *Int64) Swap(n int64) int64             { rt.SyncPoint(); return x.v.Swap(n) }
func SwapInt64(p *int64, n int64) int64         { rt.SyncPoint(); return r.SwapInt64(p, n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.SyncPoint()
	return r.CompareAndSwapInt64(p, o, n)
}
func LoadInt64(p *int64) int64     { rt.SyncPoint(); return r.LoadInt64(p) }
func StoreInt64(p *int64, n int64) { rt.SyncPoint(); r.StoreInt64(p, n) }

type Uint32 struct{ v r.Uint32 }

func (x *Uint32) Load() uint32                    { rt.SyncPoint(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { rt.SyncPoint(); return x.v.Add(n) }
func AddUint32(p *uint32, n uint32) uint32        { rt.SyncPoint(); return r.AddUint32(p, n) }
func (x *Uint32) And(n uint32) uint32             { rt.SyncPoint(); return x.v.And(n) }
func AndUint32(p *uint32, n uint32) uint32        { rt.SyncPoint(); return r.AndUint32(p, n) }
func (x *Uint32) Or(n uint32) uint32              { rt.SyncPoint(); return x.v.Or(n) }
func OrUint32(p *uint32, n uint32) uint32         { rt.SyncPoint(); return r.OrUint32(p, n) }
func (x *Uint32) Swap(n uint32) uint32            { rt.SyncPoint(); return x.v.Swap(n) }
func SwapUint32(p *uint32, n uint32) uint32       { rt.SyncPoint(); return r.SwapUint32(p, n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.SyncPoint()
	return r.CompareAndSwapUint32(p, o, n)
}
func LoadUint32(p *uint32) uint32     { rt.SyncPoint(); return r.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32) { rt.SyncPoint(); r.StoreUint32(p, n) }

type Uint64 struct{ v r.Uint64 }

func (x *Uint64) Load() uint64                    { rt.SyncPoint(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { rt.SyncPoint(); return x.v.Add(n) }
func AddUint64(p *uint64, n uint64) uint64        { rt.SyncPoint(); return r.AddUint64(p, n) }
func (x *Uint64) And(n uint64) uint64             { rt.SyncPoint(); return x.v.And(n) }
func AndUint64(p *uint64, n uint64) uint64        { rt.SyncPoint(); return r.AndUint64(p, n) }
func (x *Uint64) Or(n uint64) uint64              { rt.SyncPoint(); return x.v.Or(n) }
func OrUint64(p *uint64, n uint64) uint64         { rt.SyncPoint(); return r.OrUint64(p, n) }
func (x *Uint64) Swap(n uint64) uint64            { rt.SyncPoint(); return x.v.Swap(n) }
func SwapUint64(p *uint64, n uint64) uint64       { rt.SyncPoint(); return r.SwapUint64(p, n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.SyncPoint()
	return r.CompareAndSwapUint64(p, o, n)
}
func LoadUint64(p *uint64) uint64     { rt.SyncPoint(); return r.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64) { rt.SyncPoint(); r.StoreUint64(p, n) }

type Uintptr struct{ v r.Uintptr }

func (x *Uintptr) Load() uintptr                    { rt.SyncPoint(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { rt.SyncPoint(); return x.v.Add(n) }
func AddUintptr(p *uintptr, n uintptr) uintptr      { rt.SyncPoint(); return r.AddUintptr(p, n) }
func (x *Uintptr) And(n uintptr) uintptr            { rt.SyncPoint(); return x.v.And(n) }
func AndUintptr(p *uintptr, n uintptr) uintptr      { rt.SyncPoint(); return r.AndUintptr(p, n) }
func (x *Uintptr) Or(n uintptr) uintptr             { rt.SyncPoint(); return x.v.Or(n) }
func OrUintptr(p *uintptr, n uintptr) uintptr       { rt.SyncPoint(); return r.OrUintptr(p, n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { rt.SyncPoint(); return x.v.Swap(n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr     { rt.SyncPoint(); return r.SwapUintptr(p, n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.SyncPoint()
	return r.CompareAndSwapUintptr(p, o, n)
}
func LoadUintptr(p *uintptr) uintptr     { rt.SyncPoint(); return r.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr) { rt.SyncPoint(); r.StoreUintptr(p, n) }

type Bool struct{ v r.Bool }

func (x *Bool) Load() bool                    { rt.SyncPoint(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { rt.SyncPoint(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v r.Value }

func (x *Value) Load() any                    { rt.SyncPoint(); return x.v.Load() }
func (x *Value) Store(n any)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { rt.SyncPoint(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v r.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { rt.SyncPoint(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { rt.SyncPoint(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { rt.SyncPoint(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.SyncPoint(); return r.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { rt.SyncPoint(); r.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	rt.SyncPoint()
	return r.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.SyncPoint()
	return r.CompareAndSwapPointer(p, o, n)
}
