package vatomic

import (
	x "sync/atomic"
	"unsafe"

	"github.com/yusank/godis/zzverif/vsched"
)

func pt() { vsched.Point("atomic") }

func AddInt32(p *int32, d int32) int32              { pt(); return x.AddInt32(p, d) }
func LoadInt32(p *int32) int32                      { pt(); return x.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); x.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return x.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return x.CompareAndSwapInt32(p, o, n) }
func AndInt32(p *int32, m int32) int32              { pt(); return x.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32               { pt(); return x.OrInt32(p, m) }

type Int32 struct{ v x.Int32 }

func (a *Int32) Load() int32                    { pt(); return a.v.Load() }
func (a *Int32) Store(v int32)                  { pt(); a.v.Store(v) }
func (a *Int32) Swap(v int32) int32             { pt(); return a.v.Swap(v) }
func (a *Int32) Add(d int32) int32              { pt(); return a.v.Add(d) }
func (a *Int32) And(d int32) int32              { pt(); return a.v.And(d) }
func (a *Int32) Or(d int32) int32               { pt(); return a.v.Or(d) }
func (a *Int32) CompareAndSwap(o, n int32) bool { pt(); return a.v.CompareAndSwap(o, n) }

func AddInt64(p *int64, d int64) int64              { pt(); return x.AddInt64(p, d) }
func LoadInt64(p *int64) int64                      { pt(); return x.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); x.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return x.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return x.CompareAndSwapInt64(p, o, n) }
func AndInt64(p *int64, m int64) int64              { pt(); return x.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64               { pt(); return x.OrInt64(p, m) }

type Int64 struct{ v x.Int64 }

func (a *Int64) Load() int64                    { pt(); return a.v.Load() }
func (a *Int64) Store(v int64)                  { pt(); a.v.Store(v) }
func (a *Int64) Swap(v int64) int64             { pt(); return a.v.Swap(v) }
func (a *Int64) Add(d int64) int64              { pt(); return a.v.Add(d) }
func (a *Int64) And(d int64) int64              { pt(); return a.v.And(d) }
func (a *Int64) Or(d int64) int64               { pt(); return a.v.Or(d) }
func (a *Int64) CompareAndSwap(o, n int64) bool { pt(); return a.v.CompareAndSwap(o, n) }

func AddUint32(p *uint32, d uint32) uint32             { pt(); return x.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32                      { pt(); return x.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)                  { pt(); x.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { pt(); return x.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { pt(); return x.CompareAndSwapUint32(p, o, n) }
func AndUint32(p *uint32, m uint32) uint32             { pt(); return x.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32              { pt(); return x.OrUint32(p, m) }

type Uint32 struct{ v x.Uint32 }

func (a *Uint32) Load() uint32                    { pt(); return a.v.Load() }
func (a *Uint32) Store(v uint32)                  { pt(); a.v.Store(v) }
func (a *Uint32) Swap(v uint32) uint32            { pt(); return a.v.Swap(v) }
func (a *Uint32) Add(d uint32) uint32             { pt(); return a.v.Add(d) }
func (a *Uint32) And(d uint32) uint32             { pt(); return a.v.And(d) }
func (a *Uint32) Or(d uint32) uint32              { pt(); return a.v.Or(d) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return a.v.CompareAndSwap(o, n) }

func AddUint64(p *uint64, d uint64) uint64             { pt(); return x.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64                      { pt(); return x.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)                  { pt(); x.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { pt(); return x.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { pt(); return x.CompareAndSwapUint64(p, o, n) }
func AndUint64(p *uint64, m uint64) uint64             { pt(); return x.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64              { pt(); return x.OrUint64(p, m) }

type Uint64 struct{ v x.Uint64 }

func (a *Uint64) Load() uint64                    { pt(); return a.v.Load() }
func (a *Uint64) Store(v uint64)                  { pt(); a.v.Store(v) }
func (a *Uint64) Swap(v uint64) uint64            { pt(); return a.v.Swap(v) }
func (a *Uint64) Add(d uint64) uint64             { pt(); return a.v.Add(d) }
func (a *Uint64) And(d uint64) uint64             { pt(); return a.v.And(d) }
func (a *Uint64) Or(d uint64) uint64              { pt(); return a.v.Or(d) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return a.v.CompareAndSwap(o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(); return x.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { pt(); return x.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); x.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return x.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return x.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { pt(); return x.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { pt(); return x.OrUintptr(p, m) }

type Uintptr struct{ v x.Uintptr }

func (a *Uintptr) Load() uintptr                    { pt(); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)                  { pt(); a.v.Store(v) }
func (a *Uintptr) Swap(v uintptr) uintptr           { pt(); return a.v.Swap(v) }
func (a *Uintptr) Add(d uintptr) uintptr            { pt(); return a.v.Add(d) }
func (a *Uintptr) And(d uintptr) uintptr            { pt(); return a.v.And(d) }
func (a *Uintptr) Or(d uintptr) uintptr             { pt(); return a.v.Or(d) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return a.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return x.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); x.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return x.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return x.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v x.Bool }

func (a *Bool) Load() bool                    { pt(); return a.v.Load() }
func (a *Bool) Store(v bool)                  { pt(); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool              { pt(); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { pt(); return a.v.CompareAndSwap(o, n) }

type Value struct{ v x.Value }

func (a *Value) Load() any                    { pt(); return a.v.Load() }
func (a *Value) Store(v any)                  { pt(); a.v.Store(v) }
func (a *Value) Swap(v any) any               { pt(); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool { pt(); return a.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v x.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { pt(); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)                  { pt(); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T                { pt(); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return a.v.CompareAndSwap(o, n) }
