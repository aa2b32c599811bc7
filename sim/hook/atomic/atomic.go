// Package atomic replaces the standard package in the simulated copies: the
// same operations, each seen by the simulator as synchronisation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif.local/simhook"
)

func sync() { simhook.Atomics.Both() }

func AddInt32(p *int32, d int32) int32              { sync(); return real.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32              { sync(); return real.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32               { sync(); return real.OrInt32(p, m) }
func LoadInt32(p *int32) int32                      { sync(); return real.LoadInt32(p) }
func StoreInt32(p *int32, x int32)                  { sync(); real.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32             { sync(); return real.SwapInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { sync(); return real.CompareAndSwapInt32(p, o, n) }

// Int32 is atomic.Int32.
type Int32 struct{ v real.Int32 }

func (x *Int32) Add(d int32) int32              { sync(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { sync(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { sync(); return x.v.Or(m) }
func (x *Int32) Load() int32                    { sync(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { sync(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { sync(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sync(); return x.v.CompareAndSwap(o, n) }

func AddInt64(p *int64, d int64) int64              { sync(); return real.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64              { sync(); return real.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64               { sync(); return real.OrInt64(p, m) }
func LoadInt64(p *int64) int64                      { sync(); return real.LoadInt64(p) }
func StoreInt64(p *int64, x int64)                  { sync(); real.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64             { sync(); return real.SwapInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { sync(); return real.CompareAndSwapInt64(p, o, n) }

// Int64 is atomic.Int64.
type Int64 struct{ v real.Int64 }

func (x *Int64) Add(d int64) int64              { sync(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { sync(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { sync(); return x.v.Or(m) }
func (x *Int64) Load() int64                    { sync(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { sync(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { sync(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sync(); return x.v.CompareAndSwap(o, n) }

func AddUint32(p *uint32, d uint32) uint32  { sync(); return real.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32  { sync(); return real.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { sync(); return real.OrUint32(p, m) }
func LoadUint32(p *uint32) uint32           { sync(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { sync(); real.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { sync(); return real.SwapUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sync()
	return real.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { sync(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { sync(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { sync(); return x.v.Or(m) }
func (x *Uint32) Load() uint32                    { sync(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { sync(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { sync(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sync(); return x.v.CompareAndSwap(o, n) }

func AddUint64(p *uint64, d uint64) uint64  { sync(); return real.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64  { sync(); return real.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64   { sync(); return real.OrUint64(p, m) }
func LoadUint64(p *uint64) uint64           { sync(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { sync(); real.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { sync(); return real.SwapUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sync()
	return real.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { sync(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { sync(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { sync(); return x.v.Or(m) }
func (x *Uint64) Load() uint64                    { sync(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { sync(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { sync(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sync(); return x.v.CompareAndSwap(o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { sync(); return real.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr  { sync(); return real.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr   { sync(); return real.OrUintptr(p, m) }
func LoadUintptr(p *uintptr) uintptr            { sync(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr)        { sync(); real.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr { sync(); return real.SwapUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sync()
	return real.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { sync(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { sync(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { sync(); return x.v.Or(m) }
func (x *Uintptr) Load() uintptr                    { sync(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { sync(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { sync(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sync(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sync(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) { sync(); real.StorePointer(p, x) }
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	sync()
	return real.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sync()
	return real.CompareAndSwapPointer(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { sync(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { sync(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { sync(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sync(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sync(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { sync(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { sync(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sync(); return x.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v real.Value }

func (x *Value) Load() interface{}                    { sync(); return x.v.Load() }
func (x *Value) Store(n interface{})                  { sync(); x.v.Store(n) }
func (x *Value) Swap(n interface{}) interface{}       { sync(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { sync(); return x.v.CompareAndSwap(o, n) }
