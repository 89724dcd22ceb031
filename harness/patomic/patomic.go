// Package patomic stands in for sync/atomic in instrumented packages: each
// operation is one step of the scheduler of nd.Par.
package patomic

import (
	"unsafe"

	"github.com/iand/starbow/internal/zzverif/nd"
)

func LoadInt32(p *int32) int32 {
	nd.Gate(20, 0, p)
	return *p
}

func StoreInt32(p *int32, v int32) {
	nd.Gate(21, 1, p)
	*p = v
}

func AddInt32(p *int32, d int32) int32 {
	nd.Gate(22, 1, p)
	*p += d
	return *p
}

func SwapInt32(p *int32, v int32) int32 {
	nd.Gate(23, 1, p)
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	nd.Gate(24, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64 {
	nd.Gate(25, 0, p)
	return *p
}

func StoreInt64(p *int64, v int64) {
	nd.Gate(26, 1, p)
	*p = v
}

func AddInt64(p *int64, d int64) int64 {
	nd.Gate(27, 1, p)
	*p += d
	return *p
}

func SwapInt64(p *int64, v int64) int64 {
	nd.Gate(28, 1, p)
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt64(p *int64, o, n int64) bool {
	nd.Gate(29, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32 {
	nd.Gate(30, 0, p)
	return *p
}

func StoreUint32(p *uint32, v uint32) {
	nd.Gate(31, 1, p)
	*p = v
}

func AddUint32(p *uint32, d uint32) uint32 {
	nd.Gate(32, 1, p)
	*p += d
	return *p
}

func SwapUint32(p *uint32, v uint32) uint32 {
	nd.Gate(33, 1, p)
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	nd.Gate(34, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64 {
	nd.Gate(35, 0, p)
	return *p
}

func StoreUint64(p *uint64, v uint64) {
	nd.Gate(36, 1, p)
	*p = v
}

func AddUint64(p *uint64, d uint64) uint64 {
	nd.Gate(37, 1, p)
	*p += d
	return *p
}

func SwapUint64(p *uint64, v uint64) uint64 {
	nd.Gate(38, 1, p)
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	nd.Gate(39, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr {
	nd.Gate(40, 0, p)
	return *p
}

func StoreUintptr(p *uintptr, v uintptr) {
	nd.Gate(41, 1, p)
	*p = v
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	nd.Gate(42, 1, p)
	*p += d
	return *p
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	nd.Gate(43, 1, p)
	o := *p
	*p = v
	return o
}

func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	nd.Gate(44, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	nd.Gate(45, 0, p)
	return *p
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	nd.Gate(46, 1, p)
	*p = v
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	nd.Gate(47, 1, p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct{ v bool }

func (x *Bool) Load() bool {
	nd.Gate(48, 0, &x.v)
	return x.v
}

func (x *Bool) Store(v bool) {
	nd.Gate(49, 1, &x.v)
	x.v = v
}

func (x *Bool) Swap(v bool) bool {
	nd.Gate(50, 1, &x.v)
	o := x.v
	x.v = v
	return o
}

func (x *Bool) CompareAndSwap(o, n bool) bool {
	nd.Gate(51, 1, &x.v)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{} {
	nd.Gate(52, 0, &x.v)
	return x.v
}

func (x *Value) Store(v interface{}) {
	nd.Gate(53, 1, &x.v)
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
