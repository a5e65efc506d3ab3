//go:build go1.21

// Package vatomic stands in for sync/atomic: one operation runs at a time.
package vatomic

// Value holds anything.
type Value struct{ v interface{} }

func (v *Value) Load() interface{}   { return v.v }
func (v *Value) Store(x interface{}) { v.v = x }
func (v *Value) Swap(x interface{}) interface{} {
	o := v.v
	v.v = x
	return o
}
func (v *Value) CompareAndSwap(old, x interface{}) bool {
	if v.v != old {
		return false
	}
	v.v = x
	return true
}

// Bool is a flag.
type Bool struct{ v bool }

func (b *Bool) Load() bool   { return b.v }
func (b *Bool) Store(x bool) { b.v = x }
func (b *Bool) Swap(x bool) bool {
	o := b.v
	b.v = x
	return o
}
func (b *Bool) CompareAndSwap(old, x bool) bool {
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

// Pointer is a pointer.
type Pointer[T any] struct{ p *T }

func (p *Pointer[T]) Load() *T   { return p.p }
func (p *Pointer[T]) Store(x *T) { p.p = x }
func (p *Pointer[T]) Swap(x *T) *T {
	o := p.p
	p.p = x
	return o
}
func (p *Pointer[T]) CompareAndSwap(old, x *T) bool {
	if p.p != old {
		return false
	}
	p.p = x
	return true
}

func LoadInt32(p *int32) int32     { return *p }
func StoreInt32(p *int32, v int32) { *p = v }
func AddInt32(p *int32, d int32) int32 {
	*p += d
	return *p
}
func SwapInt32(p *int32, v int32) int32 {
	o := *p
	*p = v
	return o
}
func CompareAndSwapInt32(p *int32, old, v int32) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Int32 is a number.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { return x.v }
func (x *Int32) Store(v int32)      { x.v = v }
func (x *Int32) Add(d int32) int32  { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(old, v int32) bool {
	return CompareAndSwapInt32(&x.v, old, v)
}

func LoadInt64(p *int64) int64     { return *p }
func StoreInt64(p *int64, v int64) { *p = v }
func AddInt64(p *int64, d int64) int64 {
	*p += d
	return *p
}
func SwapInt64(p *int64, v int64) int64 {
	o := *p
	*p = v
	return o
}
func CompareAndSwapInt64(p *int64, old, v int64) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Int64 is a number.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { return x.v }
func (x *Int64) Store(v int64)      { x.v = v }
func (x *Int64) Add(d int64) int64  { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(old, v int64) bool {
	return CompareAndSwapInt64(&x.v, old, v)
}

func LoadUint32(p *uint32) uint32     { return *p }
func StoreUint32(p *uint32, v uint32) { *p = v }
func AddUint32(p *uint32, d uint32) uint32 {
	*p += d
	return *p
}
func SwapUint32(p *uint32, v uint32) uint32 {
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint32(p *uint32, old, v uint32) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uint32 is a number.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { return x.v }
func (x *Uint32) Store(v uint32)       { x.v = v }
func (x *Uint32) Add(d uint32) uint32  { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(old, v uint32) bool {
	return CompareAndSwapUint32(&x.v, old, v)
}

func LoadUint64(p *uint64) uint64     { return *p }
func StoreUint64(p *uint64, v uint64) { *p = v }
func AddUint64(p *uint64, d uint64) uint64 {
	*p += d
	return *p
}
func SwapUint64(p *uint64, v uint64) uint64 {
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint64(p *uint64, old, v uint64) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uint64 is a number.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { return x.v }
func (x *Uint64) Store(v uint64)       { x.v = v }
func (x *Uint64) Add(d uint64) uint64  { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(old, v uint64) bool {
	return CompareAndSwapUint64(&x.v, old, v)
}

func LoadUintptr(p *uintptr) uintptr     { return *p }
func StoreUintptr(p *uintptr, v uintptr) { *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	*p += d
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	o := *p
	*p = v
	return o
}
func CompareAndSwapUintptr(p *uintptr, old, v uintptr) bool {
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uintptr is a number.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { return x.v }
func (x *Uintptr) Store(v uintptr)        { x.v = v }
func (x *Uintptr) Add(d uintptr) uintptr  { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(old, v uintptr) bool {
	return CompareAndSwapUintptr(&x.v, old, v)
}
