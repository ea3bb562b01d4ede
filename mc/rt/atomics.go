package rt

import (
	"runtime"
	"sync/atomic"
	"unsafe"
)

func atomOp(p unsafe.Pointer, what string, write bool) *exec {
	x := cx
	if x == nil {
		return nil
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: what}
	x.point(g)
	o := x.objAt(p)
	g.acquire(o.vc)
	x.atomic(g, p, write)
	if write {
		x.effect()
		g.release(&o.vc)
		x.evW(g, o, hashStr(what))
	} else {
		x.evR(g, o, 60)
	}
	return x
}

// casOp is atomOp for compare-and-swap: a failing one changes nothing.
func casOp(p unsafe.Pointer, ok func() bool) bool {
	x := cx
	if x == nil {
		panic("unreachable")
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "CompareAndSwap"}
	x.point(g)
	o := x.objAt(p)
	hit := ok()
	g.acquire(o.vc)
	x.atomic(g, p, hit)
	if hit {
		x.effect()
		g.release(&o.vc)
		x.evW(g, o, 61)
		return true
	}
	x.evR(g, o, 62)
	return false
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T any](p *T) T         { atomOp(unsafe.Pointer(p), "Load", false); return *p }
func store[T any](p *T, v T)     { atomOp(unsafe.Pointer(p), "Store", true); *p = v }
func swap[T any](p *T, v T) T    { atomOp(unsafe.Pointer(p), "Swap", true); o := *p; *p = v; return o }
func add[T integer](p *T, d T) T { atomOp(unsafe.Pointer(p), "Add", true); *p += d; return *p }
func cas[T comparable](p *T, a, b T) bool {
	if cx == nil {
		if *p == a {
			*p = b
			return true
		}
		return false
	}
	return casOp(unsafe.Pointer(p), func() bool {
		if *p == a {
			*p = b
			return true
		}
		return false
	})
}

func and[T integer](p *T, m T) T { atomOp(unsafe.Pointer(p), "And", true); o := *p; *p &= m; return o }
func or[T integer](p *T, m T) T  { atomOp(unsafe.Pointer(p), "Or", true); o := *p; *p |= m; return o }

func AndInt32(p *int32, m int32) int32                    { return and(p, m) }
func AndInt64(p *int64, m int64) int64                    { return and(p, m) }
func AndUint32(p *uint32, m uint32) uint32                { return and(p, m) }
func AndUint64(p *uint64, m uint64) uint64                { return and(p, m) }
func AndUintptr(p *uintptr, m uintptr) uintptr            { return and(p, m) }
func OrInt32(p *int32, m int32) int32                     { return or(p, m) }
func OrInt64(p *int64, m int64) int64                     { return or(p, m) }
func OrUint32(p *uint32, m uint32) uint32                 { return or(p, m) }
func OrUint64(p *uint64, m uint64) uint64                 { return or(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr             { return or(p, m) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr            { return add(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool { return cas(p, a, b) }

func LoadInt32(p *int32) int32                                          { return load(p) }
func LoadInt64(p *int64) int64                                          { return load(p) }
func LoadUint32(p *uint32) uint32                                       { return load(p) }
func LoadUint64(p *uint64) uint64                                       { return load(p) }
func LoadUintptr(p *uintptr) uintptr                                    { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StoreInt32(p *int32, v int32)                                      { store(p, v) }
func StoreInt64(p *int64, v int64)                                      { store(p, v) }
func StoreUint32(p *uint32, v uint32)                                   { store(p, v) }
func StoreUint64(p *uint64, v uint64)                                   { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)                                { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                                 { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                                 { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32                             { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64                             { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func AddInt32(p *int32, v int32) int32                                  { return add(p, v) }
func AddInt64(p *int64, v int64) int64                                  { return add(p, v) }
func AddUint32(p *uint32, v uint32) uint32                              { return add(p, v) }
func AddUint64(p *uint64, v uint64) uint64                              { return add(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool                     { return cas(p, a, b) }
func CompareAndSwapInt64(p *int64, a, b int64) bool                     { return cas(p, a, b) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool                  { return cas(p, a, b) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool                  { return cas(p, a, b) }
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool { return cas(p, a, b) }

type num[T integer] struct{ v T }

func (n *num[T]) Load() T                    { return load(&n.v) }
func (n *num[T]) Store(v T)                  { store(&n.v, v) }
func (n *num[T]) Swap(v T) T                 { return swap(&n.v, v) }
func (n *num[T]) Add(v T) T                  { return add(&n.v, v) }
func (n *num[T]) CompareAndSwap(a, b T) bool { return cas(&n.v, a, b) }

func (n *num[T]) And(m T) T { return and(&n.v, m) }
func (n *num[T]) Or(m T) T  { return or(&n.v, m) }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct{ v bool }

func (n *Bool) Load() bool                    { return load(&n.v) }
func (n *Bool) Store(v bool)                  { store(&n.v, v) }
func (n *Bool) Swap(v bool) bool              { return swap(&n.v, v) }
func (n *Bool) CompareAndSwap(a, b bool) bool { return cas(&n.v, a, b) }

type Pointer[T any] struct{ v *T }

func (n *Pointer[T]) Load() *T                    { return load(&n.v) }
func (n *Pointer[T]) Store(v *T)                  { store(&n.v, v) }
func (n *Pointer[T]) Swap(v *T) *T                { return swap(&n.v, v) }
func (n *Pointer[T]) CompareAndSwap(a, b *T) bool { return cas(&n.v, a, b) }

type Value struct{ v any }

func (n *Value) Load() any { return load(&n.v) }
func (n *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	store(&n.v, v)
}
func (n *Value) Swap(v any) any               { return swap(&n.v, v) }
func (n *Value) CompareAndSwap(a, b any) bool { return cas(&n.v, a, b) }

var _ = atomic.AddInt32
