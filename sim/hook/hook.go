// Package simhook is what the instrumented copies of the library call. It has
// no policy of its own: the simulator installs one.
package simhook

import (
	"bytes"
	"math/big"
	"reflect"
	"runtime"
	"unsafe"
)

const idle = int64(1) << 62

var (
	// Left is the number of scheduling points until the simulator is called.
	Left int64 = idle
	// Hot marks scheduling points at which it is always called.
	Hot [1 << 16]bool

	// OnPoint is called at a scheduling point that Left or Hot selected.
	OnPoint func(site uint32)
	// OnGo starts a task; nil when no simulated schedule is running.
	OnGo func(f func())
	// OnBlock gives up the processor until cond holds.
	OnBlock func(cond func() bool)
	// OnChoice makes a decision among n.
	OnChoice func(n int) int
)

// Idle is the value of Left when nobody is counting.
func Idle() int64 { return idle }

// Y is a scheduling point.
func Y(site uint32) {
	Left--
	if Left < 0 || Hot[site&0xffff] {
		slow(site)
	}
}

//go:noinline
func slow(site uint32) {
	if OnPoint != nil {
		OnPoint(site)
	} else {
		Left = idle
	}
}

// Pending are tasks started before the simulator was there to run them.
var Pending []func()

// Go starts f as a task of the simulation.
func Go(f func()) {
	if OnGo != nil {
		OnGo(f)
	} else {
		Pending = append(Pending, f)
	}
}

// GoBind evaluates like the go statement: function and arguments now, call later.
func GoBind(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var t reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			t = ft.In(ft.NumIn() - 1).Elem()
		} else {
			t = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(t)
		} else {
			in[i] = reflect.ValueOf(a).Convert(t)
		}
	}
	Go(func() { fv.Call(in) })
}

// Block waits until cond holds.
func Block(cond func() bool) {
	for !cond() {
		switch {
		case OnBlock != nil:
			OnBlock(cond)
		case len(Pending) > 0:
			f := Pending[0]
			Pending = Pending[1:]
			f()
		default:
			runtime.Gosched()
		}
	}
}

// Choice decides among n alternatives.
func Choice(n int) int {
	if OnChoice != nil {
		return OnChoice(n)
	}
	return 0
}

// Dst is a multi-word store in progress.
type Dst[T any] struct {
	V, p *T
	site uint32
}

// OnTorn decides whether a store of n words is to be seen half done.
var OnTorn func(site uint32, n int) (mid int, selected bool)

// D begins a store to *p; the value goes to *V.
func D[T any](site uint32, p *T) Dst[T] {
	d := Dst[T]{V: p, p: p, site: site}
	if unsafe.Sizeof(*p) > 8 && p != nil && OnTorn != nil {
		d.V = new(T)
		*d.V = *p
	}
	return d
}

// C ends it: word by word when the simulator wants others to run in between.
func (d Dst[T]) C() {
	if d.V == d.p {
		return
	}
	n := int(unsafe.Sizeof(*d.p) / 8)
	mid, ok := 0, false
	if OnTorn != nil {
		mid, ok = OnTorn(d.site, n)
	}
	if !ok || hasPointers(reflect.TypeOf(d.p).Elem()) {
		*d.p = *d.V
		return
	}
	dst := unsafe.Slice((*byte)(unsafe.Pointer(d.p)), unsafe.Sizeof(*d.p))
	src := unsafe.Slice((*byte)(unsafe.Pointer(d.V)), unsafe.Sizeof(*d.p))
	lo, hi := 0, 8*mid
	if mid < 0 { // the end first
		lo, hi = -8*mid, len(dst)
	}
	copy(dst[lo:hi], src[lo:hi])
	slow(d.site)
	copy(dst[:lo], src[:lo])
	copy(dst[hi:], src[hi:])
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return false
	}
	return true
}

// OnMap is told that the running task is about to use a map.
var OnMap func(site uint32, name string, id uintptr, write bool)

// Map announces the use of a map by the next statement; atOnce says that
// nothing else happens in it before.
func Map(site uint32, name string, get func() interface{}, write, atOnce bool) {
	if OnMap != nil {
		if p := mapID(get); p != nil {
			OnMap(site, name, uintptr(p), write)
			if Now != nil && atOnce {
				touch(site, p, write)
			}
		}
	}
}

// V is a scheduling point inside a statement.
func V[T any](site uint32, x T) T {
	Y(site)
	return x
}

// OnObj is told that the running task is about to use an object that calls
// of the standard library change.
var OnObj func(site uint32, name string, id uintptr, write, shared bool)

// Obj announces the use of an object.
func Obj[T any](site uint32, name string, write, shared bool, x T) T {
	Y(site)
	if OnObj != nil {
		if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr && !v.IsNil() {
			OnObj(site, name, v.Pointer(), write, shared)
			if Now != nil {
				touch(site, v.UnsafePointer(), write)
			}
		}
	}
	if Timed {
		if v, ok := interface{}(x).(*big.Int); ok && v != nil {
			OnTick(v.BitLen())
		}
	}
	return x
}

// mapID tells maps apart; nil: there is none.
func mapID(get func() interface{}) (id unsafe.Pointer) {
	defer func() {
		if recover() != nil {
			id = nil
		}
	}()
	v := reflect.ValueOf(get())
	if v.Kind() == reflect.Map {
		return v.UnsafePointer()
	}
	return nil
}

// Timed: an observer sees indices and comparisons.
var (
	Timed   bool
	OnIndex func(i uint64)
	OnTick  func(n int)
)

// I is an index in use.
func I[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](x T) T {
	if Timed {
		OnIndex(uint64(x))
	}
	return x
}

// B is a right operand of a short-circuiting operator that is evaluated.
func B[T ~bool](x T) T {
	if Timed {
		OnTick(1)
	}
	return x
}

// Eq compares, observably stopping at the first difference.
func Eq[T comparable](x, y T) bool {
	if Timed {
		OnTick(common(raw(&x), raw(&y)))
	}
	return x == y
}

func raw[T any](x *T) []byte {
	if s, ok := interface{}(*x).(string); ok {
		return []byte(s)
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(x)), unsafe.Sizeof(*x))
}

// common is the number of equal words at the start.
func common(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i / 8
}

// BytesEqual is bytes.Equal.
func BytesEqual(a, b []byte) bool {
	if Timed && len(a) == len(b) {
		OnTick(common(a, b))
	}
	return bytes.Equal(a, b)
}

// BytesCompare is bytes.Compare.
func BytesCompare(a, b []byte) int {
	if Timed {
		OnTick(common(a, b))
	}
	return bytes.Compare(a, b)
}
