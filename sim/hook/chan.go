package simhook

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"time"
)

// Channels. A task that cannot go on gives way until some channel was used.
// A channel without a buffer is made with room for rendezvous elements: at most
// one is ever in it, and the sender waits until it is gone.
const rendezvous = 61

// Ver counts the uses of channels.
var Ver uint64

// Unbuffered is the capacity to give to a channel that is to have n.
func Unbuffered(n int) int {
	if n == 0 {
		return rendezvous
	}
	return n
}

// receivers that wait, by channel
var waiting []uintptr

func id(c interface{}) uintptr { return reflect.ValueOf(c).Pointer() }

func waiters(p uintptr) (n int) {
	for _, w := range waiting {
		if w == p {
			n++
		}
	}
	return
}

func unwait(p uintptr) {
	for i, w := range waiting {
		if w == p {
			waiting = append(waiting[:i], waiting[i+1:]...)
			return
		}
	}
}

// await gives way until try succeeds.
func await(site uint32, try func() bool) {
	Y(site)
	for !try() {
		v := Ver
		Block(func() bool { return Ver != v })
	}
}

// OnYield lets another task run, if there is one.
var OnYield func()

// Gosched lets others run.
func Gosched(site uint32) {
	Y(site)
	if OnYield != nil {
		OnYield()
	}
}

// Send sends on a channel.
func Send[T any](site uint32, c chan<- T) func(T) {
	return func(x T) {
		if cap(c) == rendezvous {
			await(site, func() bool { return len(c) == 0 })
		}
		await(site, func() bool {
			select {
			case c <- x: // panics on a closed channel, as it should
				passed(c)
				Ver++
				return true
			default:
				return false
			}
		})
		if cap(c) == rendezvous {
			await(site, func() bool { return len(c) == 0 })
			passed(c)
		}
	}
}

// Recv receives from a channel.
func Recv[T any](site uint32, c <-chan T) T {
	x, _ := Recv2(site, c)
	return x
}

// Recv2 also says whether there was something to receive.
func Recv2[T any](site uint32, c <-chan T) (x T, ok bool) {
	if c != nil {
		waiting = append(waiting, id(c))
		defer unwait(id(c))
		passed(c)
		Ver++
	}
	await(site, func() bool {
		select {
		case x, ok = <-c:
			passed(c)
			Ver++
			return true
		default:
			return false
		}
	})
	return
}

// RangeStart begins a loop over a channel.
func RangeStart[T any](site uint32, c <-chan T) (<-chan T, T, bool) {
	x, ok := Recv2(site, c)
	return c, x, ok
}

// Close closes a channel.
func Close[T any](site uint32, c chan<- T) {
	Y(site)
	passed(c)
	close(c)
	Ver++
}

// ChLen and ChCap are len and cap of a channel.
func ChLen[T any](c <-chan T) int {
	if cap(c) == rendezvous {
		return 0
	}
	return len(c)
}

func ChCap[T any](c <-chan T) int {
	if cap(c) == rendezvous {
		return 0
	}
	return cap(c)
}

// Case is an alternative of a select statement.
type Case struct {
	try  func() bool
	recv uintptr
}

// Got is what a case received.
type Got[T any] struct {
	X  T
	OK bool
}

// CaseRecv is the alternative of receiving.
func CaseRecv[T any](c <-chan T) (*Got[T], Case) {
	g := new(Got[T])
	k := Case{try: func() bool {
		select {
		case g.X, g.OK = <-c:
			passed(c)
			Ver++
			return true
		default:
			return false
		}
	}}
	if c != nil {
		k.recv = id(c)
	}
	return g, k
}

// CaseSend is the alternative of sending.
func CaseSend[T any](c chan<- T) func(T) Case {
	return func(x T) Case {
		return Case{try: func() bool {
			if cap(c) == rendezvous && waiters(id(c)) <= len(c) {
				return false
			}
			select {
			case c <- x:
				passed(c)
				Ver++
				return true
			default:
				return false
			}
		}}
	}
}

// Select performs one of the alternatives and returns its number; -1 if none
// can be and there is a default.
func Select(site uint32, def bool, cs ...Case) int {
	Y(site)
	sel := -1
	start := 0
	if len(cs) > 1 {
		start = Choice(len(cs))
	}
	try := func() bool {
		for i := range cs {
			k := (start + i) % len(cs)
			if cs[k].try() {
				sel = k
				return true
			}
		}
		return false
	}
	if def {
		try()
		return sel
	}
	for _, k := range cs {
		if k.recv != 0 {
			waiting = append(waiting, k.recv)
			defer unwait(k.recv)
			if Now != nil {
				chanOrder(k.recv).Both()
			}
		}
	}
	Ver++
	await(site, try)
	return sel
}

// MapIter goes over a map in an order that the simulator chooses.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapStart begins a loop over a map.
func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V, bool) {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	name := make(map[K]string, len(it.keys))
	for _, k := range it.keys {
		name[k] = fmt.Sprintf("%#v", k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return name[it.keys[i]] < name[it.keys[j]] })
	if len(it.keys) > 1 {
		r := rand.New(rand.NewSource(int64(Choice(1 << 30))))
		r.Shuffle(len(it.keys), func(i, j int) { it.keys[i], it.keys[j] = it.keys[j], it.keys[i] })
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

// Next is the next element that is still there.
func (it *MapIter[K, V]) Next() (k K, v V, ok bool) {
	for len(it.keys) > 0 {
		k, it.keys = it.keys[0], it.keys[1:]
		if v, ok = it.m[k]; ok {
			return
		}
	}
	return *new(K), *new(V), false
}

// OnAdvance moves the clock on to the next timer; nil where nothing uses it.
var OnAdvance func() bool

// OnJump moves the clock on.
var OnJump func(ns int64)

var polls int

// Stuck is called when no task can go on: it says whether to look again,
// because time has passed or a channel is not the simulator's.
func Stuck() bool {
	if OnAdvance != nil && OnAdvance() {
		return true
	}
	if len(waiting) > 0 && polls < 20 {
		polls++
		time.Sleep(time.Millisecond)
		Ver++
		return true
	}
	return false
}
