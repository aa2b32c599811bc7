// Package sync replaces the standard package in the simulated copies: the same
// meaning, with blocking handed to the simulator's scheduler.
package sync

import (
	real "sync"

	"verif.local/simhook"
)

type Locker = real.Locker

type Mutex struct {
	locked bool
	o      simhook.Order
}

func (m *Mutex) Lock() {
	simhook.Block(func() bool { return !m.locked })
	m.locked = true
	m.o.Acquire()
}
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	m.o.Acquire()
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.Release()
}

type RWMutex struct {
	w      bool
	r      int
	wo, ro simhook.Order // of those who wrote and who read
}

func (m *RWMutex) Lock() {
	simhook.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
	m.wo.Acquire()
	m.ro.Acquire()
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r != 0 {
		return false
	}
	m.w = true
	m.wo.Acquire()
	m.ro.Acquire()
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wo.Release()
}
func (m *RWMutex) RLock() {
	simhook.Block(func() bool { return !m.w })
	m.r++
	m.wo.Acquire()
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	m.wo.Acquire()
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.ro.Release()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()            { l.m.RLock() }
func (l rlocker) Unlock()          { l.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
	o    simhook.Order
}

func (o *Once) Do(f func()) {
	if o.done {
		o.o.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.o.Release()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var q U
	return func() (T, U) {
		o.Do(func() { r, q = f() })
		return r, q
	}
}

type WaitGroup struct {
	n int
	o simhook.Order
}

func (w *WaitGroup) Add(d int) {
	w.o.Release()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simhook.Block(func() bool { return w.n == 0 })
	w.o.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simhook.Go(func() { defer w.Done(); f() })
}

// Pool hands out what was put in any order and may forget items, as the real one may.
type Pool struct {
	New   func() interface{}
	items []interface{}
	o     simhook.Order
}

func (p *Pool) Get() interface{} {
	p.o.Acquire()
	if n := len(p.items); n > 0 {
		switch simhook.Choice(4) {
		case 0: // pretend another processor's cache was empty
		case 1:
			x := p.items[0]
			p.items = append([]interface{}{}, p.items[1:]...)
			return x
		default:
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	p.o.Release()
	if x != nil && len(p.items) < 8 { // it may drop what it likes
		p.items = append(p.items, x)
	}
}

type Map struct {
	m real.Map
	o simhook.Order
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.o.Both()
	return m.m.Load(k)
}
func (m *Map) Store(k, v interface{}) {
	m.o.Both()
	m.m.Store(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.o.Both()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.o.Both()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{}) {
	m.o.Both()
	m.m.Delete(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.o.Both()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.o.Both()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.o.Both()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.o.Both()
	m.m.Range(func(k, v interface{}) bool {
		m.o.Both()
		return f(k, v)
	})
}
func (m *Map) Clear() {
	m.o.Both()
	m.m.Clear()
}

type Cond struct {
	L   Locker
	seq int
	wk  int
	o   simhook.Order
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	simhook.Block(func() bool { return c.wk > my })
	c.o.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.o.Release()
	if c.wk < c.seq {
		c.wk++
	}
}
func (c *Cond) Broadcast() {
	c.o.Release()
	c.wk = c.seq
}
