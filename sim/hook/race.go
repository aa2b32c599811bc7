package simhook

import (
	"fmt"
	"unsafe"
)

// Happens-before. Each task has a vector clock; objects that synchronise carry
// clocks from the task that releases to the task that acquires. Two uses of a
// variable that nothing orders, one of them a write, are a data race, whether
// or not this execution shows a consequence.

// Clock is the clock of a task.
type Clock struct {
	id int
	v  map[int]uint64
}

// Now is the clock of the running task; nil: nobody asks for races.
var Now *Clock

// generation of the clocks: everything before a run comes before its tasks.
var generation int

// NewClock makes the clock of a task that parent, if there is one, starts.
func NewClock(id int, parent *Clock) *Clock {
	c := &Clock{id: id, v: map[int]uint64{}}
	if parent != nil {
		for k, x := range parent.v {
			c.v[k] = x
		}
		parent.v[parent.id]++
	}
	c.v[id]++
	return c
}

// Order is what an object that synchronises knows of the tasks.
type Order struct {
	v   map[int]uint64
	gen int
}

// Acquire: what was released comes before what the running task does next.
func (o *Order) Acquire() {
	if Now == nil || o.gen != generation {
		return
	}
	for k, x := range o.v {
		if x > Now.v[k] {
			Now.v[k] = x
		}
	}
}

// Release: what the running task did comes before what acquires follow.
func (o *Order) Release() {
	if Now == nil {
		return
	}
	if o.gen != generation || o.v == nil {
		o.gen, o.v = generation, map[int]uint64{}
	}
	for k, x := range Now.v {
		if x > o.v[k] {
			o.v[k] = x
		}
	}
	Now.v[Now.id]++
}

// Both releases and acquires.
func (o *Order) Both() {
	if Now != nil {
		o.Release()
		o.Acquire()
	}
}

// Atomics orders all atomic operations with each other, which is more than
// they promise.
var Atomics Order

// Timers orders whoever sets a timer before whoever sees it fire.
var Timers Order

var chans map[uintptr]*Order

func chanOrder(id uintptr) *Order {
	o := chans[id]
	if o == nil {
		o = new(Order)
		chans[id] = o
	}
	return o
}

// passed: the running task has used a channel.
func passed(c interface{}) {
	if Now != nil {
		chanOrder(id(c)).Both()
	}
}

type use struct {
	id   int
	at   uint64
	site uint32
}

type cell struct {
	w     use
	reads []use
}

// cells keep what they are about alive, so addresses mean one thing in a run
var cells map[unsafe.Pointer]*cell

// Race is the first race of the run: the scheduling points and what happened.
type Race struct {
	A, B uint32
	What string
}

var Raced *Race

// StartRaces begins a run.
func StartRaces() {
	generation++
	cells, chans, Raced = map[unsafe.Pointer]*cell{}, map[uintptr]*Order{}, nil
}

// StopRaces ends it.
func StopRaces() { Now, cells, chans = nil, nil, nil }

func touch(site uint32, p unsafe.Pointer, write bool) {
	if Raced != nil {
		return
	}
	c := cells[p]
	if c == nil {
		c = new(cell)
		cells[p] = c
	}
	me := use{Now.id, Now.v[Now.id], site}
	before := func(u use) bool { return u.id == me.id || Now.v[u.id] >= u.at }
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	if c.w.at > 0 && !before(c.w) {
		Raced = &Race{c.w.site, site, fmt.Sprintf("write and %s", kind(write))}
	}
	if write {
		for _, u := range c.reads {
			if !before(u) {
				Raced = &Race{u.site, site, "read and write"}
			}
		}
		c.w, c.reads = me, c.reads[:0]
		return
	}
	for i, u := range c.reads {
		if u.id == me.id {
			c.reads[i] = me
			return
		}
	}
	c.reads = append(c.reads, me)
}

// Rd reads a variable that others may see.
func Rd[T any](site uint32, p *T) T {
	if Now != nil && p != nil {
		touch(site, unsafe.Pointer(p), false)
	}
	return *p
}

// Wr says that such a variable has been written.
func Wr[T any](site uint32, p *T) {
	if Now != nil {
		touch(site, unsafe.Pointer(p), true)
	}
}
