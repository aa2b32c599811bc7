package main

import (
	"container/heap"
	"fmt"

	"verif.local/main/core"
)

// Net is the simulated clock, event queue and network.
type Net struct {
	c      *Ctx
	q      evq
	now    int64
	seq    int
	calm   int64 // no faults from here on
	pDrop  int   // percent
	pDup   int
	pSlow  int
	pBad   int
	parts  []partition
	nmsg   int
	events int
	stop   bool
}

type partition struct {
	from, to int64
	node     int
}

type ev struct {
	at  int64
	seq int
	f   func()
}

type evq []ev

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q evq) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x interface{}) { *q = append(*q, x.(ev)) }
func (q *evq) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

func newNet(c *Ctx, nodes int) *Net {
	r := c.R("net")
	n := &Net{c: c, calm: 2000 + int64(r.N(6000))}
	n.pDrop = []int{0, 5, 20, 50}[r.N(4)]
	n.pDup = []int{0, 5, 25}[r.N(3)]
	n.pSlow = []int{0, 10, 30}[r.N(3)]
	n.pBad = []int{0, 0, 5, 20}[r.N(4)]
	for i := 0; i < r.N(3); i++ {
		a := int64(r.N(int(n.calm)))
		n.parts = append(n.parts, partition{a, a + r.LogU(n.calm-a), r.N(nodes)})
	}
	return n
}

// After runs f after d ticks.
func (n *Net) After(d int64, f func()) {
	if d < 1 {
		d = 1
	}
	n.seq++
	heap.Push(&n.q, ev{n.now + d, n.seq, f})
}

func (n *Net) cut(a, b int) bool {
	for i, p := range n.parts {
		if n.now >= p.from && n.now < p.to && (p.node == a) != (p.node == b) {
			return n.c.Fault("partition", fmt.Sprintf("partition/%d", i))
		}
	}
	return false
}

// Send delivers msg to f at node b, or does not, or twice, late or damaged.
// key names the message in the run.
func (n *Net) Send(a, b int, key string, msg []byte, f func([]byte)) {
	n.nmsg++
	key = fmt.Sprintf("%s@%d", key, n.nmsg)
	r := n.c.R("msg/" + key)
	d := r.LogU(300)
	copies := 1
	m := append([]byte{}, msg...)
	if n.now < n.calm {
		k, k2, k3, k4 := r.N(100), r.N(100), r.N(100), r.N(100)
		if n.cut(a, b) {
			return
		}
		if k < n.pDrop && n.c.Fault("message-loss", "loss/"+key) {
			return
		}
		if k2 < n.pDup && n.c.Fault("message-duplicate", "dup/"+key) {
			copies = 2
		}
		if k3 < n.pSlow && n.c.Fault("message-delay", "delay/"+key) {
			d += r.LogU(4000)
		}
		if k4 < n.pBad && len(m) > 0 && n.c.Fault("message-corruption", "corrupt/"+key) {
			m = damage(r, m)
		}
	}
	for i := 0; i < copies; i++ {
		n.After(d, func() { f(m) })
		d += r.LogU(600)
	}
}

// Run processes events until none is left, limit is reached or stop is set.
func (n *Net) Run(limit int64) {
	for n.q.Len() > 0 && !n.stop {
		e := heap.Pop(&n.q).(ev)
		if e.at > limit {
			n.now = limit
			break
		}
		n.now = e.at
		n.events++
		n.c.Order(int64(e.seq))
		e.f()
	}
	n.c.Nums["ticks"] += n.now
	n.c.Nums["events"] += int64(n.events)
}

// damage alters a byte string as a bad medium does.
func damage(r *Rng, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.N(6) {
	case 0:
		b = b[:r.N(len(b)+1)]
	case 1:
		b = append(b, r.Bytes(1+r.N(8))...)
	case 2:
		for i := r.N(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	default:
		if len(b) > 0 {
			for i := 0; i < 1+r.N(3); i++ {
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
			}
		}
	}
	return b
}

// node makes library calls outside a schedule and remembers what went wrong.
type node struct {
	c   *Ctx
	m   core.Machine
	bad string
}

func (n *node) do(op string, a ...interface{}) *core.Outcome {
	var out core.Outcome
	direct(n.c, &out, opLimit, func() { n.m.Exec(op, a, &out) })
	n.c.Nums["calls"]++
	if out.Panic != "" && n.bad == "" {
		n.bad = op + " " + out.Panic
	}
	return &out
}

func (n *node) P() interface{} { return n.m.New('P') }
func (n *node) S() interface{} { return n.m.New('S') }
func (n *node) H(b []byte) interface{} {
	h := new([32]byte)
	copy(h[:], b)
	return h
}

// enc is the library's encoding of a point variable.
func (n *node) enc(p interface{}) (r [32]byte) {
	n.do("P.BytesInto", p, &r)
	return
}
