package main

import (
	"errors"
	"fmt"
	"io"
	"syscall"

	"verif.local/main/core"
	simrand "verif.local/simhook/rand"
)

type tempErr struct{}

func (tempErr) Error() string   { return "simulated: resource temporarily unavailable" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var srcErrs = []struct {
	name string
	err  error
}{
	{"source-error", errors.New("simulated source failure")},
	{"source-eof", io.EOF},
	{"source-unexpected-eof", io.ErrUnexpectedEOF},
	{"source-eintr", syscall.EINTR},
	{"source-eagain", syscall.EAGAIN},
	{"source-temporary", tempErr{}},
	{"source-no-progress", io.ErrNoProgress},
}

// draw is one random draw and what the source did for it.
type draw struct {
	key      string
	kind     byte
	v        interface{}
	before   core.Val
	prior    []byte
	ran      bool
	reads    int
	zeros    int
	got      []byte // bytes delivered to it
	failed   bool   // the source reported an error for it with bytes missing
	out      core.Outcome
	val      core.Val
	variant  core.Machine
	after    int
	fragment bool
}

// drawSource is the simulated randomness source.
type drawSource struct {
	c                *Ctx
	s                *Sched
	active           map[*Task]*draw
	nloose, looseErr int // reads that are not part of a draw, and those that failed
	given            int // bytes delivered
	pFail            int // percent per read
	pShort           int
	down             map[string]bool
}

func (d *drawSource) owner() (*draw, *Task) {
	for t := d.s.cur; t != nil; t = t.parent {
		if x := d.active[t]; x != nil {
			return x, t
		}
		if t.parent != nil && !t.parent.lib && t.bornOp != t.parent.op {
			break // started by an earlier call
		}
	}
	return nil, nil
}

func (d *drawSource) Read(b []byte) (int, error) {
	x, t := d.owner()
	if x == nil {
		// read ahead by the library
		d.nloose++
		r := d.c.R("loose/%d", d.nloose)
		n := len(b)
		var err error
		if r.N(100) < d.pFail && d.c.Fault("read-ahead-error", fmt.Sprintf("loose/%d", d.nloose)) {
			n, err = r.N(len(b)+1), srcErrs[r.N(len(srcErrs))].err
			d.looseErr++
		}
		copy(b[:n], r.Bytes(n))
		d.given += n
		return n, err
	}
	x.reads++
	key := fmt.Sprintf("%s/r%d", x.key, x.reads)
	r := d.c.R("read/" + key)
	pre := r.P(1, 3)
	bytes := r.Bytes(len(b))
	n := len(b)
	var err error
	switch k := r.N(100); {
	case k < d.pFail:
		e := srcErrs[r.N(len(srcErrs))]
		m := 0
		if len(b) > 0 {
			switch r.N(3) {
			case 0:
				m = r.N(len(b))
			case 1:
				m = len(b) - 1
			}
		}
		kind := e.name
		if m > 0 {
			kind += "-after-part"
		}
		if d.c.Fault(kind, key) {
			n, err = m, e.err
			x.failed = true
		}
	case k < d.pFail+d.pShort:
		if len(b) > 1 {
			m := 1 + r.N(len(b)-1)
			if d.c.Fault("short-read", key) {
				n = m
				x.fragment = true
			}
		}
	case k < d.pFail+d.pShort+4:
		if x.zeros < 4 && d.c.Fault("empty-read", key) {
			n = 0
			x.zeros++
			x.fragment = true
		}
	case k < d.pFail+d.pShort+6:
		if d.c.Fault("error-with-last-byte", key) {
			err = srcErrs[r.N(len(srcErrs))].err
		}
	}
	copy(b[:n], bytes)
	x.got = append(x.got, b[:n]...)
	d.given += n
	d.c.Ev("source %s gives %d of %d err=%v", key, n, len(b), err)
	if pre && d.s.cur.inOp {
		t.k++
		d.s.switchAt(d.s.cur, 0)
	}
	return n, err
}

// exact delivers given bytes in full and then ends.
type exact struct {
	b    []byte
	used int
}

func (e *exact) Read(b []byte) (int, error) {
	n := copy(b, e.b[e.used:])
	e.used += n
	if n < len(b) {
		return n, io.ErrUnexpectedEOF
	}
	return n, nil
}

// drawRun is the workload of C03 and C04.
func drawRun(c *Ctx) (draws []*draw, m core.Machine, end string, aborted bool, src *drawSource) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m = machines[variant]
	simrand.Modern = r.P(1, 4)
	nt := 1 + r.N(4)
	long := r.P(1, 25)
	s := newSched(c)
	s.configure(variant)
	src = &drawSource{c: c, s: s, active: map[*Task]*draw{}}
	src.pFail = []int{0, 3, 10, 30}[r.N(4)]
	src.pShort = []int{0, 10, 40}[r.N(3)]
	simrand.Reader = src
	c.Ev("draws %s modern=%v fail=%d short=%d", variant, simrand.Modern, src.pFail, src.pShort)
	for ti := 0; ti < nt; ti++ {
		ti := ti
		n := 1 + c.R("n/%d", ti).N(6)
		if long {
			n = 100 + c.R("n/%d", ti).N(300)
		}
		kinds := []string{"PS", "P", "S", "PPS"}[c.R("k/%d", ti).N(4)]
		var mine []interface{}
		s.Add(func(t *Task) {
			for i := 0; i < n && !aborted; i++ {
				if !c.On("draw/t%d/%d", ti, i) {
					continue
				}
				or := c.R("draw/%d/%d", ti, i)
				d := &draw{key: fmt.Sprintf("t%d/%d", ti, i), kind: kinds[or.N(len(kinds))], variant: m}
				// the receiver: fresh, garbage, or used before
				for q := len(mine) - 1; q >= 0 && d.v == nil; q-- {
					if m.Get(mine[q]).K == d.kind && or.P(1, 2) {
						d.v = mine[q]
					}
				}
				if d.v == nil {
					d.v = fresh(m, genVal(or, "", 0, d.kind))
					if or.P(1, 3) {
						m.Poison(d.v, or.U64)
					}
					mine = append(mine, d.v)
				}
				d.before = m.Get(d.v)
				d.prior = append([]byte{}, m.Mem(d.v)...)
				src.active[t] = d
				draws = append(draws, d)
				s.Call(t, i, &d.out, func() { m.Exec(string(d.kind)+".Rand", []interface{}{d.v}, &d.out) })
				delete(src.active, t)
				d.ran = true
				d.val = m.Get(d.v)
				c.Ev("draw %s %c got %d bytes failed=%v panic=%v %s", d.key, d.kind, len(d.got), d.failed, d.out.Panic, meaning(d.val))
				if d.out.Abort {
					aborted = true
				}
				s.Yield(t)
			}
		})
	}
	end = s.Run()
	c.Nums["switches"] += int64(s.nsw)
	c.Nums["calls"] += int64(len(draws))
	for _, d := range draws {
		if d.failed {
			c.Probe("draws that met a failing source")
		}
		if d.fragment {
			c.Probe("draws that met short or empty reads")
		}
		c.State("%c/%d/%v/%d", d.kind, len(d.got), d.failed, d.reads)
	}
	return
}

// redraw repeats a draw alone, from the given bytes, on a fresh variable.
func redraw(c *Ctx, m core.Machine, kind byte, b []byte) (core.Val, *core.Outcome, int) {
	e := &exact{b: b}
	simrand.Reader = e
	modern := simrand.Modern
	simrand.Modern = false
	defer func() { simrand.Modern = modern }()
	v := fresh(m, core.Val{K: kind, P: genPoint(&Rng{1}), S: bi(0)})
	var out core.Outcome
	direct(c, &out, opLimit, func() { m.Exec(string(kind)+".Rand", []interface{}{v}, &out) })
	return m.Get(v), &out, e.used
}

func scenC03(c *Ctx) {
	draws, m, end, aborted, src := drawRun(c)
	if end == "crash" {
		// the process ends, as it may if the source has failed
		failed := src.looseErr > 0
		for _, d := range draws {
			failed = failed || d.failed
		}
		if !failed {
			o := src.s.epitaph()
			c.Fail("spurious", "%s: the source works, yet a panic %s", m.Name(), o.Panic)
		}
		return
	}
	if end != "" {
		c.Fail(end, "%s: draws do not finish: %s", m.Name(), end)
		return
	}
	for _, d := range draws {
		if !d.ran {
			continue
		}
		if d.out.Hang {
			c.Fail("hang", "%s: draw %s does not finish", m.Name(), d.key)
		} else if d.failed && d.out.Panic == "" {
			c.Fail("silent", "%s: the source failed %c.Rand (draw %s) after %d bytes, yet it returned %s",
				m.Name(), d.kind, d.key, len(d.got), meaning(d.val))
		} else if !d.failed && d.out.Panic != "" && !aborted {
			c.Fail("spurious", "%s: the source served %c.Rand (draw %s) with %d bytes and no error, yet it panics: %s",
				m.Name(), d.kind, d.key, len(d.got), d.out.Panic)
		}
	}
	// reading ahead makes nothing out of nothing
	n := 0
	for _, d := range draws {
		if d.ran && d.out.Panic == "" {
			n++
		}
	}
	if n*32 > src.given {
		c.Fail("silent", "%s: %d draws returned, but the source delivered %d bytes", m.Name(), n, src.given)
	}
	if aborted {
		c.Probe("process aborts")
		return
	}
	for i, k := range []byte{'P', 'S', 'P', 'S'} {
		v := fresh(m, genVal(c.R("final/%d", i), "", 0, k))
		simrand.Reader = &simpleSource{c.R("finalsrc/%d", i)}
		var out core.Outcome
		direct(c, &out, opLimit, func() { m.Exec(string(k)+".Rand", []interface{}{v}, &out) })
		if out.Panic != "" {
			c.Fail("recovery", "%s: %c.Rand does not succeed once the source works again: %s", m.Name(), k, out.Panic)
		}
	}
}

func scenC04(c *Ctx) {
	draws, m, end, aborted, _ := drawRun(c)
	if end != "" {
		return // a matter of C03
	}
	owner := map[string]*draw{}
	var ok []*draw
	for _, d := range draws {
		if d.ran && d.out.Panic == "" && !d.failed && !aborted {
			ok = append(ok, d)
		}
	}
	for _, d := range ok {
		v, out, used := redraw(c, m, d.kind, d.got)
		if out.Panic != "" {
			c.Fail("whole", "%s: %c.Rand (draw %s) returned %s having received %d bytes in %d reads, which do not suffice for a draw made alone: %s",
				m.Name(), d.kind, d.key, meaning(d.val), len(d.got), d.reads, out.Panic)
			return
		}
		if used < len(d.got) || !core.Same(v, d.val) {
			c.Fail("own", "%s: %c.Rand (draw %s, %d bytes in %d reads) returned %s, but alone from the same bytes %s (%d used)",
				m.Name(), d.kind, d.key, len(d.got), d.reads, meaning(d.val), meaning(v), used)
			return
		}
		if !d.val.P.Valid() && d.kind == 'P' {
			c.Fail("own", "%s: P.Rand yields an invalid point", m.Name())
			return
		}
		mk := meaning(d.val)
		if o := owner[string(d.kind)+mk]; o != nil {
			c.Fail("repeat", "%s: draws %s and %s return the same %s", m.Name(), o.key, d.key, mk)
			return
		}
		owner[string(d.kind)+mk] = d
	}
	// sensitivity of one draw of each kind
	r := c.R("sens")
	for _, k := range []byte{'P', 'S'} {
		if !r.P(1, 6) {
			continue
		}
		for _, d := range ok {
			if d.kind != k {
				continue
			}
			n := 0
			for i := 0; i < 8*len(d.got); i++ {
				b := append([]byte{}, d.got...)
				b[i/8] ^= 1 << uint(i%8)
				v, out, _ := redraw(c, m, k, b)
				if out.Panic != "" || !core.Same(v, d.val) {
					n++
				}
			}
			c.Probe("bit sensitivity measured")
			if n < 250 {
				c.Fail("bits", "%s: only %d of the %d source bits influence %c.Rand", m.Name(), n, 8*len(d.got), k)
			}
			break
		}
	}
}
