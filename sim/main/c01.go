package main

import (
	"fmt"

	"verif.local/main/core"
	"verif.local/main/model"
	"verif.local/simhook"
	simrand "verif.local/simhook/rand"
)

// A call of the concurrent scenarios.
type ccall struct {
	op    string
	args  []interface{}
	names []string
	vals  []core.Val // operand values before the call (nil entries: read at call time)
	late  []int      // arguments whose value is read at call time
	out   core.Outcome
	outs  map[int]core.Val
	ran   bool
}

// long says whether the programs of a run consist of many calls.
func long(c *Ctx) bool { return c.R("long").P(1, 5) }

// concOps picks the operations of a run: few, so that they meet each other.
func concOps(c *Ctx, r *Rng, allow func(*core.Spec) bool) []string {
	var l []string
	n := 1 + r.N(4)
	if r.P(1, 3) || long(c) && r.P(2, 3) {
		n = 1
	}
	var cand []*core.Spec
	for i := range core.Specs {
		if allow(&core.Specs[i]) {
			cand = append(cand, &core.Specs[i])
		}
	}
	for len(l) < n {
		sp := cand[r.N(len(cand))]
		if sp.Cost > 100 && !r.P(1, 3) {
			continue
		}
		// the public point and scalar API is the larger part of the interface
		if (sp.Name[0] == 'F' || sp.Name[0] == 'N' || sp.Name[0] == 'E') && !r.P(1, 2) {
			continue
		}
		l = append(l, sp.Name)
	}
	return l
}

// buildConc makes the tasks of C01 and C02: private outputs, shared operands.
// place puts a shared value into memory.
func buildConc(c *Ctx, m core.Machine, ops []string, place func(v core.Val, name string) interface{}, maxTasks int, chain bool) [][]*ccall {
	r := c.R("shape")
	nt := 2 + r.N(maxTasks-1)
	if r.P(1, 12) {
		nt = 1 + r.N(2)
	}
	// shared pools by kind
	type sv struct {
		v    interface{}
		val  core.Val
		name string
	}
	pools := map[byte][]sv{}
	poolSize := 1 + r.N(3)
	shared := func(kr *Rng, op string, arg int, k byte) sv {
		if k == 'b' || k == 'u' {
			v := genVal(kr, op, arg, k)
			return sv{fresh(m, v), v, ""}
		}
		// byte strings and integers depend on the operation
		key := k
		if k == 'h' || k == 'y' || k == 'I' || k == 'w' || k == 'q' || op == "F.InvSqrt" || op == "F.Sqrt" {
			v := genVal(kr, op, arg, k)
			name := fmt.Sprintf("operand %d of %s", arg, op)
			return sv{place(v, name), v, name}
		}
		p := pools[key]
		if len(p) < poolSize || (op == "P.Lizard" || op == "P.LizardInto" || op == "E.ElligatorInverse") && kr.P(1, 2) {
			v := genVal(kr, op, arg, k)
			name := fmt.Sprintf("shared %c%d", k, len(p))
			x := sv{place(v, name), v, name}
			pools[key] = append(p, x)
			return x
		}
		return p[kr.N(len(p))]
	}
	budget := 300
	if c.Tier == "thorough" {
		budget = 600
	}
	var tasks [][]*ccall
	for t := 0; t < nt; t++ {
		var l []*ccall
		nops := 1 + c.R("nops/%d", t).N(5)
		if long(c) {
			nops = 1 + c.R("nops/%d", t).N(80)
		}
		var mine []interface{} // private variables by production order
		var mineKind []byte
		cost := 0
		for i := 0; i < nops; i++ {
			or := c.R("op/%d/%d", t, i)
			op := ops[or.N(len(ops))]
			sp := core.ByName[op]
			if cost+sp.Cost > budget/nt && i > 0 && sp.Cost > 5 {
				continue
			}
			cost += sp.Cost
			cl := &ccall{op: op}
			var newMine []interface{}
			var newKind []byte
			for j, g := range sp.Args {
				var v interface{}
				var val core.Val
				name := ""
				if g.Mode == 'i' {
					done := false
					if chain && or.P(1, 4) && (g.Kind == 'P' || g.Kind == 'S' || g.Kind == 'F') && op != "F.InvSqrt" && op != "F.Sqrt" {
						for q := len(mine) - 1; q >= 0; q-- {
							if mineKind[q] == g.Kind {
								v = mine[q]
								cl.late = append(cl.late, j)
								done = true
								break
							}
						}
					}
					if !done {
						x := shared(or, op, j, g.Kind)
						v, val, name = x.v, x.val, x.name
					}
				} else {
					val = genVal(or, op, j, g.Kind)
					v = fresh(m, val)
					if g.Mode == 'o' && or.P(1, 3) {
						m.Poison(v, or.U64)
						val = m.Get(v)
					}
					if !sp.CanFail {
						newMine = append(newMine, v)
						newKind = append(newKind, g.Kind)
					}
				}
				cl.args = append(cl.args, v)
				cl.vals = append(cl.vals, val)
				cl.names = append(cl.names, name)
			}
			mine = append(mine, newMine...)
			mineKind = append(mineKind, newKind...)
			l = append(l, cl)
		}
		tasks = append(tasks, l)
	}
	return tasks
}

func addTasks(c *Ctx, s *Sched, m core.Machine, tasks [][]*ccall) {
	for ti := range tasks {
		if c.Solo != 0 && c.Solo != ti+1 {
			continue
		}
		ti := ti
		l := tasks[ti]
		tk := s.Add(func(t *Task) {
			for i, cl := range l {
				if !c.On("call/t%d/%d", ti, i) {
					continue
				}
				skip := false
				for _, j := range cl.late {
					cl.vals[j] = m.Get(cl.args[j])
					switch v := cl.vals[j]; {
					case v.K == 'P' && !v.P.Valid(), v.K == 'S' && v.S.Cmp(model.L) >= 0:
						skip = true // what should have set it was left out or went wrong
					}
				}
				if skip {
					continue
				}
				cl := cl
				c.Ev("t%d op%d %s", ti, i, cl.op)
				s.Call(t, i, &cl.out, func() { m.Exec(cl.op, cl.args, &cl.out) })
				cl.outs = outVals(m, cl.op, cl.args)
				cl.ran = true
				c.Ev("t%d op%d done %s", ti, i, obs(cl.op, &cl.out, cl.outs))
				s.Yield(t)
			}
		})
		tk.id = ti
	}
}

// simpleSource is a well-behaved randomness source.
type simpleSource struct{ r *Rng }

func (s *simpleSource) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(s.r.U64())
	}
	return len(b), nil
}

func scenC01(c *Ctx) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m := machines[variant]
	simrand.Reader = &simpleSource{c.R("src")}
	ops := concOps(c, r, func(sp *core.Spec) bool { return true })
	place := func(v core.Val, name string) interface{} { return fresh(m, v) }
	tasks := buildConc(c, m, ops, place, 5, true)
	s := newSched(c)
	s.configure(variant)
	addTasks(c, s, m, tasks)
	c.Ev("C01 %s ops %v tasks %d", variant, ops, len(tasks))
	end := s.Run()
	c.Nums["switches"] += int64(s.nsw)
	if x := simhook.Raced; x != nil && c.Solo == 0 {
		c.Fail("race", "%s: data race, unordered %s: %s and %s", variant, x.What, siteName(x.A), siteName(x.B))
		return
	}
	if end == "crash" && c.Solo == 0 {
		o := s.epitaph()
		c.Fail(end, "%s: a panic %s", variant, o.Panic)
		return
	}
	if end != "" && c.Solo == 0 {
		c.Fail(end, "the tasks do not finish: %s", end)
		return
	}
	for ti, l := range tasks {
		for i, cl := range l {
			if !cl.ran {
				continue
			}
			c.Nums["calls"]++
			e := core.Sem(cl.op, cl.vals, book)
			if bad := core.Judge(cl.op, cl.vals, e, &cl.out, cl.outs); bad != "" {
				v := c.Fail("interference", "%s: task %d call %d %s %s", variant, ti, i, cl.op, bad)
				if c.Solo == 0 {
					v.Confirm = &Confirm{Solo: ti + 1}
				}
				break // what follows in this task may only be a consequence
			}
		}
	}
}

func scenC02(c *Ctx) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m := machines[variant]
	simrand.Reader = &simpleSource{c.R("src")}
	a := newArena(1 << 21)
	n := 0
	place := func(v core.Val, name string) interface{} {
		n++
		pr := c.R("spare/%d", n)
		x := a.place(m, v, name, pr.N(40))
		if pr.P(1, 8) { // no call may write to values that are none, either
			switch v.K {
			case 'S':
				m.Put(x, core.Val{K: 'S', S: genInt(pr, 256)})
			case 'P', 'F', 'N', 'T':
				m.Poison(x, pr.U64)
			}
		}
		return x
	}
	ops := concOps(c, r, func(sp *core.Spec) bool {
		for _, g := range sp.Args {
			if g.Mode == 'i' && g.Kind != 'b' && g.Kind != 'u' {
				return true
			}
		}
		return false
	})
	tasks := buildConc(c, m, ops, place, 4, false)
	base := append([]byte{}, m.BaseTableMem()...)
	a.protect(true)
	s := newSched(c)
	s.configure(variant)
	addTasks(c, s, m, tasks)
	c.Ev("C02 %s ops %v tasks %d", variant, ops, len(tasks))
	end := s.Run()
	a.protect(false)
	if end == "crash" {
		if o := s.epitaph(); o.Fault != 0 {
			if w := a.who(o.Fault); w != "" {
				c.Fail("write", "%s: a goroutine of the library writes to %s, which it only reads (%s)", variant, w, o.Panic)
			}
		}
	}
	c.Nums["switches"] += int64(s.nsw)
	for ti, l := range tasks {
		for i, cl := range l {
			if !cl.ran {
				continue
			}
			c.Nums["calls"]++
			for j, g := range core.ByName[cl.op].Args {
				if g.Mode == 'i' {
					c.State("%s/%s/%d/%s", variant, cl.op, j, short(meaning(cl.vals[j]), 20))
				}
			}
			if cl.out.Fault != 0 {
				if w := a.who(cl.out.Fault); w != "" {
					c.Fail("write", "%s: task %d call %d %s writes to %s, which it only reads (%s)", variant, ti, i, cl.op, w, cl.out.Panic)
				}
			}
		}
	}
	if string(base) != string(m.BaseTableMem()) {
		c.Fail("write", "%s: the base point table was modified", variant)
	}
}
