package main

import (
	"bytes"

	"verif.local/main/core"
	simrand "verif.local/simhook/rand"
)

// scenSoak is a long history of few calls: many operand sets are visited, and
// visited again much later.  What a call did at one visit it must do at the
// others; when two visits differ the model says which one was wrong.
func scenSoak(c *Ctx, r *Rng, m core.Machine, variant string) {
	simrand.Modern = false
	simrand.Reader = &faultySource{r: c.R("src")}
	var ops []string
	for want := 1 + r.N(3); len(ops) < want; {
		sp := &core.Specs[r.N(len(core.Specs))]
		if sp.Rand || sp.Cost > 100 {
			continue
		}
		ops = append(ops, sp.Name)
	}
	cost := 0
	for _, op := range ops {
		cost += core.ByName[op].Cost
	}
	cost = (cost + len(ops) - 1) / len(ops)
	n := []int{5, 12, 20, 40, 70, 140, 270, 530, 1040}[r.N(9)]
	total := 12000 / (cost + 3)
	for _, op := range ops {
		for _, g := range core.ByName[op].Args {
			if g.Kind == 'T' && n > 12 {
				n = 12 // tables are expensive to make
			}
		}
	}
	if n > total/2 {
		n = total / 2
	}
	if total > 3*n {
		total = 3*n + 40
	}
	if r.P(1, 6) {
		total = 12000 / (cost + 3)
	}
	lumpy := r.P(1, 3) // operand sets resemble each other
	c.Ev("C05 %s soak of %v: %d operand sets, %d calls", variant, ops, n, total)
	c.Probe("histories of hundreds of calls")

	type set struct {
		op   string
		vals []core.Val
		raw  [][]byte
		outs [][]byte // memory of the outputs at the first visit
		vs   []interface{}
		out  core.Outcome
		got  map[int]core.Val
		o    string
		at   int
	}
	sets := make([]*set, n)
	recv := map[string][]interface{}{} // receivers live on, as they were left
	fail := func(s *set, at int, vs []interface{}, out *core.Outcome, got map[int]core.Val, o string) bool {
		msg := core.Judge(s.op, s.vals, core.Sem(s.op, s.vals, book), out, got)
		if msg == "" {
			return false
		}
		v := c.Fail("dependence", "%s: call %d of a long history, %s on operand set seen at call %d, %s", variant, at, s.op, s.at, msg)
		pb := makeProbe(m, s.op, vs, s.raw)
		pb.Seen = o
		for _, d := range book {
			d := d
			pb.Book = append(pb.Book, d[:])
		}
		v.Confirm = &Confirm{Probe: pb}
		return true
	}
	for i := 0; i < total; i++ {
		if !c.On("step/%d", i) {
			continue
		}
		or := c.R("step/%d", i)
		k := i // first all sets in turn, then again at random, then in turn
		if i >= n {
			k = i % n
			if i < 2*n || i >= 3*n {
				k = or.N(n)
			}
		}
		s := sets[k]
		first := s == nil
		if first {
			tr := c.R("set/%d", k)
			s = &set{op: ops[tr.N(len(ops))], at: i}
			for j, g := range core.ByName[s.op].Args {
				v := genVal(tr, s.op, j, g.Kind)
				if lumpy && k > 0 {
					if q := sets[tr.N(k)]; q != nil && q.op == s.op && q.vals[j].K == g.Kind && g.Mode != 'o' && tr.P(3, 4) && !rawScalar(s.op) && !(g.Kind == 'F' && (s.op == "F.InvSqrt" || s.op == "F.Sqrt")) {
						v = related(tr, q.vals[j])
					}
				}
				s.vals = append(s.vals, v)
			}
			sets[k] = s
		}
		sp := core.ByName[s.op]
		vs := make([]interface{}, len(sp.Args))
		old := recv[s.op]
		for j, g := range sp.Args {
			keep := old != nil && g.Kind != 'T' && g.Kind != 'b' && g.Kind != 'u' && g.Kind != 'y' && g.Kind != 'I'
			switch {
			case g.Kind == 'T' && s.vs != nil:
				vs[j] = s.vs[j]
			case g.Mode == 'o' && g.Kind != 'S' && g.Kind != 'q' && keep:
				vs[j] = old[j]
			case keep && or.P(1, 2): // same variable, new value
				vs[j] = old[j]
				m.Put(vs[j], s.vals[j])
			default:
				vs[j] = fresh(m, s.vals[j])
			}
		}
		recv[s.op] = vs
		if first {
			s.raw = rawOf(m, vs)
			for j, g := range sp.Args {
				if g.Mode != 'o' || g.Kind == 'S' || g.Kind == 'q' {
					s.vals[j] = m.Get(vs[j])
				}
			}
		}
		var out core.Outcome
		direct(c, &out, opLimit, func() { m.Exec(s.op, vs, &out) })
		c.Nums["calls"]++
		c.Order(int64(k))
		mem := make([][]byte, len(vs))
		for j, g := range sp.Args {
			if g.Mode != 'i' {
				mem[j] = append([]byte{}, m.Mem(vs[j])...)
			}
		}
		if first {
			s.out, s.outs, s.at = out, mem, i
			s.got = outVals(m, s.op, vs)
			s.vs = vs
			s.o = obs(s.op, &out, s.got)
			c.State("%s/%s/soak/%v", variant, s.op, out.Err)
			if or.P(1, 8) && fail(s, i, vs, &out, s.got, s.o) {
				return
			}
			continue
		}
		same := out.Ret == s.out.Ret && out.Err == s.out.Err && out.Hang == s.out.Hang &&
			(out.Panic == "") == (s.out.Panic == "") && len(out.Fes) == len(s.out.Fes) && len(out.Pts) == len(s.out.Pts)
		for j := range mem {
			same = same && bytes.Equal(mem[j], s.outs[j])
		}
		if same && len(out.Fes)+len(out.Pts) == 0 {
			continue
		}
		got := outVals(m, s.op, vs)
		o := obs(s.op, &out, got)
		if o == s.o {
			continue
		}
		c.Probe("visits that differ")
		if fail(s, i, vs, &out, got, o) || fail(s, s.at, s.vs, &s.out, s.got, s.o) {
			return
		}
	}
	c.Ev("end %v", c.Nums["calls"])
}
