package main

import (
	"fmt"

	"verif.local/main/core"
	simrand "verif.local/simhook/rand"
)

// A replicated log of calls, executed by nodes on all field backends.

type cmd struct {
	op   string
	args []int      // variables, -1 for immediate values
	imm  []core.Val // immediate values
	puts map[int]core.Val
	obs  string // what the first node to execute it observed
	by   string
	rnd  uint64 // randomness for draws
	n    int
}

type cnode struct {
	node
	id   int
	vars []interface{}
	pos  int
	slow int64
	tick func()
	idle bool // at the end of the log
}

// bookOf collects the Lizard data for probes.
func scenC07(c *Ctx) {
	r := c.R("cfg")
	simrand.Modern = false
	nn := len(variants)
	ms := []core.Machine{}
	for _, v := range variants {
		ms = append(ms, machines[v])
	}
	net := newNet(c, nn)
	// the pool only serves to describe and pick variables; nodes hold their own
	p := &pool{c: c, ms: ms}
	pr := c.R("pool")
	k := 2 + r.N(3)
	p.add(pr, 'P', k)
	p.add(pr, 'S', k)
	p.add(pr, 'F', k+1)
	p.add(pr, 'N', 2)
	p.add(pr, 'T', 1)
	p.add(pr, 'h', 2)
	p.add(pr, 'q', 1)
	p.add(pr, 'w', 1)
	p.add(pr, 'y', 1)
	p.add(pr, 'I', 1)
	ops := histOps(r)
	fieldy := r.P(2, 5)
	if fieldy {
		ops = fieldOps(r)
	}
	steps := 10 + r.N(40)
	budget := 900
	if fieldy {
		steps = 60 + r.N(240)
	}
	nodes := make([]*cnode, nn)
	for i := range nodes {
		nodes[i] = &cnode{node: node{c: c, m: ms[i]}, id: i}
		for _, x := range p.vars {
			nodes[i].vars = append(nodes[i].vars, x.v[i])
		}
		nodes[i].slow = 1 + c.R("speed/%d", i).LogU(60)
	}
	leader := r.N(nn)
	var log []*cmd
	c.Ev("C07 leader %s steps %d field %v", variants[leader], steps, fieldy)

	// exec runs one command on a node and judges it.
	exec := func(n *cnode, cm *cmd) bool {
		sp := core.ByName[cm.op]
		for vi, val := range cm.puts {
			if p.vars[vi].kind == 'y' {
				n.vars[vi] = append([]byte{}, val.B...)
			} else {
				n.m.Put(n.vars[vi], val)
			}
		}
		vs := make([]interface{}, len(sp.Args))
		vals := make([]core.Val, len(sp.Args))
		names := ""
		for j, vi := range cm.args {
			if vi < 0 {
				vs[j], vals[j] = fresh(n.m, cm.imm[j]), cm.imm[j]
				names += " " + cm.imm[j].Show()
				continue
			}
			vs[j], vals[j] = n.vars[vi], n.m.Get(n.vars[vi])
			names += " " + p.vars[vi].name
		}
		simrand.Reader = &simpleSource{&Rng{cm.rnd}}
		e := core.Sem(cm.op, vals, book)
		var out core.Outcome
		direct(c, &out, opLimit, func() { n.m.Exec(cm.op, vs, &out) })
		outs := outVals(n.m, cm.op, vs)
		o := obs(cm.op, &out, outs)
		c.Nums["calls"]++
		c.Ev("t=%d %s executes %d %s%s: %s", net.now, n.m.Name(), cm.n, cm.op, names, short(o, 200))
		c.State("%s/%s/%s", n.m.Name(), cm.op, short(o, 60))
		if msg := core.Judge(cm.op, vals, e, &out, outs); msg != "" {
			c.Fail("spec", "%s: command %d %s%s %s; operands %s", n.m.Name(), cm.n, cm.op, names, msg, showAll(vals))
			net.stop = true
			return false
		}
		if cm.by == "" {
			cm.obs, cm.by = o, n.m.Name()
		} else if cm.obs != o && !undefined(cm.op, vals, &out) {
			c.Fail("agree", "command %d %s%s: %s observes %s, %s observes %s", cm.n, cm.op, names, cm.by, cm.obs, n.m.Name(), o)
			net.stop = true
			return false
		}
		if n.id == leader {
			if msg := crefCheck(c, cm.op, vals); msg != "" {
				c.Fail("cref", "command %d %s%s: the C reference %s; operands %s", cm.n, cm.op, names, msg, showAll(vals))
				net.stop = true
				return false
			}
		}
		return true
	}

	// the leader makes the log as it goes
	for i := 0; i < steps && budget > 0; i++ {
		if !c.On("cmd/%d", i) {
			continue
		}
		or := c.R("cmd/%d", i)
		op := ops(or)
		sp := core.ByName[op]
		budget -= sp.Cost
		log = append(log, &cmd{op: op, n: i, rnd: or.U64()})
	}
	made := 0
	step := func(n *cnode) bool {
		cm := log[n.pos]
		if n.pos == made { // first to come here: fix the operands by this node's state
			or := c.R("args/%d", cm.n)
			lp := &pool{c: c, ms: []core.Machine{n.m}}
			for i, x := range p.vars {
				lp.vars = append(lp.vars, &pvar{kind: x.kind, name: x.name, v: []interface{}{n.vars[i]}})
			}
			cm.puts = map[int]core.Val{}
			before := make([]core.Val, len(lp.vars))
			for i, x := range lp.vars {
				if x.kind != 'T' {
					before[i] = n.m.Get(x.v[0])
				}
			}
			// sometimes values that resemble others
			if or.P(1, 5) {
				a, b := or.N(len(lp.vars)), or.N(len(lp.vars))
				x, y := lp.vars[a], lp.vars[b]
				if x.kind == y.kind && x.kind != 'T' && x.kind != 'N' && x.kind != 'y' {
					if v := n.m.Get(y.v[0]); usable(v) {
						lp.put(x, related(or, v))
					}
				}
			}
			args := lp.pick(or, cm.op)
			if args == nil {
				cm.op = "P.SetBase"
				args = lp.pick(or, cm.op)
			}
			lp.prepare(or, cm.op, args)
			for i, x := range lp.vars {
				if x.kind == 'T' {
					continue
				}
				v := n.m.Get(x.v[0])
				if !core.Same(v, before[i]) || x.kind == 'P' && (v.P != before[i].P) {
					cm.puts[i] = v
				}
				n.vars[i] = x.v[0]
			}
			for j, x := range args {
				vi := -1
				var imm core.Val
				if x == nil {
					imm = genVal(or, cm.op, j, core.ByName[cm.op].Args[j].Kind)
				}
				for q := range lp.vars {
					if lp.vars[q] == x && x != nil {
						vi = q
					}
				}
				cm.args = append(cm.args, vi)
				cm.imm = append(cm.imm, imm)
			}
			made++
		}
		if !exec(n, cm) {
			return false
		}
		n.pos++
		return true
	}
	if len(log) == 0 {
		return
	}
	for _, n := range nodes {
		n := n
		n.tick = func() {
			n.idle = n.pos >= len(log)
			if !n.idle {
				if !step(n) {
					return
				}
				d := n.slow
				if r := c.R("stall/%d/%d", n.id, n.pos); r.P(1, 20) && c.Fault("stall", fmt.Sprintf("stall/%d/%d", n.id, n.pos)) {
					d += r.LogU(2000)
				}
				net.After(d, n.tick)
			}
		}
		net.After(n.slow, n.tick)
	}
	// crashes: the node is rebuilt from another node's encoded state
	for _, n := range nodes {
		n := n
		cr := c.R("life/%d", n.id)
		for q := 0; q < cr.N(3); q++ {
			from := nodes[cr.N(nn)]
			at := cr.LogU(int64(len(log)) * 40)
			key := fmt.Sprintf("rebuild/%d/%d", n.id, q)
			kr := c.R(key)
			net.After(at, func() {
				if from == n || net.stop || !c.Fault("crash-rebuild-from-"+from.m.Name(), key) {
					return
				}
				c.Ev("t=%d %s restarts from the state of %s at %d", net.now, n.m.Name(), from.m.Name(), from.pos)
				if msg := transfer(kr, p, from, n); msg != "" {
					c.Fail("transfer", "state of %s loaded by %s: %s", from.m.Name(), n.m.Name(), msg)
					net.stop = true
				}
				n.pos = from.pos
				if n.idle {
					n.idle = false
					net.After(n.slow, n.tick)
				}
			})
		}
	}
	net.Run(1 << 40)
	if net.stop {
		return
	}
	for _, n := range nodes[1:] {
		if n.pos != len(log) {
			fatal("simulator: node %d stopped at %d", n.id, n.pos)
		}
		for i, x := range p.vars {
			a, b := nodes[0].m.Get(nodes[0].vars[i]), n.m.Get(n.vars[i])
			if usable(a) != usable(b) || usable(a) && meaning(a) != meaning(b) {
				c.Fail("agree", "at the end %s of %s is %s, of %s %s", x.name, nodes[0].m.Name(), short(meaning(a), 100), n.m.Name(), short(meaning(b), 100))
				return
			}
		}
	}
}

// undefined says whether the specification leaves the outcome of a call open.
func undefined(op string, vals []core.Val, out *core.Outcome) bool {
	switch op {
	case "P.SetBytes", "E.SetRistretto", "P.UnmarshalBinary", "P.UnmarshalText":
		return out.Err // what the receiver then holds
	case "S.Inverse":
		return vals[1].S.Sign() == 0
	case "E.Jacobi":
		return true
	}
	return false
}

func showAll(vals []core.Val) string {
	s := ""
	for _, v := range vals {
		if v.K != 'T' {
			s += " " + v.Show()
		}
	}
	return s
}

// transfer rebuilds dst's variables from src's encodings.
func transfer(r *Rng, p *pool, src, dst *cnode) string {
	for i, x := range p.vars {
		sv := src.m.Get(src.vars[i])
		switch x.kind {
		case 'P', 'S':
			if !usable(sv) {
				dst.m.Put(dst.vars[i], sv)
				continue
			}
			form := snapForms[r.N(len(snapForms))]
			b := src.save(string(x.kind), form, src.vars[i])
			nv := dst.m.New(x.kind)
			if !dst.load(string(x.kind), form, b, nv) {
				return fmt.Sprintf("%s encoded by %s as %q (%s) is rejected", x.name, src.m.Name(), b, form)
			}
			dst.vars[i] = nv
			if dv := dst.m.Get(nv); !core.Same(dv, sv) {
				return fmt.Sprintf("%s encoded as %q (%s) becomes %s", x.name, b, form, dv.Show())
			}
		case 'F':
			var h [32]byte
			src.do("F.BytesInto", src.vars[i], &h)
			dst.do("F.SetBytes", dst.vars[i], &h)
			if dv := dst.m.Get(dst.vars[i]); !core.Same(dv, sv) {
				return fmt.Sprintf("%s encoded as %x becomes %s", x.name, h, dv.Show())
			}
		case 'T':
			if usable(sv) {
				q := dst.m.New('P')
				dst.m.Put(q, core.Val{K: 'P', P: sv.P})
				dst.do("T.Compute", dst.vars[i], q)
			}
		case 'y':
			dst.vars[i] = append([]byte{}, sv.B...)
		default:
			dst.m.Put(dst.vars[i], sv)
		}
	}
	if src.bad != "" {
		return src.bad
	}
	return dst.bad
}

// fieldOps prefers field arithmetic, in long chains without re-encoding.
func fieldOps(r *Rng) func(*Rng) string {
	all := []string{"F.Add", "F.Sub", "F.Neg", "F.Mul", "F.Square", "F.DoubledSquare", "F.Inverse", "F.Abs", "F.Exp22523",
		"F.InvSqrtI", "F.ConditionalSet", "F.SetBytes", "F.BytesInto", "F.Bytes", "F.BigInt", "F.SetBigInt",
		"F.IsNegativeI", "F.IsNonZeroI", "F.IsOneI", "F.EqualsI", "F.Equals", "F.Set", "F.String", "F.SetOne", "F.SetZero", "F.SetI",
		"S.Add", "S.Sub", "S.Mul", "S.Neg", "S.MulAdd", "S.MulSub", "S.Square", "S.SetReduced", "S.SetBytes", "S.Inverse",
		"P.Add", "P.Sub", "P.Double", "P.Neg", "E.Add", "E.Double", "E.DoubleProjective", "E.AddNiels", "E.SubNiels", "N.SetExtended", "N.Neg",
		"P.Equals", "P.BytesInto"}
	var fav []string
	for i := 0; i < 2+r.N(6); i++ {
		fav = append(fav, all[r.N(len(all))])
	}
	return func(or *Rng) string {
		if or.P(1, 2) {
			return fav[or.N(len(fav))]
		}
		return all[or.N(len(all))]
	}
}
