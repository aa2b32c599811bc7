package main

import (
	"fmt"
	"math/big"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

type contrib struct {
	k, w *big.Int
	enc  [32]byte
}

type replica struct {
	node
	id      int
	acc     interface{}
	tot     interface{} // total of the weights in acc and parts
	parts   []interface{}
	applied map[int]int  // contribution -> multiplicity in acc and parts
	got     map[int]bool // delivered
	plan    map[int]int
	snap    []byte
	snapK   string
	snapT   []byte
	snapApp map[int]int
	tables  map[int]interface{}
	nroute  int
}

var snapForms = []string{"Bytes", "MarshalBinary", "MarshalText", "JSON", "Gob"}

// save encodes a point or scalar variable in one of the forms.
func (n *node) save(kind, form string, v interface{}) []byte {
	o := n.do(kind+"."+form, v)
	if len(o.Handed) == 1 {
		return append([]byte{}, o.Handed[0].([]byte)...)
	}
	return nil
}

// load decodes what save made; false when it is rejected.
func (n *node) load(kind, form string, b []byte, v interface{}) bool {
	var o *core.Outcome
	switch form {
	case "Bytes":
		if len(b) != 32 {
			return false
		}
		if kind == "S" {
			o = n.do("S.SetBytesStrict", v, n.H(b))
		} else {
			o = n.do("P.SetBytes", v, n.H(b))
		}
	case "MarshalBinary":
		o = n.do(kind+".UnmarshalBinary", v, b)
	case "MarshalText":
		o = n.do(kind+".UnmarshalText", v, b)
	case "JSON":
		o = n.do(kind+".FromJSON", v, b)
	case "Gob":
		o = n.do(kind+".FromGob", v, b)
	}
	return !o.Err && o.Panic == ""
}

func (rp *replica) scalar(x *big.Int) interface{} {
	return fresh(rp.m, core.Val{K: 'S', S: model.ModL(x)})
}

func le(x *big.Int) []byte { b := model.LE32(x); return b[:] }

// weigh returns a variable holding w*P for contribution x by some route.
func (rp *replica) weigh(r *Rng, i int, x *contrib, w *big.Int) (interface{}, string) {
	t := rp.P()
	rp.m.Poison(t, r.U64)
	p := rp.P()
	if o := rp.do("P.SetBytes", p, rp.H(x.enc[:])); o.Err {
		rp.bad = "rejects the encoding of a contribution"
	}
	switch r.N(4) {
	case 0: // another representative of the same element
		q := rp.P()
		rp.do([]string{"E.SetTorsion1", "E.SetTorsion2", "E.SetTorsion3"}[r.N(3)], q)
		rp.do("E.Add", p, p, q)
	case 1: // other projective coordinates
		q := rp.P()
		rp.do("P.Double", q, p)
		rp.do("P.Sub", p, q, p)
	}
	s := rp.scalar(w)
	table := func() interface{} {
		if rp.tables[i] == nil {
			rp.tables[i] = rp.m.New('T')
			rp.do("T.Compute", rp.tables[i], p)
		}
		return rp.tables[i]
	}
	wide := func(v *big.Int) interface{} {
		v = model.ModL(v)
		if y := new(big.Int).Add(v, model.L); r.P(1, 2) && y.BitLen() <= 253 {
			v = y
		}
		return rp.H(le(v))
	}
	wk := func() interface{} {
		q := rp.S()
		rp.do("S.Mul", q, s, rp.scalar(x.k))
		return q
	}
	rt := r.N(16)
	switch rt {
	case 0:
		rp.do("P.ScalarMult", t, p, s)
	case 1:
		rp.do("P.PublicScalarMult", t, p, s)
	case 2:
		rp.do("P.ScalarMultTable", t, table(), s)
	case 3:
		rp.do("P.PublicScalarMultTable", t, table(), s)
	case 4:
		rp.do("P.ScalarMultBase", t, wk())
	case 5:
		rp.do("P.PublicScalarMultBase", t, wk())
	case 6: // double and add
		rp.do("P.SetZero", t)
		v := model.ModL(w)
		neg := new(big.Int).Sub(model.L, v)
		useNeg := neg.BitLen() < v.BitLen() || r.P(1, 4)
		if useNeg {
			v = neg
		}
		for b := v.BitLen() - 1; b >= 0; b-- {
			rp.do("P.Double", t, t)
			if v.Bit(b) == 1 {
				if useNeg {
					rp.do("P.Sub", t, t, p)
				} else {
					rp.do("P.Add", t, p, t)
				}
			}
		}
	case 7: // split the weight
		a := genScalar(r)
		sa, sb, u := rp.scalar(a), rp.S(), rp.P()
		rp.do("S.Sub", sb, s, sa)
		rp.do("P.ScalarMult", t, p, sa)
		rp.do("P.PublicScalarMult", u, p, sb)
		rp.do("P.Add", t, t, u)
	case 8: // in place
		rp.do("P.Set", t, p)
		rp.do("P.ScalarMult", t, t, s)
	case 9: // factor the weight
		a := genScalar(r)
		if a.Sign() == 0 {
			a = bi(3)
		}
		sa, sb := rp.scalar(a), rp.S()
		rp.do("S.Inverse", sb, sa)
		rp.do("S.Mul", sb, sb, s)
		rp.do("P.PublicScalarMult", t, p, sb)
		rp.do("P.ScalarMult", t, t, sa)
	case 10:
		rp.do("E.ScalarMult", t, p, wide(w))
	case 11:
		rp.do("E.VarTimeScalarMult", t, p, wide(w))
	case 12:
		rp.do("E.BaseTable", t, wide(new(big.Int).Mul(w, x.k)))
	case 13:
		rp.do("E.BaseTableVarTime", t, wide(new(big.Int).Mul(w, x.k)))
	case 14: // negated twice
		q := rp.S()
		rp.do("S.Neg", q, s)
		rp.do("P.ScalarMult", t, p, q)
		rp.do("P.Neg", t, t)
	case 15: // negated base, negated weight
		q := rp.S()
		rp.do("S.Neg", q, s)
		rp.do("P.Neg", p, p)
		rp.do("P.PublicScalarMult", t, p, q)
	}
	return t, fmt.Sprint("route ", rt)
}

// addTo adds t to the accumulator a by some way of adding.
func (rp *replica) addTo(r *Rng, a, t interface{}, sub bool) {
	switch r.N(6) {
	case 0:
		op := "E.Add"
		if sub {
			op = "E.Sub"
		}
		rp.do(op, a, a, t)
	case 1: // through the negative
		q := rp.P()
		rp.do("P.Neg", q, t)
		if sub {
			rp.do("P.Add", a, q, a)
		} else {
			rp.do("P.Sub", a, a, q)
		}
	case 2: // through a Niels point
		n := rp.m.New('N')
		rp.do("N.SetExtended", n, t)
		if sub {
			rp.do("E.SubNiels", a, a, n)
		} else {
			rp.do("E.AddNiels", a, a, n)
		}
	case 3: // through conditional assignment
		q, z := rp.P(), rp.P()
		rp.do("P.SetBase", z)
		if sub {
			rp.do("P.Sub", q, a, t)
		} else {
			rp.do("P.Add", q, a, t)
		}
		rp.do("P.ConditionalSet", a, q, int32(1))
		rp.do("P.ConditionalSet", a, z, int32(0))
	default:
		if sub {
			rp.do("P.Sub", a, a, t)
		} else {
			rp.do("P.Add", a, a, t)
		}
	}
}

func (rp *replica) sum(cs []*contrib, applied map[int]int) *big.Int {
	s := new(big.Int)
	for i, n := range applied {
		x := new(big.Int).Mul(cs[i].k, cs[i].w)
		s.Add(s, x.Mul(x, bi(int64(n))))
	}
	return model.ModL(s)
}

// addWeight adds w to the total by some route, or subtracts it.
func (rp *replica) addWeight(r *Rng, w *big.Int, sub bool) {
	s, t := rp.scalar(w), rp.tot
	n := r.N(6)
	if sub {
		n += 6
	}
	one, q := rp.scalar(bi(1)), rp.S()
	rp.m.Poison(q, r.U64)
	switch n {
	case 0:
		rp.do("S.Add", t, s, t)
	case 1:
		rp.do("S.MulAdd", t, one, s, t)
	case 2:
		rp.do("S.Neg", q, s)
		rp.do("S.Sub", t, t, q)
	case 3: // in two parts
		a := rp.scalar(genScalar(r))
		rp.do("S.Sub", q, s, a)
		rp.do("S.Add", t, t, q)
		rp.do("S.Add", t, a, t)
	case 4: // 1*t - (-s)
		rp.do("S.Neg", q, s)
		rp.do("S.MulSub", t, t, one, q)
	case 6:
		rp.do("S.Sub", t, t, s)
	case 7: // -(s - t)
		rp.do("S.Sub", t, s, t)
		rp.do("S.Neg", t, t)
	case 8:
		rp.do("S.Neg", q, s)
		rp.do("S.Add", t, t, q)
	case 9:
		rp.do("S.MulSub", t, one, t, s)
	case 10: // -1*s + t
		rp.do("S.Neg", one, one)
		rp.do("S.MulAdd", t, one, s, t)
	default:
		if sub {
			rp.do("S.Sub", t, t, s)
		} else {
			rp.do("S.Add", t, t, s)
		}
	}
}

func (rp *replica) weight(cs []*contrib, applied map[int]int) *big.Int {
	s := new(big.Int)
	for i, n := range applied {
		s.Add(s, new(big.Int).Mul(cs[i].w, bi(int64(n))))
	}
	return model.ModL(s)
}

func scenC06(c *Ctx) {
	r := c.R("cfg")
	simrand.Reader = &simpleSource{c.R("src")}
	nr := 2 + r.N(3)
	nc := 1 + r.N(7)
	if c.Tier == "thorough" {
		nc = 1 + r.N(10)
	}
	net := newNet(c, nr)
	net.pBad = 0 // see C08 and C11
	var cs []*contrib
	for i := 0; i < nc; i++ {
		cr := c.R("contrib/%d", i)
		x := &contrib{w: genScalar(cr)}
		switch cr.N(6) {
		case 0:
			x.k = bi(int64(cr.N(4)))
		case 1:
			if i > 0 {
				x.k = new(big.Int).Set(cs[cr.N(i)].k)
			} else {
				x.k = bi(1)
			}
		case 2:
			x.k = bi(1)
			if i > 0 {
				x.k = model.ModL(new(big.Int).Neg(cs[cr.N(i)].k))
			}
		default:
			x.k = genScalar(cr)
		}
		if i > 0 && cr.P(1, 8) { // weights that cancel
			x.w = model.ModL(new(big.Int).Neg(cs[i-1].w))
		}
		if cr.P(1, 4) { // weights whose total is an edge case
			sub := map[int]int{}
			for j := range cs {
				if cr.P(3, 4) {
					sub[j] = 1
				}
			}
			x.w = edgeMod(cr, model.L)
			x.w.Sub(x.w, (*replica)(nil).weight(cs, sub))
			x.w.Mod(x.w, model.L)
		}
		x.enc = model.MulBase(x.k).Encode()
		cs = append(cs, x)
	}
	var rs []*replica
	for i := 0; i < nr; i++ {
		m := machines[pickVariant(c.R("m/%d", i))]
		rp := &replica{node: node{c: c, m: m}, id: i}
		rs = append(rs, rp)
	}
	reset := func(rp *replica) {
		rp.acc = rp.P()
		rp.do("P.SetZero", rp.acc)
		rp.tot = rp.S()
		rp.do("S.SetZero", rp.tot)
		rp.parts = nil
		rp.applied = map[int]int{}
		rp.got = map[int]bool{}
		rp.tables = map[int]interface{}{}
		if rp.snap != nil {
			if !rp.load("P", rp.snapK, rp.snap, rp.acc) || !rp.load("S", rp.snapK, rp.snapT, rp.tot) {
				c.Fail("snapshot", "%s: replica %d cannot load its own snapshot %q %q (%s)", rp.m.Name(), rp.id, rp.snap, rp.snapT, rp.snapK)
			}
			for i, n := range rp.snapApp {
				rp.applied[i] = n
				rp.got[i] = true
			}
		}
	}
	accApplied := func(rp *replica) map[int]int { return rp.applied }
	// check compares the accumulator with the sum in the exponent.
	check := func(rp *replica, what string) bool {
		if rp.bad != "" {
			c.Fail("call", "%s: replica %d %s: %s", rp.m.Name(), rp.id, what, rp.bad)
			net.stop = true
			return false
		}
		tot := rp.P()
		rp.do("P.Set", tot, rp.acc)
		for _, q := range rp.parts {
			rp.do("P.Add", tot, q, tot)
		}
		want := model.MulBase(rp.sum(cs, accApplied(rp))).Encode()
		got := rp.enc(tot)
		if got != want {
			c.Fail("sum", "%s: replica %d after %s encodes %x, the contributions sum to %x", rp.m.Name(), rp.id, what, got, want)
			net.stop = true
			return false
		}
		q := rp.P()
		if o := rp.do("P.SetBytes", q, rp.H(want[:])); o.Err {
			c.Fail("sum", "%s: replica %d rejects %x", rp.m.Name(), rp.id, want)
			net.stop = true
			return false
		}
		if o := rp.do("P.Equals", q, tot); o.Ret != core.RetBool(true) {
			c.Fail("equal", "%s: replica %d after %s: the sum does not compare equal to itself (%x)", rp.m.Name(), rp.id, what, want)
			net.stop = true
			return false
		}
		wt := rp.weight(cs, accApplied(rp))
		if o := rp.do("S.Bytes", rp.tot); o.Ret != core.RetBytes(le(wt)) {
			c.Fail("weight", "%s: replica %d after %s: the total weight is %s, the weights sum to %x", rp.m.Name(), rp.id, what, o.Ret, le(wt))
			net.stop = true
			return false
		}
		if o := rp.do("S.Equals", rp.tot, rp.scalar(wt)); o.Ret != core.RetBool(true) {
			c.Fail("weight", "%s: replica %d after %s: the total weight does not compare equal to %x", rp.m.Name(), rp.id, what, le(wt))
			net.stop = true
			return false
		}
		// things that must differ
		for _, o := range rs {
			if o == rp || o.acc == nil {
				continue
			}
			oe := model.MulBase(o.sum(cs, o.applied)).Encode()
			rp.do("P.SetBytes", q, rp.H(oe[:]))
			if e := rp.do("P.EqualsI", tot, q); e.Ret != core.RetInt(map[bool]int64{true: 1, false: 0}[oe == want]) {
				c.Fail("equal", "%s: replica %d: EqualsI of %x and %x gives %s", rp.m.Name(), rp.id, want, oe, e.Ret)
				net.stop = true
				return false
			}
		}
		rp.do("P.Neg", q, tot)
		isZero := want == model.Identity.Encode()
		if e := rp.do("P.Equals", tot, q); e.Ret != core.RetBool(isZero) {
			c.Fail("equal", "%s: replica %d: %x compares equal to its negative: %s", rp.m.Name(), rp.id, want, e.Ret)
			net.stop = true
			return false
		}
		c.State("%x", want)
		return true
	}
	deliver := func(rp *replica, i int, at string) {
		if rp.got[i] {
			c.Probe("duplicate deliveries")
			return
		}
		rp.got[i] = true
		or := c.R("deliver/%d/%d/%s", rp.id, i, at)
		t, how := rp.weigh(or, i, cs[i], cs[i].w)
		target := rp.acc
		if or.P(1, 3) { // into a group of its own or an existing one
			if len(rp.parts) == 0 || or.P(1, 2) {
				q := rp.P()
				rp.do("P.SetZero", q)
				rp.parts = append(rp.parts, q)
			}
			target = rp.parts[or.N(len(rp.parts))]
			how += " grouped"
		}
		rp.addTo(or, target, t, false)
		rp.addWeight(or, cs[i].w, false)
		rp.applied[i]++
		c.Ev("t=%d replica %d (%s) folds %d by %s: %x", net.now, rp.id, rp.m.Name(), i, how, rp.enc(rp.acc))
		if !check(rp, fmt.Sprintf("folding contribution %d by %s", i, how)) {
			return
		}
		if or.P(1, 4) { // retract, later fold again
			key := fmt.Sprintf("retract/%d/%d/%s", rp.id, i, at)
			if c.Fault("retraction", key) {
				net.After(or.LogU(500), func() {
					if rp.applied[i] == 0 {
						return
					}
					u, how := rp.weigh(or, i, cs[i], cs[i].w)
					rp.addTo(or, rp.acc, u, true)
					rp.addWeight(or, cs[i].w, true)
					rp.applied[i]--
					if !check(rp, "retracting by "+how) {
						return
					}
					u, how = rp.weigh(or, i, cs[i], cs[i].w)
					rp.addTo(or, rp.acc, u, false)
					rp.addWeight(or, cs[i].w, false)
					rp.applied[i]++
					check(rp, "folding again by "+how)
				})
			}
		}
	}
	merge := func(rp *replica) {
		for _, q := range rp.parts {
			rp.do("P.Add", rp.acc, rp.acc, q)
		}
		rp.parts = nil
	}
	for _, rp := range rs {
		reset(rp)
	}
	// contributions are retransmitted until every replica has them
	for i := range cs {
		if !c.On("contribution/%d", i) {
			continue
		}
		i := i
		var tick func()
		n := 0
		tick = func() {
			n++
			all := true
			for _, rp := range rs {
				rp := rp
				if !rp.got[i] {
					all = false
					at := fmt.Sprint(n)
					net.Send(nr, rp.id, fmt.Sprintf("c%d/r%d", i, rp.id), nil, func([]byte) { deliver(rp, i, at) })
				}
			}
			if !all || net.now < net.calm {
				net.After(400, tick)
			}
		}
		net.After(c.R("origin/%d", i).LogU(2000), tick)
	}
	// snapshots and crashes
	for _, rp := range rs {
		rp := rp
		cr := c.R("life/%d", rp.id)
		for k := 0; k < cr.N(4); k++ {
			form := snapForms[cr.N(len(snapForms))]
			at := int64(cr.N(int(net.calm)))
			crash := cr.P(1, 2)
			key := fmt.Sprintf("crash/%d/%d", rp.id, k)
			net.After(at, func() {
				merge(rp)
				rp.snap, rp.snapK = rp.save("P", form, rp.acc), form
				rp.snapT = rp.save("S", form, rp.tot)
				rp.snapApp = map[int]int{}
				for i, n := range rp.applied {
					rp.snapApp[i] = n
				}
				check(rp, "taking a snapshot")
			})
			if crash {
				when := at + cr.LogU(1500)
				if when > net.calm {
					when = net.calm
				}
				net.After(when, func() {
					if c.Fault("crash-restart", key) {
						reset(rp)
						c.Ev("t=%d replica %d restarts", net.now, rp.id)
						check(rp, "restarting from a snapshot ("+rp.snapK+")")
					}
				})
			}
		}
	}
	net.Run(200000)
	if net.stop || len(c.Viols) > 0 {
		return
	}
	// quiescence: all agree
	want := map[int]int{}
	for _, rp := range rs {
		merge(rp)
		if !check(rp, "the end") {
			return
		}
		for i := range rp.got {
			want[i] = 1
		}
	}
	for _, rp := range rs {
		for i := range want {
			if rp.applied[i] != 1 {
				fatal("simulator: replica %d has contribution %d %d times", rp.id, i, rp.applied[i])
			}
		}
	}
	e0 := rs[0].enc(rs[0].acc)
	for _, rp := range rs[1:] {
		if e := rp.enc(rp.acc); e != e0 {
			c.Fail("agree", "replicas 0 (%s) and %d (%s) hold %x and %x", rs[0].m.Name(), rp.id, rp.m.Name(), e0, e)
		}
	}
	// and through the scalars: one sum in the exponent
	rp := rs[c.R("who").N(nr)]
	s := rp.S()
	rp.do("S.SetZero", s)
	for i := range cs {
		if want[i] == 1 {
			rp.do("S.MulAdd", s, rp.scalar(cs[i].k), rp.scalar(cs[i].w), s)
		}
	}
	t := rp.P()
	rp.do("P.ScalarMultBase", t, s)
	if rp.enc(t) != e0 || rp.do("P.Equals", t, rp.acc).Ret != core.RetBool(true) {
		c.Fail("sum", "%s: the base point times the scalar sum is %x, the replicas hold %x", rp.m.Name(), rp.enc(t), e0)
	}
}
