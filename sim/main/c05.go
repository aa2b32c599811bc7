package main

import (
	"fmt"
	"math/big"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// pool is a set of variables that calls are made on, held once per machine.
type pool struct {
	c    *Ctx
	ms   []core.Machine
	vars []*pvar
}

type pvar struct {
	kind byte
	name string
	v    []interface{} // per machine
}

func (p *pool) add(r *Rng, kind byte, n int) {
	for i := 0; i < n; i++ {
		x := &pvar{kind: kind, name: fmt.Sprintf("%c%d", kind, i)}
		val := genVal(r, "", 0, kind)
		if kind == 'y' {
			val.B = gen32(r)
		}
		spare := r.N(24)
		for _, m := range p.ms {
			v := fresh(m, val)
			if kind == 'y' {
				b := make([]byte, len(val.B)+spare)
				copy(b, val.B)
				for j := len(val.B); j < len(b); j++ {
					b[j] = 0xa5
				}
				v = b[:len(val.B)]
			}
			x.v = append(x.v, v)
		}
		p.vars = append(p.vars, x)
	}
}

// usable says whether a variable holds something that may be an operand.
func usable(v core.Val) bool {
	switch v.K {
	case 'P':
		return v.P.Valid()
	case 'S':
		return v.S.Cmp(model.L) < 0
	case 'T':
		return v.P.Valid() && core.TableErr(v.Tab, v.P) == ""
	case 'N':
		q := core.PtOfNiels(v.N)
		return q.Valid() && core.NielsOf(q.X, q.Y) == v.N
	}
	return true
}

// put assigns a value to a variable behind the library's back.
func (p *pool) put(x *pvar, val core.Val) {
	for i, m := range p.ms {
		if x.kind == 'y' {
			b := x.v[i].([]byte)
			b = b[:cap(b)]
			n := copy(b, val.B)
			x.v[i] = b[:n]
			continue
		}
		m.Put(x.v[i], val)
	}
}

// related makes a value that resembles the one of another variable.
func related(r *Rng, v core.Val) core.Val {
	for n := 1 + r.N(6)/3 + r.N(6)/5; n > 0; n-- {
		v = relatedOnce(r, v)
	}
	return v
}

func relatedOnce(r *Rng, v core.Val) core.Val {
	switch v.K {
	case 'P':
		if !v.P.Valid() {
			break
		}
		switch r.N(9) {
		case 6: // the negative, by the other coordinate
			v.P = model.Pt{X: v.P.X, Y: model.Neg(v.P.Y), Z: v.P.Z, T: model.Neg(v.P.T)}
		case 7, 8: // another element that shares a coordinate
			q := model.DblPt(v.P)
			if r.P(1, 2) {
				q = genPoint(r)
			}
			c := [][2]model.Fe{{v.P.X, q.X}, {v.P.Y, q.Y}, {v.P.Z, q.Z}, {v.P.T, q.T}}[r.N(4)]
			if !c[0].IsZero() && !c[1].IsZero() {
				v.P = q.Scale(model.Mul(c[0], model.Inv(c[1])))
			}
		case 0:
			v.P = model.NegPt(v.P)
		case 1:
			v.P = model.AddPt(v.P, model.Torsion[r.N(4)])
		case 2:
			if k := genFe(r); !k.IsZero() {
				v.P = v.P.Scale(k)
			}
		case 3:
			v.P = model.DblPt(v.P)
		case 4:
			v.P = model.AddPt(v.P, model.Base)
		case 5:
			v.P = v.P.Affine()
		}
	case 'S':
		x := new(big.Int).Mod(v.S, model.L)
		switch r.N(5) {
		case 4: // the same words in another order
			w := []int{16, 32, 64}[r.N(3)]
			i, j := r.N(240/w), r.N(240/w)
			for k := 0; k < w; k++ {
				a, b := x.Bit(i*w+k), x.Bit(j*w+k)
				x.SetBit(x, i*w+k, b)
				x.SetBit(x, j*w+k, a)
			}
		case 0:
			x.Neg(x)
		case 1:
			x.SetBit(x, r.N(252), x.Bit(r.N(252))^1)
		case 2:
			x.Add(x, pow2(r.N(252)))
		case 3:
			x.Add(x, bi(int64(r.N(3)-1)))
		}
		v.S = x.Mod(x, model.L)
	case 'F':
		switch r.N(3) {
		case 0:
			v.F = model.Neg(v.F)
		case 1:
			v.F = model.Add(v.F, model.One)
		case 2:
			v.F = model.Mul(v.F, model.I)
		}
	case 'h', 'q', 'w', 'y':
		b := append([]byte{}, v.B...)
		if len(b) > 0 {
			i, j := r.N(len(b)), r.N(len(b))
			switch r.N(8) {
			case 0: // the same bytes in another order
				b[i], b[j] = b[j], b[i]
			case 1: // the same words in another order
				w := 4 << uint(r.N(3))
				if i, j = i/w*w, j/w*w; i+w <= len(b) && j+w <= len(b) {
					t := append([]byte{}, b[i:i+w]...)
					copy(b[i:i+w], b[j:j+w])
					copy(b[j:j+w], t)
				}
			case 2: // the same sum
				b[i]++
				b[j]--
			case 3: // the same exclusive or
				x := byte(1 << uint(r.N(8)))
				b[i] ^= x
				b[j] ^= x
			default:
				b[i] ^= 1 << uint(r.N(8))
			}
		}
		v.B = b
	case 'I':
		v.I = new(big.Int).Xor(v.I, pow2(r.N(300)))
	}
	return v
}

// pick chooses the variables of a call; nil when there are none.
func (p *pool) pick(r *Rng, op string) []*pvar {
	sp := core.ByName[op]
	args := make([]*pvar, len(sp.Args))
	for j, g := range sp.Args {
		if g.Kind == 'b' || g.Kind == 'u' {
			continue
		}
		// aliases of what was chosen already, most of the time
		var l, al []*pvar
		for _, x := range p.vars {
			if x.kind != g.Kind {
				continue
			}
			if g.Mode != 'o' && !usable(p.ms[0].Get(x.v[0])) {
				continue
			}
			l = append(l, x)
		}
		for q := 0; q < j; q++ {
			if args[q] != nil && args[q].kind == g.Kind {
				for _, x := range l {
					if x == args[q] {
						al = append(al, x)
					}
				}
			}
		}
		switch {
		case len(al) > 0 && r.P(1, 2):
			args[j] = al[r.N(len(al))]
		case len(l) > 0:
			args[j] = l[r.N(len(l))]
		default:
			return nil
		}
	}
	return args
}

// rawScalar: the operation takes 32 bytes as a scalar, top three bits clear
func rawScalar(op string) bool {
	switch op {
	case "E.ScalarMult", "E.VarTimeScalarMult", "E.TableScalarMult", "E.TableVarTime", "E.BaseTable", "E.BaseTableVarTime":
		return true
	}
	return false
}

// prepare gives byte and integer operands contents the operation is made for.
func (p *pool) prepare(r *Rng, op string, args []*pvar) {
	sp := core.ByName[op]
	for j, g := range sp.Args {
		x := args[j]
		if x == nil || g.Mode == 'o' {
			continue
		}
		switch g.Kind {
		case 'h', 'y', 'I', 'w', 'q':
			special := rawScalar(op)
			if special || r.P(1, 2) {
				old := p.ms[0].Get(x.v[0])
				v := genVal(r, op, j, g.Kind)
				if !special && r.P(1, 2) {
					v = related(r, old)
				}
				if g.Kind == 'y' {
					if n := cap(x.v[0].([]byte)); len(v.B) > n {
						for i := range p.ms {
							x.v[i] = make([]byte, len(v.B), len(v.B)+8)
						}
					}
				}
				p.put(x, v)
			}
		case 'F':
			if op == "F.InvSqrt" || op == "F.Sqrt" {
				v := p.ms[0].Get(x.v[0])
				if !model.IsSquare(v.F) || v.F.IsZero() && op == "F.InvSqrt" {
					v.F = model.Sqr(genFe(r))
					p.put(x, v)
				}
			}
		case 'P':
			if (op == "P.Lizard" || op == "P.LizardInto" || op == "E.ElligatorInverse") && r.P(1, 2) {
				p.put(x, genVal(r, op, j, 'P'))
			}
		}
	}
	if len(args) > 2 && args[len(args)-1] != nil && r.P(1, 4) {
		p.aim(r, op, args)
	}
}

// histOps chooses the operations a history prefers.
func histOps(r *Rng) func(*Rng) string {
	var fav []string
	group := r.N(5) // 0: all, 1: points, 2: scalars, 3: field, 4: curve
	for n := 1 + r.N(5); n > 0; {
		sp := &core.Specs[r.N(len(core.Specs))]
		if group > 0 && sp.Name[0] != "PSFE"[group-1] && !r.P(1, 4) {
			continue
		}
		fav = append(fav, sp.Name)
		n--
	}
	return func(or *Rng) string {
		if or.P(3, 5) {
			return fav[or.N(len(fav))]
		}
		for {
			sp := &core.Specs[or.N(len(core.Specs))]
			if sp.Cost > 100 && !or.P(1, 4) || sp.Cost > 10 && !or.P(1, 2) {
				continue
			}
			return sp.Name
		}
	}
}

// faultySource fails when told to.
type faultySource struct {
	r    *Rng
	fail error
	n    int
}

func (s *faultySource) Read(b []byte) (int, error) {
	if s.fail != nil {
		n := s.n
		if n >= len(b) {
			n = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		copy(b[:n], s.r.Bytes(n))
		return n, s.fail
	}
	copy(b, s.r.Bytes(len(b)))
	return len(b), nil
}

type handed struct {
	what string
	x    interface{}
	copy []byte
	b    *big.Int
}

func (h *handed) same() bool {
	if b, ok := h.x.([]byte); ok {
		return string(b) == string(h.copy)
	}
	return h.x.(*big.Int).Cmp(h.b) == 0
}

func scenC05(c *Ctx) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m := machines[variant]
	if r.P(1, 15) {
		scenSoak(c, r, m, variant)
		return
	}
	p := &pool{c: c, ms: []core.Machine{m}}
	pr := c.R("pool")
	k := 1 + r.N(3)
	p.add(pr, 'P', k+1)
	p.add(pr, 'S', k+1)
	p.add(pr, 'F', k+1)
	p.add(pr, 'N', 2)
	p.add(pr, 'T', 1+r.N(2))
	p.add(pr, 'h', 2)
	p.add(pr, 'q', 2)
	p.add(pr, 'w', 1)
	p.add(pr, 'y', 2)
	p.add(pr, 'I', 2)
	simrand.Modern = false
	ops := histOps(r)
	steps := 6 + r.N(40)
	budget := 1500
	if r.P(1, 20) {
		steps, budget = 200, 3000
	}
	clients := 1 + r.N(4)
	var hand []*handed
	c.Ev("C05 %s steps %d", variant, steps)

	type snap struct {
		raw []byte
		val core.Val
	}
	shot := func() []snap {
		l := make([]snap, len(p.vars))
		for i, x := range p.vars {
			raw := m.Mem(x.v[0])
			l[i].raw = append([]byte{}, raw...)
			if x.kind != 'T' {
				l[i].val = m.Get(x.v[0])
			} else {
				l[i].val = core.Val{K: 'T'}
			}
		}
		return l
	}
	// unchanged compares a variable with its snapshot by value
	unchanged := func(x *pvar, s snap) bool {
		if string(m.Mem(x.v[0])) == string(s.raw) && x.kind != 'I' {
			return true
		}
		v := m.Get(x.v[0])
		switch x.kind {
		case 'T':
			return false
		case 'P':
			return s.val.P.Valid() && core.Same(v, s.val)
		case 'y':
			return false // spare capacity included
		}
		return core.Same(v, s.val)
	}
	checkHanded := func(when string) bool {
		for _, h := range hand {
			if !h.same() {
				c.Fail("handed-out", "%s: memory handed out by %s changed %s", variant, h.what, when)
				return false
			}
		}
		return true
	}

	var lastOp string
	var lastArgs []*pvar
	for i := 0; i < steps && budget > 0; i++ {
		if !c.On("step/%d", i) {
			continue
		}
		or := c.R("step/%d", i)
		client := or.N(clients)

		// faults that befall the memory between calls
		switch or.N(10) {
		case 0: // a client reuses a variable: garbage
			x := p.vars[or.N(len(p.vars))]
			if x.kind != 'y' && x.kind != 'I' && (x.kind != 'T' || or.P(1, 4)) && c.Fault("garbage-in-variable", fmt.Sprint("garbage/", i)) {
				m.Poison(x.v[0], or.U64)
			}
		case 1: // overwrites a buffer it got or gave
			if len(hand) > 0 {
				h := hand[or.N(len(hand))]
				if c.Fault("scribble-on-handed-out", fmt.Sprint("scribble/", i)) {
					before := shot()
					switch x := h.x.(type) {
					case []byte:
						x = x[:cap(x)]
						copy(x, or.Bytes(len(x)))
						h.copy = append([]byte{}, h.x.([]byte)...)
					case *big.Int:
						w := x.Bits()
						w = w[:cap(w)]
						for q := range w {
							w[q] = big.Word(or.U64()) | ^(^big.Word(0) >> 1)
						}
						h.b = new(big.Int).Set(x)
					}
					for q, x := range p.vars {
						if !unchanged(x, before[q]) {
							c.Fail("shared-memory", "%s: overwriting what %s handed out changes variable %s", variant, h.what, x.name)
							return
						}
					}
					if !checkHanded("when the result of " + h.what + " was overwritten") {
						return
					}
				}
			}
		case 2, 3: // assigns something related to another variable's value
			x := p.vars[or.N(len(p.vars))]
			y := p.vars[or.N(len(p.vars))]
			if x.kind == y.kind && x.kind != 'T' && x.kind != 'N' && c.Fault("overwrite-operand", fmt.Sprint("overwrite/", i)) {
				if v := m.Get(y.v[0]); usable(v) {
					v = related(or, v)
					if x.kind != 'y' || len(v.B) <= cap(x.v[0].([]byte)) {
						p.put(x, v)
					}
				}
			}
		}

		op := ops(or)
		var args []*pvar
		if lastOp != "" && or.P(1, 5) && c.Fault("repeat-with-changed-operand", fmt.Sprint("echo/", i)) {
			// the same call, one operand overwritten in place since
			op, args = lastOp, lastArgs
			var l []*pvar
			for j, x := range args {
				if x != nil && core.ByName[op].Args[j].Mode != 'o' && x.kind != 'T' && x.kind != 'N' {
					l = append(l, x)
				}
			}
			if len(l) > 0 {
				x := l[or.N(len(l))]
				v := m.Get(x.v[0])
				if or.P(2, 3) && usable(v) {
					v = related(or, v)
				} else {
					v = genVal(or, op, -1, x.kind)
				}
				if x.kind == 'y' && len(v.B) > cap(x.v[0].([]byte)) {
					v.B = v.B[:cap(x.v[0].([]byte))]
				}
				p.put(x, v)
			}
			for _, x := range args {
				if x != nil && x.kind == 'h' && rawScalar(op) {
					v := m.Get(x.v[0])
					v.B[31] &= 31
					p.put(x, v)
				}
			}
		} else {
			args = p.pick(or, op)
			if args == nil {
				continue
			}
			p.prepare(or, op, args)
		}
		sp := core.ByName[op]
		lastOp, lastArgs = op, args
		budget -= sp.Cost
		vs := make([]interface{}, len(args))
		vals := make([]core.Val, len(args))
		names := ""
		isOut := map[*pvar]bool{}
		alias := map[*pvar]int{}
		bad := false
		for j, x := range args {
			if x == nil {
				v := genVal(or, op, j, sp.Args[j].Kind)
				vs[j], vals[j] = fresh(m, v), v
				names += fmt.Sprintf(" %d", v.U)
				continue
			}
			vs[j], vals[j] = x.v[0], m.Get(x.v[0])
			if sp.Args[j].Mode != 'o' && !usable(vals[j]) {
				bad = true
			}
			names += " " + x.name
			alias[x]++
			if sp.Args[j].Mode != 'i' {
				isOut[x] = true
			}
		}
		if bad {
			continue
		}
		for _, n := range alias {
			if n > 1 {
				c.Probe("calls with aliased arguments")
			}
		}
		src := &faultySource{r: c.R("src/%d", i)}
		failDraw := sp.Rand && or.P(1, 3) && c.Fault("failing-draw", fmt.Sprint("draw/", i))
		if failDraw {
			src.fail, src.n = srcErrs[or.N(len(srcErrs))].err, or.N(64)
		}
		simrand.Reader = src
		raw := rawOf(m, vs)
		e := core.Sem(op, vals, book)
		before := shot()
		var out core.Outcome
		direct(c, &out, opLimit, func() { m.Exec(op, vs, &out) })
		outs := outVals(m, op, vs)
		o := obs(op, &out, outs)
		c.Ev("client %d step %d %s%s: %s", client, i, op, names, short(o, 300))
		c.Order(int64(client), int64(hash64(op+names)))
		c.Nums["calls"]++
		c.State("%s/%s/%s/%v", variant, op, aliasShape(args), out.Err)
		if out.Err {
			c.Probe("calls that report failure")
		}
		if failDraw {
			if out.Panic == "" {
				return // a matter of C03
			}
			c.Probe("failed draws")
			continue
		}
		if msg := core.Judge(op, vals, e, &out, outs); msg != "" {
			v := c.Fail("dependence", "%s: step %d %s%s %s", variant, i, op, names, msg)
			pb := makeProbe(m, op, vs, raw)
			pb.Seen = o
			for _, d := range book {
				d := d
				pb.Book = append(pb.Book, d[:])
			}
			v.Confirm = &Confirm{Probe: pb}
			return
		}
		for q, x := range p.vars {
			if !isOut[x] && !unchanged(x, before[q]) {
				c.Fail("frame", "%s: step %d %s%s changed the value of %s, which it does not assign", variant, i, op, names, x.name)
				return
			}
		}
		if !checkHanded(fmt.Sprintf("during step %d %s%s", i, op, names)) {
			return
		}
		for _, h := range out.Handed {
			n := &handed{what: fmt.Sprintf("step %d %s", i, op), x: h}
			if b, ok := h.([]byte); ok {
				n.copy = append([]byte{}, b...)
			} else {
				n.b = new(big.Int).Set(h.(*big.Int))
			}
			hand = append(hand, n)
		}
		for len(hand) > 12 {
			hand = hand[1:]
		}
	}
}

// aliasShape names the aliasing pattern of a call, e.g. 001.
func aliasShape(args []*pvar) string {
	s := ""
	for i, x := range args {
		k := i
		for q := 0; q < i; q++ {
			if x != nil && args[q] == x {
				k = q
				break
			}
		}
		s += fmt.Sprint(k)
	}
	return s
}
