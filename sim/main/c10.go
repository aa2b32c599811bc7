package main

import (
	"bytes"
	"fmt"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// wrongOnFailure says what is wrong with a receiver after a failed call.
func wrongOnFailure(m core.Machine, v interface{}, kind byte, mem []byte, before core.Val) string {
	if bytes.Equal(mem, m.Mem(v)) {
		return ""
	}
	now := m.Get(v)
	switch kind {
	case 'P':
		if !now.P.Valid() {
			return ""
		}
		if before.P.Valid() && core.Same(before, now) {
			return ""
		}
		return fmt.Sprintf("the receiver held %s and now holds the valid point %s", before.Show(), now.Show())
	case 'S':
		return fmt.Sprintf("the receiver held %s and now holds %s", before.Show(), now.Show())
	}
	return fmt.Sprintf("the output held %x and now holds %x", mem, m.Mem(v))
}

// reuse assigns and uses a receiver, and compares with the same calls on a new
// variable.
func reuse(c *Ctx, n *node, r *Rng, v interface{}, kind byte) string {
	var ops []string
	switch kind {
	case 'P':
		ops = []string{"P.SetBytes", "P.Add", "P.SetZero", "P.SetBase", "P.Set", "P.ScalarMultBase", "P.ScalarMult", "P.SetElligator", "P.UnmarshalText",
			"P.SetLizard", "P.Neg", "P.Double", "P.Rand", "P.Derive", "P.UnmarshalBinary", "E.SetRistretto", "E.SetZero", "P.PublicScalarMultBase", "P.Sub"}
	case 'S':
		ops = []string{"S.SetBytes", "S.SetBytesStrict", "S.Add", "S.MulAdd", "S.SetZero", "S.SetOne", "S.Set", "S.SetReduced", "S.Rand", "S.UnmarshalText",
			"S.Mul", "S.Sub", "S.Inverse", "S.SetBigInt", "S.Neg", "S.SetUint64", "S.Derive"}
	default:
		ops = []string{"P.LizardInto"}
	}
	op := ops[r.N(len(ops))]
	sp := core.ByName[op]
	at := 0
	if kind == 'q' {
		at = 1
	}
	seed := r.U64()
	once := func(recv interface{}) string {
		gr := &Rng{seed}
		args := make([]interface{}, len(sp.Args))
		for j, a := range sp.Args {
			val := genVal(gr, op, j, a.Kind)
			switch {
			case op == "P.LizardInto" && j == 0:
				val = core.Val{K: 'P', P: lizard(gr.Bytes(16))}
			case sp.CanFail && a.Kind == 'h' && op[0] == 'S':
				val.B = le(genScalar(gr))
			case sp.CanFail && (a.Kind == 'h' || a.Kind == 'y'):
				e := genPoint(gr).Encode()
				if op[0] == 'S' {
					e = model.LE32(genScalar(gr))
				}
				val.B = e[:]
				if op[2:] == "UnmarshalText" {
					val.B = wrap(gr, &form{name: "text"}, e[:])
				}
			}
			args[j] = fresh(n.m, val)
		}
		if recv != nil {
			args[at] = recv
		}
		simrand.Reader = &simpleSource{&Rng{seed}}
		var out core.Outcome
		direct(c, &out, opLimit, func() { n.m.Exec(op, args, &out) })
		s := obs(op, &out, outVals(n.m, op, args))
		// and used as an operand
		switch kind {
		case 'P':
			var h [32]byte
			q := n.m.New('P')
			for _, o2 := range []string{"P.BytesInto", "P.Double"} {
				a := []interface{}{args[0], &h}
				if o2 == "P.Double" {
					a = []interface{}{q, args[0]}
				}
				var ou core.Outcome
				direct(c, &ou, opLimit, func() { n.m.Exec(o2, a, &ou) })
				s += obs(o2, &ou, outVals(n.m, o2, a))
			}
		case 'S':
			q := n.m.New('S')
			a := []interface{}{q, args[0], args[0]}
			var ou core.Outcome
			direct(c, &ou, opLimit, func() { n.m.Exec("S.Mul", a, &ou) })
			s += obs("S.Mul", &ou, outVals(n.m, "S.Mul", a))
		}
		return s
	}
	want := once(nil)
	got := once(v)
	if want != got {
		return fmt.Sprintf("%s into it observes %s, into a new variable %s", op, got, want)
	}
	return ""
}

func scenC10(c *Ctx) {
	// variables that no call below mentions
	type bystander struct {
		m    core.Machine
		v    interface{}
		mem  []byte
		name string
	}
	var by []*bystander
	seen := map[string]bool{}
	watch := func(m core.Machine) {
		if seen[m.Name()] {
			return
		}
		seen[m.Name()] = true
		r := c.R("bystanders/" + m.Name())
		for _, k := range []byte{'P', 'S', 'F', 'P', 'S', 'q', 'h'} {
			x := fresh(m, genVal(r, "", 0, k))
			by = append(by, &bystander{m, x, append([]byte{}, m.Mem(x)...), fmt.Sprintf("%c%d", k, len(by))})
		}
		t := m.BaseTableMem()
		by = append(by, &bystander{m: m, mem: append([]byte{}, t...), name: "base point table"})
	}
	others := func() string {
		for _, b := range by {
			now := []byte(nil)
			if b.v == nil {
				now = b.m.BaseTableMem()
			} else {
				now = b.m.Mem(b.v)
			}
			if !bytes.Equal(now, b.mem) {
				return b.m.Name() + " " + b.name
			}
		}
		return ""
	}
	failed := func(n *dnode, r *Rng, what string, v interface{}, kind byte, mem []byte, before core.Val) bool {
		c.State("%s/%s/%v", n.m.Name(), short(what, 24), usable(before))
		c.Probe("failed call judged")
		if msg := wrongOnFailure(n.m, v, kind, mem, before); msg != "" {
			c.Fail("half-written", "%s: %s fails and %s", n.m.Name(), what, msg)
			return false
		}
		if msg := others(); msg != "" {
			c.Fail("elsewhere", "%s: %s fails and changes %s", n.m.Name(), what, msg)
			return false
		}
		if msg := reuse(c, &n.node, r, v, kind); msg != "" {
			c.Fail("reuse", "%s: after %s failed, %s", n.m.Name(), what, msg)
			return false
		}
		return true
	}
	// one decode of b in form f into some receiver
	decode := func(n *dnode, f *form, b []byte, r *Rng) bool {
		v := n.receiver(r, f.kind)
		mem := append([]byte{}, n.m.Mem(v)...)
		before := n.m.Get(v)
		in := append([]byte{}, b...)
		var out core.Outcome
		var h [32]byte
		var arg interface{} = in
		if f.fixed() {
			copy(h[:], in)
			arg = &h
		}
		direct(c, &out, opLimit+int64(64*len(b)), func() { n.m.Exec(f.load, []interface{}{v, arg}, &out) })
		n.c.Nums["calls"]++
		what := fmt.Sprintf("%s of %q", f.load, short(string(b), 200))
		c.Ev("%d %s %s: err %v panic %v", n.id, n.m.Name(), what, out.Err, out.Panic != "")
		if out.Hang || !out.Err && out.Panic == "" {
			return true
		}
		if f.load == "P.FromGob" || f.load == "S.FromGob" {
			// the container may fail after it has handed over a good value
			if e, keep := f.expect(b); !keep && (e.val.K == 'S' || e.val.P.Valid()) {
				return true
			}
		}
		if f.fixed() && !bytes.Equal(h[:], b) || !f.fixed() && !bytes.Equal(in, b) {
			c.Fail("elsewhere", "%s: %s fails and changes its input", n.m.Name(), what)
			return false
		}
		return failed(n, r, what, v, f.kind[0], mem, before)
	}
	mediumRun(c, nil, func(n *dnode, f *form, b []byte, fl *file, key string) bool {
		watch(n.m)
		r := c.R("read/" + key)
		if !f.fixed() || len(b) == 32 {
			if !decode(n, f, b, r) {
				return false
			}
		}
		for q := 0; q < 3; q++ {
			if !c.On("more/%s/%d", key, q) {
				continue
			}
			hr := c.R("more/%s/%d", key, q)
			switch k := hr.N(8); {
			case k < 4:
				g := &forms[hr.N(len(forms))]
				x := hostile(hr, g)
				if !g.fixed() && hr.P(1, 3) {
					x = longInput(hr, g)
				}
				if len(x) == 32 || !g.fixed() {
					c.Faults["hostile-input"]++
					if !decode(n, g, x, hr) {
						return false
					}
				}
			case k < 5: // embedded data that is not there
				p := genPoint(hr)
				if hr.P(1, 3) {
					p = nearLizard(hr, hr.Bytes(16))
				}
				x := fresh(n.m, core.Val{K: 'P', P: p})
				o := fresh(n.m, core.Val{K: 'q', B: hr.Bytes(16)})
				mem := append([]byte{}, n.m.Mem(o)...)
				var out core.Outcome
				direct(c, &out, opLimit, func() { n.m.Exec("P.LizardInto", []interface{}{x, o}, &out) })
				c.Nums["calls"]++
				if (out.Err || out.Panic != "") && !out.Hang {
					c.Faults["no-embedded-data"]++
					if !failed(n, hr, "P.LizardInto of "+core.Val{K: 'P', P: p}.Show(), o, 'q', mem, core.Val{}) {
						return false
					}
				}
			default: // a draw that fails
				kind := "PS"[hr.N(2)]
				v := n.receiver(hr, string(kind))
				mem := append([]byte{}, n.m.Mem(v)...)
				before := n.m.Get(v)
				src := &failingSource{r: hr, left: hr.N(70), err: srcErrs[hr.N(len(srcErrs))].err}
				if hr.P(1, 3) {
					src.left = []int{0, 1, 31, 32, 33, 63}[hr.N(6)]
				}
				n0 := src.left
				simrand.Reader = src
				var out core.Outcome
				op := string(kind) + ".Rand"
				direct(c, &out, opLimit, func() { n.m.Exec(op, []interface{}{v}, &out) })
				c.Nums["calls"]++
				c.Ev("%d %s %s with a source ending after %d bytes: panic %q", n.id, n.m.Name(), op, n0, short(out.Panic, 60))
				if out.Panic != "" && !out.Hang {
					c.Faults["randomness-failure"]++
					if !failed(n, hr, fmt.Sprintf("%s with a source failing after %d bytes", op, n0), v, kind, mem, before) {
						return false
					}
				}
			}
		}
		n.bad = ""
		return true
	})
}

// failingSource delivers some bytes, in pieces, and then fails.
type failingSource struct {
	r    *Rng
	left int
	err  error
}

func (s *failingSource) Read(b []byte) (int, error) {
	if s.left == 0 {
		return 0, s.err
	}
	n := len(b)
	if n > s.left {
		n = s.left
	}
	if n > 1 && s.r.P(1, 2) {
		n = 1 + s.r.N(n-1)
	}
	copy(b, s.r.Bytes(n))
	s.left -= n
	return n, nil
}
