package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// longInput makes byte strings and texts of all lengths for a form.
func longInput(r *Rng, f *form) []byte {
	if r.P(1, 4) {
		return junkWrap(r, f, dressed(r, f))
	}
	n := r.N(140)
	switch r.N(8) {
	case 0:
		n = int(r.LogU(70000))
	case 2: // around multiples of the sizes of encodings
		n = []int{16, 32, 43, 44, 64}[r.N(5)]*(1+r.N(9)) + r.N(3) - 1
	case 1:
		n = []int{0, 1, 31, 32, 33, 42, 43, 44, 45, 63, 64, 65, 85, 86, 87, 88, 127, 128, 129, 255, 256, 257}[r.N(22)]
	}
	b := make([]byte, n)
	alpha := ""
	switch r.N(9) {
	case 7: // one byte, repeated
		alpha = string([]byte{byte(r.U64())})
	case 8:
		alpha = []string{"\x00", "\xff", "=", " ", "0", "\x80"}[r.N(6)]
	case 0:
		alpha = b64
	case 1:
		alpha = "0123456789abcdefABCDEF"
	case 2:
		alpha = "\n"
	case 3:
		alpha = "A"
	case 4:
		alpha = "\r\n="
	case 5: // lines of base64
		for i := range b {
			b[i] = b64[r.N(64)]
			if i%(1+r.N(76)) == 0 && r.P(1, 3) {
				b[i] = '\n'
			}
		}
		return junkWrap(r, f, b)
	}
	for i := range b {
		if alpha == "" {
			b[i] = byte(r.U64())
		} else {
			b[i] = alpha[r.N(len(alpha))]
		}
	}
	return junkWrap(r, f, b)
}

// dressed is an encoding with things around it that some formats put there.
func dressed(r *Rng, f *form) []byte {
	g := *f
	if strings.HasPrefix(g.name, "json") {
		g.name = "text"
	} else if strings.HasPrefix(g.name, "gob") {
		g.name = "binary"
	}
	var b []byte
	if r.P(1, 3) {
		b = hostile(r, &g)
	} else if r.P(1, 2) {
		b = wrap(r, &g, gen32(r))
	} else {
		v := genVal(r, "", 0, f.kind[0])
		b = g.pristine(v)
	}
	b = append([]byte{}, b...)
	for i := 0; i <= r.N(3); i++ {
		x := []byte{}
		switch r.N(8) {
		case 0:
			x = []byte([]string{"0x", "0X", "\xef\xbb\xbf", "\"", "'", "hex:", "base64:", "$", "<", "{", "[", "0", "\\", "%3D", "#"}[r.N(15)])
		case 1: // a version, a length
			x = []byte{byte([]int{0, 1, 2, 4, 16, 31, 32, 33, 64, 128, 255}[r.N(11)])}
			if r.P(1, 3) {
				x = append([]byte{0, 0, 0}, x...)
			}
		case 2:
			x = bytes.Repeat([]byte{"\x00\xff= \n\r\t0A"[r.N(9)]}, 1+r.N(70))
		case 3: // another encoding
			x = b
		case 4:
			x = r.Bytes(1 + r.N(8))
		case 5:
			x = []byte([]string{"\n", "\r\n", " ", "\t", "\v", "\u00a0", "\u2028", ",", ";", ":", "-----"}[r.N(11)])
		case 6:
			if len(b) > 0 { // grouped, as in key fingerprints
				k := 1 + r.N(16)
				var t []byte
				sep := "-: \n_"[r.N(5)]
				for j, y := range b {
					if j > 0 && j%k == 0 {
						t = append(t, sep)
					}
					t = append(t, y)
				}
				b = t
			}
			continue
		case 7:
			if len(b) > 0 {
				b = b[:r.N(len(b))]
			}
		}
		switch r.N(3) {
		case 0:
			b = append(append([]byte{}, x...), b...)
		case 1:
			b = append(b, x...)
		case 2:
			b = append(append(append([]byte{}, x...), b...), x...)
		}
		if len(b) > 5000 {
			break
		}
	}
	return b
}

func junkWrap(r *Rng, f *form, b []byte) []byte {
	switch f.name {
	case "json", "json-value", "json-key":
		if r.P(3, 4) {
			return []byte(`"` + string(bytes.Map(func(x rune) rune {
				if x < 32 || x == '"' || x == '\\' || x > 126 {
					return 'A'
				}
				return x
			}, b)) + `"`)
		}
	case "gob", "gob-value":
		if r.P(2, 3) {
			return wrap(r, f, b)
		}
	}
	return b
}

// health runs a few calls on fresh values and prints what they observe.
func health(n *node, seed uint64) string {
	r := &Rng{seed}
	s := ""
	for _, op := range []string{"P.SetBytes", "P.BytesInto", "P.Add", "S.MulAdd", "P.ScalarMultBase", "P.UnmarshalText", "S.UnmarshalText",
		"P.UnmarshalBinary", "S.SetBytesStrict", "P.SetLizard", "P.LizardInto", "S.SetReduced", "P.ScalarMult", "S.UnmarshalBinary", "P.Rand", "S.Rand"} {
		sp := core.ByName[op]
		args := make([]interface{}, len(sp.Args))
		for j, a := range sp.Args {
			args[j] = fresh(n.m, genVal(r, op, j, a.Kind))
		}
		simrand.Reader = &simpleSource{&Rng{seed + 1}}
		var out core.Outcome
		direct(n.c, &out, opLimit, func() { n.m.Exec(op, args, &out) })
		if out.Hang {
			return s + "; " + op + " does not finish"
		}
		s += "; " + op + " " + obs(op, &out, outVals(n.m, op, args)) + short(out.Panic, 80)
	}
	return s
}

// junk is a decoder call of C09 besides the encodings: embedded data.
func junkCall(c *Ctx, n *node, r *Rng, key string) (op string, out core.Outcome, show string) {
	x := n.m.New('P')
	switch r.N(6) {
	case 0: // whatever a decoder accepts, or rejected leftovers
		b := hostile(r, nil)
		var o core.Outcome
		direct(c, &o, opLimit, func() { n.m.Exec("P.SetBytes", []interface{}{x, n.H(b)}, &o) })
		show = fmt.Sprintf("the outcome of decoding %x", b)
	case 1:
		p := genPoint(r)
		n.m.Put(x, core.Val{K: 'P', P: p})
		show = core.Val{K: 'P', P: p}.Show()
	case 2, 3: // data point, another representative or coordinates
		p := lizard(genData16(r))
		if r.P(1, 3) {
			p = nearLizard(r, genData16(r))
		}
		p = model.AddPt(p, model.Torsion[r.N(4)])
		if k := genFe(r); !k.IsZero() {
			p = p.Scale(k)
		}
		n.m.Put(x, core.Val{K: 'P', P: p})
		show = core.Val{K: 'P', P: p}.Show()
	case 4: // small multiples and their negatives
		p := model.MulBase(big.NewInt(int64(r.N(64))))
		if r.P(1, 2) {
			p = model.NegPt(p)
		}
		n.m.Put(x, core.Val{K: 'P', P: p})
		show = core.Val{K: 'P', P: p}.Show()
	case 5: // image of exceptional field elements
		p := model.Map(genFe(r))
		n.m.Put(x, core.Val{K: 'P', P: p})
		show = core.Val{K: 'P', P: p}.Show()
	}
	op = []string{"P.Lizard", "P.LizardInto"}[r.N(2)]
	args := []interface{}{x}
	if op == "P.LizardInto" {
		args = append(args, n.m.New('q'))
	}
	direct(c, &out, opLimit, func() { n.m.Exec(op, args, &out) })
	return
}

func scenC09(c *Ctx) {
	seed := c.R("health").U64()
	base := map[string]string{}
	heal := func(n *node) string { return health(n, seed) }
	check := func(n *dnode, what string, out *core.Outcome) bool {
		if out.Hang {
			c.Fail("hang", "%s: %s does not finish within %d steps", n.m.Name(), what, opLimit)
			return false
		}
		if out.Panic != "" {
			c.Fail("panic", "%s: %s panics: %s", n.m.Name(), what, short(out.Panic, 300))
			return false
		}
		return true
	}
	cnt := 0
	alive := func(n *dnode, after string) bool {
		if base[n.m.Name()] == "" {
			return true
		}
		if h := heal(&n.node); h != base[n.m.Name()] {
			c.Fail("afterwards", "%s: after %s the same calls as before observe\n%s\ninstead of\n%s", n.m.Name(), after, h, base[n.m.Name()])
			return false
		}
		return true
	}
	mediumRun(c, nil, func(n *dnode, f *form, b []byte, fl *file, key string) bool {
		if base[n.m.Name()] == "" {
			base[n.m.Name()] = heal(&n.node)
		}
		r := c.R("read/" + key)
		what := ""
		// what lies on the medium
		if !f.fixed() || len(b) == 32 {
			v := n.receiver(r, f.kind)
			out := f.read(&n.node, b, v)
			what = fmt.Sprintf("%s of %q", f.load, short(string(b), 300))
			c.Ev("%d %s %s: err %v", n.id, n.m.Name(), what, out.Err)
			c.State("%s/%s/%d/%v", n.m.Name(), f.load, len(b), out.Err)
			if !check(n, what, out) {
				return false
			}
			if out.Err {
				c.Probe("damaged input rejected")
			} else {
				c.Probe("input accepted")
			}
		}
		// what an attacker sends
		for q := 0; q < 3; q++ {
			if !c.On("hostile/%s/%d", key, q) {
				continue
			}
			hr := c.R("hostile/%s/%d", key, q)
			if hr.P(1, 4) {
				op, out, show := junkCall(c, &n.node, hr, key)
				what = op + " of " + show
				c.Ev("%d %s %s: err %v", n.id, n.m.Name(), what, out.Err)
				c.Faults["hostile-point"]++
				if !check(n, what, &out) {
					return false
				}
				continue
			}
			g := &forms[hr.N(len(forms))]
			var x []byte
			if hr.P(1, 2) && !g.fixed() {
				x = longInput(hr, g)
				if hr.P(1, 12) {
					x = nil
				}
			} else {
				x = hostile(hr, g)
			}
			if g.fixed() && len(x) != 32 {
				continue
			}
			c.Faults["hostile-input"]++
			v := n.receiver(hr, g.kind)
			// a read-only input with spare capacity
			if x != nil && !g.fixed() && hr.P(1, 3) {
				x = append(make([]byte, 0, len(x)+hr.N(100)), x...)
			}
			out := g.read(&n.node, x, v)
			what = fmt.Sprintf("%s of %d bytes %q", g.load, len(x), short(string(x), 300))
			c.Ev("%d %s %s: err %v", n.id, n.m.Name(), what, out.Err)
			c.State("%s/%s/%d/%v", n.m.Name(), g.load, len(x), out.Err)
			if !check(n, what, out) {
				return false
			}
			if out.Err {
				c.Probe("hostile input rejected")
			} else {
				c.Probe("hostile input accepted")
			}
		}
		n.bad = ""
		cnt++
		if cnt%8 == 0 {
			return alive(n, what)
		}
		return true
	})
	if len(c.Viols) == 0 {
		for _, v := range variants {
			if base[v] != "" {
				n := &dnode{node: node{c: c, m: machines[v]}}
				if !alive(n, "this run") {
					return
				}
			}
		}
	}
}
