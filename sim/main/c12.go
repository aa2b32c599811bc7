package main

import (
	"fmt"

	"verif.local/main/core"
	"verif.local/main/model"
	"verif.local/simhook"
	simrand "verif.local/simhook/rand"
)

// Mark is what an observer sees of one call.
type Mark struct {
	Key   string
	Pub   string // what the call makes public anyway: that it failed or panicked
	Ticks int64  // simulated time
	Index uint64 // digest of the sequence of indices used
	Show  string // operands, for the report
}

// publicOps take public data only, or say that they take variable time.
var publicOps = map[string]bool{
	"P.PublicScalarMult": true, "P.PublicScalarMultTable": true, "P.PublicScalarMultBase": true,
	"E.VarTimeScalarMult": true, "E.TableVarTime": true, "E.BaseTableVarTime": true,
	"S.BigInt": true, "S.SetBigInt": true, "F.BigInt": true, "F.SetBigInt": true,
	"P.String": true, "S.String": true, "F.String": true,
	"P.MarshalText": true, "S.MarshalText": true,
	// decoders of what came over the wire
	"P.SetBytes": true, "E.SetRistretto": true, "P.UnmarshalBinary": true, "P.UnmarshalText": true,
	"S.SetBytesStrict": true, "S.UnmarshalBinary": true, "S.UnmarshalText": true,
}

func secretOps() (l []*core.Spec) {
	for i := range core.Specs {
		if !publicOps[core.Specs[i].Name] {
			l = append(l, &core.Specs[i])
		}
	}
	return
}

// timed performs f as one call and observes it.
func timed(c *Ctx, out *core.Outcome, f func()) (ticks int64, index uint64) {
	const start = opLimit
	extra := int64(0)
	simhook.OnIndex = func(i uint64) { index = mix(index ^ i + 0x9e3779b97f4a7c15) }
	simhook.OnTick = func(n int) { extra += int64(n) }
	simhook.Timed = true
	before := c.Nums["steps"]
	direct(c, out, start, f)
	simhook.Timed = false
	return c.Nums["steps"] - before + extra, index
}

// scenC12 is one of two worlds: the same history of calls with the same
// public data and the same faults, on other secrets.
func scenC12(c *Ctx) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m := machines[variant]
	simrand.Modern = false
	all := secretOps()
	n := 1 + r.N(4)
	var ops []*core.Spec
	for len(ops) < n {
		sp := all[r.N(len(all))]
		if sp.Cost > 100 && !r.P(1, 3) {
			continue
		}
		ops = append(ops, sp)
	}
	pool := map[byte][]interface{}{}
	held := map[interface{}]core.Val{} // what the observer's adversary last stored there
	c.Ev("C12 world %d %s %v", c.World, variant, n)

	// secret makes the value of an operand in this world
	secret := func(key, op string, arg int, k byte) core.Val {
		pr := c.R("pub/%s", key)
		w := func(i int) core.Val {
			return genVal(c.R("w%d/%s", i, key), op, arg, k)
		}
		v := w(0)
		switch pr.N(5) {
		case 0: // public
		case 1: // like the other world's
			if c.World == 1 {
				v = related(c.R("rel/%s", key), v)
			}
		default:
			if c.World == 1 {
				v = w(1)
			}
		}
		switch k {
		case 'y': // lengths are public
			ln := len(w(0).B)
			for len(v.B) < ln {
				v.B = append(v.B, byte(len(v.B)))
			}
			v.B = v.B[:ln]
		case 'h':
			if rawScalar(op) {
				v.B[31] &= 31
			}
		case 'S': // the type admits integers that are not reduced
			if ur := c.R("unreduced/%s", key); ur.P(1, 10) && c.World == ur.N(2) {
				v.S = genInt(ur, 256)
			}
		case 'F':
			if (op == "F.Sqrt" || op == "F.InvSqrt") && !model.IsSquare(v.F) {
				v.F = model.Sqr(v.F)
			}
		}
		return v
	}
	steps := 3 + r.N(14)
	budget := 500
	for i := 0; i < steps && budget > 0; i++ {
		if !c.On("step/%d", i) {
			continue
		}
		or := c.R("step/%d", i)
		sp := ops[or.N(len(ops))]
		budget -= sp.Cost
		vs := make([]interface{}, len(sp.Args))
		names, show := "", ""
		rawOf := map[interface{}]bool{}
		for j, g := range sp.Args {
			key := fmt.Sprintf("%d/%d", i, j)
			if g.Kind == 'b' || g.Kind == 'u' || g.Kind == 'y' || g.Kind == 'I' {
				v := secret(key, sp.Name, j, g.Kind)
				vs[j] = fresh(m, v)
				show += " " + v.Show()
				continue
			}
			l := pool[g.Kind]
			q := or.N(3)
			isNew := q >= len(l)
			if isNew {
				l = append(l, m.New(g.Kind))
				pool[g.Kind] = l
				q = len(l) - 1
			}
			x := l[q]
			vs[j] = x
			names += fmt.Sprintf(" %c%d", g.Kind, q)
			again := or.P(1, 2)
			if g.Mode == 'o' {
				if isNew || again {
					if c.Fault("garbage-in-variable", "garbage/"+key) && g.Kind != 'T' {
						m.Poison(x, c.R("w%d/garbage/%s", c.World, key).U64)
					}
				}
				continue
			}
			if rawOf[x] {
				continue // an alias; it was given a value already
			}
			rawOf[x] = true
			old := m.Get(x)
			fits := usable(old) && !(g.Kind == 'h' && rawScalar(sp.Name) && old.B[31] > 31) &&
				!((sp.Name == "F.Sqrt" || sp.Name == "F.InvSqrt") && !model.IsSquare(old.F))
			if isNew || again || !fits {
				v := secret(key, sp.Name, j, g.Kind)
				if h, ok := held[x]; ok && c.R("again/%s", key).P(1, 3) && h.K == v.K && c.World == 0 && g.Kind != 'h' && g.Kind != 'F' {
					v = h // the same secret again, in one of the worlds
				}
				if kr := c.R("like/%s", key); j > 0 && kr.P(1, 3) && c.World == kr.N(2) && g.Kind != 'T' && g.Kind != 'N' {
					// in one of the worlds, much like another operand
					for i, o := range sp.Args[:j] {
						if o.Kind == g.Kind && o.Mode != 'o' && vs[i] != x {
							if y := m.Get(vs[i]); usable(y) {
								v = y
								if kr.P(2, 3) {
									v = related(kr, v)
								}
							}
						}
					}
				}
				m.Put(x, v)
				held[x] = v
			}
			if g.Kind != 'T' {
				show += " " + short(m.Get(x).Show(), 90)
			}
		}
		src := &faultySource{r: c.R("w%d/src/%d", c.World, i)}
		if sp.Rand && or.P(1, 3) && c.Fault("failing-draw", fmt.Sprint("draw/", i)) {
			src.fail, src.n = srcErrs[or.N(len(srcErrs))].err, or.N(64)
		}
		simrand.Reader = src
		var out core.Outcome
		t, x := timed(c, &out, func() { m.Exec(sp.Name, vs, &out) })
		mk := Mark{Key: fmt.Sprintf("step %d %s%s", i, sp.Name, names), Ticks: t, Index: x, Show: short(show, 400)}
		mk.Pub = fmt.Sprintf("err=%v panic=%v none=%v", out.Err, out.Panic != "", out.Ret == "nil")
		c.Marks = append(c.Marks, mk)
		c.Nums["calls"]++
		c.Order(int64(hash64(mk.Key)))
		c.Ev("%s %s: %d ticks, indices %x", mk.Key, mk.Pub, t, x)
		c.State("%s/%s/%s", variant, sp.Name, mk.Show)
	}
}

// compareWorlds judges what an observer saw of the two worlds.
func compareWorlds(a, b *Result) {
	a.Digest += b.Digest
	a.Viols = append(a.Viols, b.Viols...)
	for i := range a.Marks {
		if i >= len(b.Marks) || a.Marks[i].Key != b.Marks[i].Key {
			fatal("simulator: the worlds differ in their calls")
		}
		x, y := a.Marks[i], b.Marks[i]
		if x.Pub != y.Pub {
			continue
		}
		if x.Show != y.Show {
			a.Probes["calls compared on different secrets"]++
		}
		switch {
		case x.Ticks != y.Ticks:
			a.Viols = append(a.Viols, &Violation{Class: "time", Detail: fmt.Sprintf("%s takes %d ticks on%s and %d ticks on%s", x.Key, x.Ticks, x.Show, y.Ticks, y.Show)})
		case x.Index != y.Index:
			a.Viols = append(a.Viols, &Violation{Class: "index", Detail: fmt.Sprintf("%s uses other indices on%s than on%s", x.Key, x.Show, y.Show)})
		default:
			continue
		}
		break
	}
	if len(a.Marks) != len(b.Marks) && len(a.Viols) == 0 {
		fatal("simulator: the worlds differ in the number of calls")
	}
	a.Marks = nil
}
