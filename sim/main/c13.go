package main

import (
	"encoding/base64"
	"math/big"
	"runtime"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// walker makes ever new values cheaply.
type walker struct {
	r         *Rng
	cur, step model.Pt
	bad       int // of 12 inputs, so many are damaged
}

func (w *walker) point() model.Pt {
	w.cur = model.AddPt(w.cur, w.step)
	return w.cur
}

func (w *walker) val(op string, k byte) (core.Val, bool) {
	v := core.Val{K: k}
	r := w.r
	switch k {
	case 'P':
		v.P = w.point()
		switch op {
		case "P.Lizard", "P.LizardInto", "E.ElligatorInverse":
			if r.P(1, 2) {
				var x [16]byte
				copy(x[:], r.Bytes(16))
				v.P = model.Lizard(x)
			}
		}
	case 'S':
		v.S = new(big.Int).SetBytes(r.Bytes(31))
	case 'F':
		var b [32]byte
		copy(b[:], r.Bytes(32))
		b[31] &= 127
		v.F = model.FeBytes(b)
		if op == "F.InvSqrt" || op == "F.Sqrt" {
			v.F = model.Sqr(v.F)
		}
	case 'h', 'y':
		n := 32
		if k == 'y' && op != "P.UnmarshalBinary" && op != "S.UnmarshalBinary" {
			n = 40
		}
		v.B = r.Bytes(n)
		switch op {
		case "P.SetBytes", "E.SetRistretto", "P.UnmarshalBinary":
			e := w.point().Encode()
			v.B = e[:]
		case "S.SetBytesStrict", "S.UnmarshalBinary":
			v.B[31] &= 15
		case "P.UnmarshalText", "S.UnmarshalText":
			e := w.point().Encode()
			e[31] &= 15
			if op[0] == 'P' {
				e = w.cur.Encode()
			}
			v.B = []byte(base64.RawURLEncoding.EncodeToString(e[:]))
		}
		if rawScalar(op) {
			v.B[31] &= 31
		}
		if r.P(w.bad, 12) {
			i := r.N(len(v.B))
			switch r.N(5) {
			case 0:
				v.B[i] ^= 1 << uint(r.N(5))
			case 1:
				v.B[i] = 0xff
			case 2:
				if k == 'y' {
					v.B = append(v.B, r.Bytes(1+r.N(40))...)
				}
			case 3:
				if k == 'y' {
					v.B = v.B[:i]
				}
			case 4:
				copy(v.B, r.Bytes(len(v.B)))
			}
			if rawScalar(op) {
				v.B[31] &= 31
			}
		}
	case 'q':
		v.B = r.Bytes(16)
	case 'w':
		v.B = r.Bytes(64)
	case 'I':
		v.I = new(big.Int).SetBytes(r.Bytes(32))
	case 'b':
		v.U = uint64(r.N(2))
	case 'u':
		v.U = r.U64()
	default:
		return v, false
	}
	return v, true
}

type kept struct{ bytes, objects int64 }

func measureHeap() kept {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return kept{int64(m.HeapAlloc), int64(m.HeapObjects)}
}

// scenC13 is a long life of a process: ever new values, and the same ones
// again; what the library keeps, leaves running and spends must not grow.
func scenC13(c *Ctx) {
	r := c.R("cfg")
	variant := pickVariant(r)
	m := machines[variant]
	var ops []*core.Spec
	for want := 1 + r.N(2); len(ops) < want; {
		sp := &core.Specs[r.N(len(core.Specs))]
		if sp.Cost > 100 && !r.P(1, 4) {
			continue
		}
		ops = append(ops, sp)
	}
	cost := 0
	for _, sp := range ops {
		cost += sp.Cost
	}
	cost = (cost + len(ops) - 1) / len(ops)
	total := 24000 / (cost + 3)
	if total > 5000 {
		total = 5000
	}
	if total < 160 {
		total = 160
	}
	fails := r.P(1, 2) // draws fail now and then
	simrand.Modern = false
	for _, sp := range ops {
		c.Ev("C13 %s %s %d calls", variant, sp.Name, total)
	}

	// values that come again
	type set struct {
		op   *core.Spec
		vals []core.Val
	}
	var sets []*set
	tabs := map[int]interface{}{}
	for k := 0; k < 12; k++ {
		tr := c.R("set/%d", k)
		s := &set{op: ops[k%len(ops)]}
		for j, g := range s.op.Args {
			s.vals = append(s.vals, genVal(tr, s.op.Name, j, g.Kind))
		}
		sets = append(sets, s)
	}
	w := &walker{r: c.R("walk"), cur: genPoint(c.R("cur")), step: model.AddPt(model.Base, genPoint(c.R("step"))), bad: []int{0, 1, 12}[r.N(3)]}
	spent := func(k int, out *core.Outcome, f func()) int64 {
		before := c.Nums["steps"]
		direct(c, out, opLimit, f)
		return c.Nums["steps"] - before
	}
	var at [3]kept
	var leftAt [3]int
	// steps per call: sums over fresh values of constant-time calls, and the
	// most for each recurring set, in the second and the fourth quarter
	sum, cnt := map[string]*[4]int64{}, map[string]*[4]int64{}
	top := map[int]*[4]int64{}
	for _, sp := range ops {
		sum[sp.Name], cnt[sp.Name] = new([4]int64), new([4]int64)
	}
	for k := range sets {
		top[k] = new([4]int64)
	}
	calls := [3]int{}
	half := 0
	for i := 0; i <= total; i++ {
		if i == total/2 || i == total {
			for k := 0; k < 100; k++ {
				runtime.Gosched() // whatever can end ends
			}
			at[half], leftAt[half] = measureHeap(), runtime.NumGoroutine()
			half++
			if i == total {
				break
			}
		}
		on := c.On("block/%d", i/64)
		or := c.R("call/%d", i)
		again := or.P(1, 4)
		k := or.N(len(sets))
		sp := ops[or.N(len(ops))]
		if again {
			sp = sets[k].op
		}
		vs := make([]interface{}, len(sp.Args))
		for j, g := range sp.Args {
			if g.Kind == 'T' {
				if tabs[j] == nil {
					tabs[j] = fresh(m, genVal(c.R("table/%d", j), sp.Name, j, 'T'))
				}
				vs[j] = tabs[j]
				continue
			}
			var v core.Val
			ok := false
			if !again {
				v, ok = w.val(sp.Name, g.Kind)
			}
			if !ok {
				x := sets[k]
				if x.op == sp {
					v = x.vals[j]
				} else {
					v = genVal(c.R("other/%d", j), sp.Name, j, g.Kind)
				}
			}
			vs[j] = fresh(m, v)
		}
		if !on {
			continue // the values were drawn all the same
		}
		src := &faultySource{r: c.R("src/%d", i)}
		if sp.Rand && fails && or.P(1, 4) {
			c.Faults["failing-draw"]++
			src.fail, src.n = srcErrs[or.N(len(srcErrs))].err, or.N(64)
		}
		simrand.Reader = src
		var out core.Outcome
		t := spent(k, &out, func() { m.Exec(sp.Name, vs, &out) })
		simrand.Reader = nil
		c.Nums["calls"]++
		if out.Err {
			c.Probes["calls that report failure"]++
		}
		if out.Hang {
			return // a matter of other properties
		}
		c.Order(int64(t))
		calls[half]++
		q := 4 * i / total
		if again && !sp.Rand {
			if top[k][q] < t {
				top[k][q] = t
			}
		} else if !publicOps[sp.Name] && !out.Err && out.Panic == "" && !sp.Rand {
			sum[sp.Name][q] += t
			cnt[sp.Name][q]++
		}
	}
	for _, sp := range ops {
		c.State("%s/%s", variant, sp.Name)
	}
	names := ops[0].Name
	if len(ops) > 1 {
		names += " and " + ops[1].Name
	}
	// the second half of the history makes no difference
	grown := kept{at[1].bytes - at[0].bytes, at[1].objects - at[0].objects}
	n := int64(calls[1])
	switch {
	case n >= 60 && (grown.objects > 60+n/8 || grown.bytes > 8000+8*n):
		c.Fail("memory", "%s: memory kept grows with the number of calls of %s", variant, names)
		return
	case leftAt[1] > leftAt[0]:
		c.Fail("goroutines", "%s: goroutines started by %s never end", variant, names)
		return
	}
	for _, sp := range ops {
		s, t := sum[sp.Name], cnt[sp.Name]
		if t[1] < 8 || t[3] < 8 {
			continue
		}
		a, b := s[1]/t[1], s[3]/t[3]
		if b > a+a/40+16 {
			c.Fail("steps", "%s: %s takes %d steps after %d calls and %d after %d", variant, sp.Name, a, total*3/8, b, total*7/8)
			return
		}
	}
	for k := range sets {
		a, b := top[k][1], top[k][3]
		if a > 0 && b > a+a/40+16 && b > top[k][0]+a/40+16 {
			c.Fail("steps", "%s: %s on the same values takes %d steps after %d calls and %d after %d", variant, sets[k].op.Name, a, total*3/8, b, total*7/8)
			return
		}
	}
	c.Ev("end %d", c.Nums["steps"])
}
