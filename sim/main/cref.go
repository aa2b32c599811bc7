//go:build cgo

package main

import (
	"fmt"

	"verif.local/cref"
	"verif.local/main/core"
	"verif.local/main/model"
)

// crefCheck runs the operation on the bundled C reference, if it has it, and
// compares with the model.
func crefCheck(c *Ctx, op string, a []core.Val) string {
	c.crefs++
	r := c.R("cref/%d", c.crefs)
	ge := func(p model.Pt) *cref.GroupGe {
		var g cref.GroupGe
		e := p.Encode()
		if g.Unpack(&e) != 0 {
			return nil
		}
		if r.P(1, 2) { // other coordinates: g + h - h, or 2g - g
			var sum, n, o cref.GroupGe
			h := g
			if r.P(1, 2) {
				e = genPoint(r).Encode()
				if h.Unpack(&e) != 0 {
					return nil
				}
				sum.Add(&g, &h)
			} else {
				sum.Double(&g)
			}
			n.Neg(&h)
			o.Add(&sum, &n)
			g = o
		}
		return &g
	}
	pack := func(g *cref.GroupGe) (b [32]byte) { g.Pack(&b); return }
	fe := func(f *cref.Fe25519) model.Fe {
		var b [32]byte
		f.Pack(&b)
		return model.FeBytes(b)
	}
	cmp := func(g *cref.GroupGe, want model.Pt) string {
		x, y, z, t := fe(g.X()), fe(g.Y()), fe(g.Z()), fe(g.T())
		if model.Mul(x, y).Big().Cmp(model.Mul(z, t).Big()) != 0 {
			return "gives coordinates that are no point: X Y is not Z T"
		}
		if got, w := pack(g), want.Encode(); got != w {
			return fmt.Sprintf("gives %x, expected %x", got, w)
		}
		return ""
	}
	var g cref.GroupGe
	switch op {
	case "P.Add", "E.Add", "P.Sub", "E.Sub":
		x, y := ge(a[1].P), ge(a[2].P)
		if x == nil || y == nil {
			return "rejects a canonical encoding"
		}
		w := model.AddPt(a[1].P, a[2].P)
		if op[2:] == "Sub" {
			var n cref.GroupGe
			n.Neg(y)
			y = &n
			w = model.SubPt(a[1].P, a[2].P)
		}
		g.Add(x, y)
		c.Probe("C reference consulted")
		return cmp(&g, w)
	case "P.Double", "E.Double", "P.Neg", "E.Neg", "P.Set":
		x := ge(a[1].P)
		if x == nil {
			return "rejects a canonical encoding"
		}
		w := a[1].P
		switch op[2:] {
		case "Double":
			g.Double(x)
			w = model.DblPt(w)
		case "Neg":
			g.Neg(x)
			w = model.NegPt(w)
		default:
			g = *x
		}
		c.Probe("C reference consulted")
		return cmp(&g, w)
	case "P.ScalarMult", "P.PublicScalarMult":
		x := ge(a[1].P)
		if x == nil {
			return "rejects a canonical encoding"
		}
		var s cref.GroupScalar
		b := model.LE32(a[2].S)
		s.Unpack(&b)
		g.ScalarMult(x, &s)
		c.Probe("C reference consulted")
		return cmp(&g, model.MulPt(a[1].P, a[2].S))
	case "P.SetElligator":
		var f cref.Fe25519
		var b [32]byte
		copy(b[:], a[1].B)
		f.Unpack(&b)
		g.Elligator(&f)
		c.Probe("C reference consulted")
		return cmp(&g, model.Elligator(b))
	case "P.SetBytes":
		var b [32]byte
		copy(b[:], a[1].B)
		// like any decoder of field elements in C, it does not ask for canonical
		// field encodings
		if model.FeBytes(b).Bytes() != b {
			return ""
		}
		p, ok := model.Decode(b)
		got := g.Unpack(&b) == 0
		c.Probe("C reference consulted")
		if got != ok {
			return fmt.Sprintf("accepts %x: %v, expected %v", b, got, ok)
		}
		if ok {
			return cmp(&g, p)
		}
	case "F.SetBytes":
		var f cref.Fe25519
		var b, o [32]byte
		copy(b[:], a[1].B)
		f.Unpack(&b)
		f.Pack(&o)
		c.Probe("C reference consulted")
		if w := model.FeBytes(b).Bytes(); o != w {
			return fmt.Sprintf("packs %x as %x, expected %x", b, o, w)
		}
	case "S.SetBytes":
		var s cref.GroupScalar
		var b, o [32]byte
		copy(b[:], a[1].B)
		b[31] &= 31
		s.Unpack(&b)
		s.Pack(&o)
		c.Probe("C reference consulted")
		if w := model.LE32(model.ModL(model.IntLE(b[:]))); o != w {
			return fmt.Sprintf("reduces %x to %x, expected %x", b, o, w)
		}
	}
	return ""
}
