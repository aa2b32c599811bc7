package main

import (
	"math/big"

	"verif.local/main/core"
	"verif.local/main/model"
)

func bi(x int64) *big.Int { return big.NewInt(x) }

func pow2(k int) *big.Int { return new(big.Int).Lsh(bi(1), uint(k)) }

func rbig(r *Rng, bits int) *big.Int {
	x := new(big.Int).SetBytes(r.Bytes((bits + 7) / 8))
	return x.And(x, new(big.Int).Sub(pow2(bits), bi(1)))
}

// digits makes an integer of n digits in base 2^w, each drawn from few values.
func digits(r *Rng, w, n int) *big.Int {
	x := new(big.Int)
	m := int64(1) << uint(w)
	vals := []int64{0, m - 1, m / 2, m/2 - 1, m/2 + 1, 1}
	k := 1 + r.N(3)
	set := make([]int64, k)
	for i := range set {
		set[i] = vals[r.N(len(vals))]
	}
	for i := 0; i < n; i++ {
		x.Lsh(x, uint(w))
		x.Or(x, bi(set[r.N(k)]))
	}
	return x
}

// Integers that make edge cases, below 2^bits.
func genInt(r *Rng, bits int) *big.Int {
	mask := new(big.Int).Sub(pow2(bits), bi(1))
	var x *big.Int
	switch r.N(12) {
	case 0:
		x = bi(int64(r.N(40)))
	case 1: // near a power of two
		x = new(big.Int).Add(pow2(r.N(bits)), bi(int64(r.N(5)-2)))
	case 2: // near a multiple of l or p
		m := model.L
		if r.P(1, 2) {
			m = model.P
		}
		x = new(big.Int).Mul(m, bi(int64(1+r.N(16))))
		x.Add(x, bi(int64(r.N(41)-20)))
	case 3: // window digits
		w := []int{4, 5, 8, 13, 16, 21, 25, 26, 32, 51, 64}[r.N(11)]
		x = digits(r, w, bits/w+1)
	case 4: // few bits set
		x = new(big.Int)
		for i := 0; i < 1+r.N(4); i++ {
			x.SetBit(x, r.N(bits), 1)
		}
	case 5: // few bits cleared
		x = new(big.Int).Set(mask)
		for i := 0; i < r.N(4); i++ {
			x.SetBit(x, r.N(bits), 0)
		}
	case 6: // l or p with runs of bits replaced
		x = new(big.Int).Set(model.L)
		if r.P(1, 2) {
			x.Set(model.P)
		}
		k := r.N(bits)
		lo := new(big.Int).Sub(pow2(k), bi(1))
		x.AndNot(x, lo)
		switch r.N(3) {
		case 0:
			x.Or(x, rbig(r, k+1).And(rbig(r, k+1), lo))
		case 1:
			x.Or(x, lo)
		}
	case 7: // short random
		x = rbig(r, 1+r.N(bits))
	case 8: // fractions of l
		x = new(big.Int).Div(model.L, bi(int64(1+r.N(20))))
		x.Add(x, bi(int64(r.N(5)-2)))
	default:
		x = rbig(r, bits)
	}
	return x.And(x.Abs(x), mask)
}

func genScalar(r *Rng) *big.Int {
	x := genInt(r, 253)
	return x.Mod(x, model.L)
}

func genFe(r *Rng) model.Fe {
	switch r.N(10) {
	case 0:
		return []model.Fe{model.Zero, model.One, model.MinusOne, model.I, model.Neg(model.I), model.D, {2}, {19}, model.Neg(model.Fe{19}), model.SqrtID}[r.N(10)]
	case 1:
		return model.Neg(model.FeBig(genInt(r, 255)))
	case 2:
		return model.Sqr(model.FeBig(genInt(r, 255)))
	}
	return model.FeBig(genInt(r, 255))
}

// genPoint makes a representative of a group element: an even curve point with
// projective coordinates and coset chosen at random.
func genPoint(r *Rng) model.Pt {
	var p model.Pt
	switch r.N(12) {
	case 0:
		p = model.Identity
	case 1:
		p = model.MulBase(bi(int64(r.N(20))))
	case 2:
		p = model.NegPt(model.MulBase(bi(int64(r.N(20)))))
	case 3:
		p = lizard(r.Bytes(16))
	case 4, 5:
		p = model.MulBase(genScalar(r))
	default:
		p = model.Map(model.FeBig(rbig(r, 255)))
	}
	if r.P(1, 3) {
		p = model.AddPt(p, model.Torsion[r.N(4)])
	}
	switch r.N(4) {
	case 0:
		p = p.Affine()
	case 1:
		k := genFe(r)
		if !k.IsZero() {
			p = p.Scale(k)
		}
	}
	return p
}

// gen32 makes 32-byte strings: canonical encodings, near misses and noise.
func gen32(r *Rng) []byte {
	switch r.N(8) {
	case 0, 1, 2:
		e := genPoint(r).Encode()
		return e[:]
	case 3:
		e := model.LE32(genInt(r, 256))
		return e[:]
	case 4:
		e := genPoint(r).Encode()
		e[r.N(32)] ^= 1 << uint(r.N(8))
		return e[:]
	case 5:
		e := model.LE32(genInt(r, 253))
		return e[:]
	}
	return r.Bytes(32)
}

func genData16(r *Rng) []byte {
	switch r.N(5) {
	case 0:
		b := make([]byte, 16)
		if r.P(1, 2) {
			b[r.N(16)] = byte(r.U64())
		}
		return b
	case 1:
		b := make([]byte, 16)
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	return r.Bytes(16)
}

// genBuf makes input for the hash-based derivations.
func genBuf(r *Rng) []byte {
	n := []int{0, 1, 16, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 200, 300}[r.N(16)]
	return r.Bytes(n)
}

// genVal makes a value for an argument of an operation.
func genVal(r *Rng, op string, arg int, k byte) core.Val {
	v := core.Val{K: k}
	switch r.N(4) {
	case 0:
		v.Rep = r.U64()
	case 1:
		v.Rep = ^uint64(0)
	}
	switch k {
	case 'P', 'T':
		v.P = genPoint(r)
	case 'S':
		v.S = genScalar(r)
	case 'F':
		v.F = genFe(r)
	case 'N':
		p := genPoint(r).Affine()
		v.N = core.NielsOf(p.X, p.Y)
	case 'I':
		v.I = genInt(r, []int{8, 64, 250, 256, 300, 600}[r.N(6)])
		if r.P(1, 4) {
			v.I.Neg(v.I)
		}
	case 'q':
		v.B = genData16(r)
	case 'h':
		v.B = gen32(r)
	case 'w':
		x := genInt(r, 512)
		if r.P(1, 3) { // a value that reduces to an edge case
			x = rbig(r, r.N(259))
			x.Add(x.Mul(x, model.L), edgeMod(r, model.L))
			x.And(x, new(big.Int).Sub(pow2(512), bi(1)))
		}
		b := make([]byte, 64)
		x.FillBytes(b)
		for i := 0; i < 32; i++ {
			b[i], b[63-i] = b[63-i], b[i]
		}
		v.B = b
	case 'y':
		v.B = genBuf(r)
	case 'b':
		v.U = uint64(r.N(2))
	case 'u':
		v.U = []uint64{0, 1, ^uint64(0), 1 << 63, 1 << 32, 1<<32 - 1, r.U64()}[r.N(7)]
	}
	return genFor(r, op, arg, v)
}

// genFor adjusts a generated value to what the operation documents.
func genFor(r *Rng, op string, arg int, v core.Val) core.Val {
	if v.K == 'h' && rawScalar(op) { // scalars there have the top three bits clear
		e := model.LE32(genInt(r, 253))
		v.B = e[:]
	}
	switch op {
	case "S.SetBytesStrict", "S.SetBytes":
		if v.K == 'h' && r.P(3, 4) {
			e := model.LE32(genInt(r, 256))
			v.B = e[:]
		}
	case "F.SetBytes", "P.SetElligator":
		if v.K == 'h' && r.P(3, 4) {
			e := model.LE32(genInt(r, 256))
			v.B = e[:]
		}
	case "P.Lizard", "P.LizardInto", "E.ElligatorInverse":
		if v.K == 'P' && r.P(2, 3) {
			v.P = lizard(genData16(r))
			if r.P(1, 3) {
				v.P = nearLizard(r, genData16(r))
			}
			if r.P(1, 2) {
				v.P = model.AddPt(v.P, model.Torsion[r.N(4)])
			}
		}
	case "P.UnmarshalBinary", "S.UnmarshalBinary":
		if v.K == 'y' {
			v.B = gen32(r)
			if r.P(1, 5) {
				v.B = r.Bytes(r.N(70))
			}
		}
	case "P.UnmarshalText", "S.UnmarshalText":
		if v.K == 'y' {
			v.B = genText(r, op[0] == 'P')
		}
	case "F.InvSqrt", "F.Sqrt":
		if v.K == 'F' && !model.IsSquare(v.F) {
			v.F = model.Sqr(v.F)
		}
	}
	return v
}

// book holds the Lizard data of every point of the run that encodes some: the
// simulator makes such points only from known data, so it is complete.
var book = core.LizardBook{}

func lizard(data []byte) model.Pt {
	var x [16]byte
	copy(x[:], data)
	p := model.Lizard(x)
	book[p.Encode()] = x
	return p
}

// nearLizard is a point that carries no data, though its Elligator preimage is
// one bit away from one that does: a wrong checksum bit.
func nearLizard(r *Rng, data []byte) model.Pt {
	var x [16]byte
	copy(x[:], data)
	b := model.LizardFe(x).Bytes()
	k := r.N(126)
	if k >= 64 {
		k += 128 // the data themselves lie in between
	}
	b[k/8] ^= 1 << uint(k%8)
	if k == 0 && r.P(1, 2) { // instead of a negative preimage, two wrong bits
		b[0] ^= 3
	}
	return model.Map(model.FeBytes(b))
}

// edgeMod is an integer that is small, or close to m from below.
func edgeMod(r *Rng, m *big.Int) *big.Int {
	switch r.N(4) {
	case 0:
		return bi(int64(r.N(4)))
	case 1:
		return new(big.Int).Sub(m, bi(int64(1+r.N(20))))
	case 2: // close to a power of two
		x := new(big.Int).Add(pow2(r.N(m.BitLen())), bi(int64(r.N(5)-2)))
		return x.Mod(x, m)
	}
	x := genInt(r, m.BitLen())
	return x.Mod(x, m)
}

// aim changes one operand of an arithmetic operation such that the result is
// an edge value.
func (p *pool) aim(r *Rng, op string, args []*pvar) {
	n := len(args)
	get := func(j int) core.Val { return p.ms[0].Get(args[j].v[0]) }
	last := args[n-1]
	for j := 1; j < n-1; j++ {
		if args[j] == last {
			return
		}
	}
	switch op {
	case "S.Add", "S.Sub", "S.Mul", "S.MulAdd", "S.MulSub":
		want := edgeMod(r, model.L)
		a := get(1).S
		x := new(big.Int)
		switch op {
		case "S.Add":
			x.Sub(want, a)
		case "S.Sub":
			x.Sub(a, want)
		case "S.Mul":
			inv := new(big.Int).ModInverse(a, model.L)
			if inv == nil {
				return
			}
			x.Mul(want, inv)
		case "S.MulAdd":
			x.Sub(want, x.Mul(a, get(2).S))
		case "S.MulSub":
			x.Sub(x.Mul(a, get(2).S), want)
		}
		p.put(last, core.Val{K: 'S', S: x.Mod(x, model.L)})
	case "F.Add", "F.Sub", "F.Mul":
		want, a := model.FeBig(edgeMod(r, model.P)), get(1).F
		switch op {
		case "F.Add":
			a = model.Sub(want, a)
		case "F.Sub":
			a = model.Sub(a, want)
		case "F.Mul":
			if a.IsZero() {
				return
			}
			a = model.Mul(want, model.Inv(a))
		}
		p.put(last, core.Val{K: 'F', F: a})
	}
}
