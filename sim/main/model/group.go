package model

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"math/big"
)

// Pt is a point of the Edwards curve in extended coordinates; it stands for
// its ristretto255 class.
type Pt struct{ X, Y, Z, T Fe }

var (
	SqrtADMinusOne   = mustSqrt(Sub(Neg(D), One)) // sqrt(-d-1): a*d-1 with a=-1
	InvSqrtAMinusD   = mustInvSqrt(Sub(MinusOne, D))
	OneMinusDSq      = Sub(One, Sqr(D))
	DMinusOneSq      = Sqr(Sub(D, One))
	Identity         = Pt{Zero, One, One, Zero}
	Base             = mustDecode("e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76")
	Torsion          = [4]Pt{Identity, {Zero, MinusOne, One, Zero}, {I, Zero, One, Zero}, {Neg(I), Zero, One, Zero}}
	baseTable        [][16]Pt
	SqrtID, HasSqrID = sqrtID()
)

func sqrtID() (Fe, bool) {
	ok, r := SqrtRatio(Mul(I, D), One)
	return r, ok
}

// RFC 9496 gives SQRT_AD_MINUS_ONE = sqrt(a*d - 1) as this value (the odd root).
func mustSqrt(a Fe) Fe {
	ok, r := SqrtRatio(a, One)
	if !ok {
		panic("not a square")
	}
	want := FeBig(bigOf("25063068953384623474111414158702152701244531502492656460079210482610430750235"))
	if r != want && Neg(r) != want {
		panic("SQRT_AD_MINUS_ONE")
	}
	return want
}

func mustInvSqrt(a Fe) Fe {
	ok, r := SqrtRatio(One, a)
	if !ok {
		panic("not a square")
	}
	want := FeBig(bigOf("54469307008909316920995813868745141605393597292927456921205312896311721017578"))
	if r != want && Neg(r) != want {
		panic("INVSQRT_A_MINUS_D")
	}
	return want
}

func mustDecode(h string) Pt {
	b, _ := hex.DecodeString(h)
	var x [32]byte
	copy(x[:], b)
	p, ok := Decode(x)
	if !ok {
		panic("base")
	}
	return p
}

// Valid says whether the coordinates are those of a curve point.
func (p Pt) Valid() bool {
	if p.Z.IsZero() {
		return false
	}
	if Mul(p.X, p.Y) != Mul(p.Z, p.T) {
		return false
	}
	x2, y2, z2 := Sqr(p.X), Sqr(p.Y), Sqr(p.Z)
	return Mul(Sub(y2, x2), z2) == Add(Sqr(z2), Mul(D, Mul(x2, y2)))
}

// Even says whether p is the double of a curve point, as every representative
// of a ristretto255 element is: l*p must be in the 4-torsion E[4] = {multiples of 2 in E[8]}.
func (p Pt) Even() bool {
	q := mulRaw(p, L)
	// q in {(0,1),(0,-1),(+-i,0)} <=> x*y == 0
	return q.X.IsZero() || q.Y.IsZero()
}

func AddPt(p, q Pt) Pt {
	a := Mul(Sub(p.Y, p.X), Sub(q.Y, q.X))
	b := Mul(Add(p.Y, p.X), Add(q.Y, q.X))
	c := Mul(Mul(p.T, D2), q.T)
	d := Mul(Add(p.Z, p.Z), q.Z)
	e, f, g, h := Sub(b, a), Sub(d, c), Add(d, c), Add(b, a)
	return Pt{Mul(e, f), Mul(g, h), Mul(f, g), Mul(e, h)}
}

func NegPt(p Pt) Pt    { return Pt{Neg(p.X), p.Y, p.Z, Neg(p.T)} }
func SubPt(p, q Pt) Pt { return AddPt(p, NegPt(q)) }

func DblPt(p Pt) Pt {
	a, b := Sqr(p.X), Sqr(p.Y)
	c := Sqr(p.Z)
	c = Add(c, c)
	h := Add(a, b)
	e := Sub(h, Sqr(Add(p.X, p.Y)))
	g := Sub(a, b)
	f := Add(c, g)
	return Pt{Mul(e, f), Mul(g, h), Mul(f, g), Mul(e, h)}
}

func mulRaw(p Pt, k *big.Int) Pt {
	var tab [16]Pt
	tab[0] = Identity
	for i := 1; i < 16; i++ {
		tab[i] = AddPt(tab[i-1], p)
	}
	r := Identity
	n := (k.BitLen() + 3) / 4
	for i := n - 1; i >= 0; i-- {
		r = DblPt(DblPt(DblPt(DblPt(r))))
		d := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if d != 0 {
			r = AddPt(r, tab[d])
		}
	}
	return r
}

// MulPt returns k*p for 0 <= k.
func MulPt(p Pt, k *big.Int) Pt { return mulRaw(p, k) }

// MulBase returns k*B for 0 <= k < 2^256, from a table of multiples.
func MulBase(k *big.Int) Pt {
	if baseTable == nil {
		baseTable = make([][16]Pt, 64)
		p := Base
		for i := range baseTable {
			baseTable[i][0] = Identity
			for j := 1; j < 16; j++ {
				baseTable[i][j] = AddPt(baseTable[i][j-1], p)
			}
			p = AddPt(baseTable[i][15], p)
		}
	}
	r := Identity
	for i := 0; i < 64; i++ {
		if d := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3; d != 0 {
			r = AddPt(r, baseTable[i][d])
		}
	}
	return r
}

// EqPt is equality of the ristretto255 classes of two valid points.
func EqPt(p, q Pt) bool {
	return Mul(p.X, q.Y) == Mul(p.Y, q.X) || Mul(p.Y, q.Y) == Mul(p.X, q.X)
}

// Encode is the canonical encoding (RFC 9496, 4.3.2).
func (p Pt) Encode() [32]byte {
	u1 := Mul(Add(p.Z, p.Y), Sub(p.Z, p.Y))
	u2 := Mul(p.X, p.Y)
	_, inv := SqrtRatio(One, Mul(u1, Sqr(u2)))
	den1, den2 := Mul(inv, u1), Mul(inv, u2)
	zInv := Mul(Mul(den1, den2), p.T)
	x, y, den := p.X, p.Y, den2
	if Mul(p.T, zInv).IsNeg() {
		x, y, den = Mul(p.Y, I), Mul(p.X, I), Mul(den1, InvSqrtAMinusD)
	}
	if Mul(x, zInv).IsNeg() {
		y = Neg(y)
	}
	return Abs(Mul(den, Sub(p.Z, y))).Bytes()
}

// Decode accepts exactly the canonical encodings (RFC 9496, 4.3.1).
func Decode(b [32]byte) (Pt, bool) {
	s := FeBytes(b)
	if s.Bytes() != b || s.IsNeg() {
		return Pt{}, false
	}
	ss := Sqr(s)
	u1, u2 := Sub(One, ss), Add(One, ss)
	u2s := Sqr(u2)
	v := Sub(Neg(Mul(D, Sqr(u1))), u2s)
	ok, inv := SqrtRatio(One, Mul(v, u2s))
	denX := Mul(inv, u2)
	denY := Mul(Mul(inv, denX), v)
	x := Abs(Mul(Add(s, s), denX))
	y := Mul(u1, denY)
	t := Mul(x, y)
	if !ok || t.IsNeg() || y.IsZero() {
		return Pt{}, false
	}
	return Pt{x, y, One, t}, true
}

// Map is MAP of RFC 9496, 4.3.4.
func Map(t Fe) Pt {
	r := Mul(I, Sqr(t))
	u := Mul(Add(r, One), OneMinusDSq)
	v := Mul(Sub(MinusOne, Mul(r, D)), Add(r, D))
	ok, s := SqrtRatio(u, v)
	c := MinusOne
	if !ok {
		s = Neg(Abs(Mul(s, t)))
		c = r
	}
	n := Sub(Mul(Mul(c, Sub(r, One)), DMinusOneSq), v)
	w0 := Mul(Add(s, s), v)
	w1 := Mul(n, SqrtADMinusOne)
	w2, w3 := Sub(One, Sqr(s)), Add(One, Sqr(s))
	return Pt{Mul(w0, w3), Mul(w2, w1), Mul(w1, w3), Mul(w0, w2)}
}

// Inverse lists the non-negative field elements that Map sends to the element
// of p, an even point.
func Inverse(p Pt) []Fe {
	want := p.Encode()
	seen := map[Fe]bool{}
	var l []Fe
	try := func(f Fe) {
		f = Abs(f)
		if !seen[f] && Map(f).Encode() == want {
			seen[f] = true
			l = append(l, f)
		}
	}
	k := Mul(Add(D, One), Inv(Sub(D, One)))
	for _, t := range Torsion {
		q := AddPt(p, t).Affine()
		if q.X.IsZero() {
			if q.Y == One { // s = 0
				try(Zero)
				try(SqrtID)
			}
			continue
		}
		ok, s := SqrtRatio(Sub(One, q.Y), Add(One, q.Y))
		if !ok {
			continue
		}
		for n := 0; n < 2; n++ {
			s = Neg(s)
			t := Mul(Add(s, s), Inv(Mul(q.X, SqrtADMinusOne)))
			a := Mul(Add(t, One), k)
			s2 := Sqr(s)
			v := Mul(I, Sub(Sqr(s2), Sqr(a)))
			if s.IsNeg() {
				s2 = Neg(s2)
			}
			if ok, y := SqrtRatio(One, v); ok {
				try(Mul(Add(a, s2), y))
			}
		}
	}
	return l
}

func Elligator(b [32]byte) Pt { return Map(FeBytes(b)) }

func Derive(data []byte) Pt {
	h := sha512.Sum512(data)
	var b [32]byte
	copy(b[:], h[:32])
	return Elligator(b)
}

func DeriveDalek(data []byte) Pt {
	h := sha512.Sum512(data)
	var a, b [32]byte
	copy(a[:], h[:32])
	copy(b[:], h[32:])
	return AddPt(Elligator(a), Elligator(b))
}

func LizardFe(data [16]byte) Fe {
	h := sha256.Sum256(data[:])
	copy(h[8:24], data[:])
	h[0] &= 254
	h[31] &= 63
	return FeBytes(h)
}

func Lizard(data [16]byte) Pt { return Map(LizardFe(data)) }

// Scale multiplies the projective coordinates by k != 0: same point.
func (p Pt) Scale(k Fe) Pt { return Pt{Mul(p.X, k), Mul(p.Y, k), Mul(p.Z, k), Mul(p.T, k)} }

// Affine normalises Z to 1.
func (p Pt) Affine() Pt {
	zi := Inv(p.Z)
	x, y := Mul(p.X, zi), Mul(p.Y, zi)
	return Pt{x, y, One, Mul(x, y)}
}

// ---- scalars ----

// ScBytes reads 32 bytes little-endian as an integer.
func IntLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func LE32(x *big.Int) (b [32]byte) {
	x.FillBytes(b[:])
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return
}

func ModL(x *big.Int) *big.Int { return new(big.Int).Mod(x, L) }
