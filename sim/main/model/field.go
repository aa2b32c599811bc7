// Package model is the reference the simulator judges the library by: an
// implementation of ristretto255 (RFC 9496), of its scalar field and of the
// Lizard encoding that shares no code, representation or formulas' layout with
// the library. Field elements are always fully reduced.
package model

import (
	"math/big"
	"math/bits"
)

// Fe is an integer below p = 2^255-19, as four little-endian words.
type Fe [4]uint64

var (
	P, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)

	pw = Fe{0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff}

	Zero     = Fe{}
	One      = Fe{1}
	MinusOne = Neg(One)
	D        = FeBig(bigOf("37095705934669439343138083508754565189542113879843219016388785533085940283555"))
	I        = FeBig(bigOf("19681161376707505956807079304988542015446066515923890162744021073123829784752"))
	D2       = Add(D, D)

	exp58 = new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3) // (p-5)/8
)

func bigOf(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return x
}

// FeBig returns x mod p.
func FeBig(x *big.Int) Fe {
	var b [32]byte
	new(big.Int).Mod(x, P).FillBytes(b[:])
	var r Fe
	for i := 0; i < 32; i++ {
		r[(31-i)/8] |= uint64(b[i]) << (8 * uint((31-i)%8))
	}
	return r
}

func (a Fe) Big() *big.Int {
	b := a.Bytes()
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}

// Bytes is the canonical little-endian encoding.
func (a Fe) Bytes() (b [32]byte) {
	for i := range b {
		b[i] = byte(a[i/8] >> (8 * uint(i%8)))
	}
	return
}

// FeBytes reads 255 bits little-endian, ignoring the top one, and reduces.
func FeBytes(b [32]byte) Fe {
	var r Fe
	for i := range b {
		r[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	r[3] &= 1<<63 - 1
	return condSub(r)
}

// condSub returns a mod p for a < 2p... a < 2^256.
func condSub(a Fe) Fe {
	for {
		var r Fe
		var c uint64
		r[0], c = bits.Sub64(a[0], pw[0], 0)
		r[1], c = bits.Sub64(a[1], pw[1], c)
		r[2], c = bits.Sub64(a[2], pw[2], c)
		r[3], c = bits.Sub64(a[3], pw[3], c)
		if c != 0 {
			return a
		}
		a = r
	}
}

func Add(a, b Fe) Fe {
	var r Fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], _ = bits.Add64(a[3], b[3], c)
	return condSub(r)
}

func Neg(a Fe) Fe { return Sub(Fe{}, a) }

func Sub(a, b Fe) Fe {
	var r Fe
	var c uint64
	r[0], c = bits.Sub64(a[0], b[0], 0)
	r[1], c = bits.Sub64(a[1], b[1], c)
	r[2], c = bits.Sub64(a[2], b[2], c)
	r[3], c = bits.Sub64(a[3], b[3], c)
	if c != 0 {
		r[0], c = bits.Add64(r[0], pw[0], 0)
		r[1], c = bits.Add64(r[1], pw[1], c)
		r[2], c = bits.Add64(r[2], pw[2], c)
		r[3], _ = bits.Add64(r[3], pw[3], c)
	}
	return r
}

func Mul(a, b Fe) Fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var c uint64
			lo, c = bits.Add64(lo, t[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	// 2^256 = 38
	var r Fe
	var carry uint64
	for j := 0; j < 4; j++ {
		hi, lo := bits.Mul64(t[4+j], 38)
		var c uint64
		lo, c = bits.Add64(lo, t[j], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		r[j] = lo
		carry = hi
	}
	for carry != 0 {
		var c uint64
		r[0], c = bits.Add64(r[0], carry*38, 0)
		r[1], c = bits.Add64(r[1], 0, c)
		r[2], c = bits.Add64(r[2], 0, c)
		r[3], c = bits.Add64(r[3], 0, c)
		carry = c
	}
	return condSub(r)
}

func Sqr(a Fe) Fe { return Mul(a, a) }

// Pow returns a^e.
func Pow(a Fe, e *big.Int) Fe {
	r := One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = Sqr(r)
		if e.Bit(i) == 1 {
			r = Mul(r, a)
		}
	}
	return r
}

var pm2 = new(big.Int).Sub(P, big.NewInt(2))

// Inv returns 1/a, and 0 for 0.
func Inv(a Fe) Fe { return Pow(a, pm2) }

// IsNeg is the sign of RFC 9496: the lowest bit.
func (a Fe) IsNeg() bool  { return a[0]&1 == 1 }
func (a Fe) IsZero() bool { return a == Fe{} }

func Abs(a Fe) Fe {
	if a.IsNeg() {
		return Neg(a)
	}
	return a
}

// SqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func SqrtRatio(u, v Fe) (bool, Fe) {
	v3 := Mul(Sqr(v), v)
	v7 := Mul(Sqr(v3), v)
	r := Mul(Mul(u, v3), Pow(Mul(u, v7), exp58))
	check := Mul(v, Sqr(r))
	correct := check == u
	flipped := check == Neg(u)
	flippedI := check == Mul(Neg(u), I)
	if flipped || flippedI {
		r = Mul(r, I)
	}
	return correct || flipped, Abs(r)
}

// IsSquare says whether a is a square (0 included).
func IsSquare(a Fe) bool {
	ok, _ := SqrtRatio(a, One)
	return ok
}
