package core

import (
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"

	"verif.local/main/model"
)

// Expect is what the specification says about a call: Outs are the values of
// the arguments afterwards (only o and m modes; Undef marks those it leaves
// open), Out the outcome.
type Expect struct {
	Out   Outcome
	Outs  map[int]Val
	Undef map[int]bool
	// Check, when set, decides instead of equality of outputs and returns.
	Check func(out *Outcome, outs map[int]Val) string
	// Skip: the specification says nothing about this call.
	Skip bool
}

func RetInt(x int64) string    { return fmt.Sprintf("int %d", x) }
func RetBool(x bool) string    { return fmt.Sprintf("bool %v", x) }
func RetBytes(b []byte) string { return "bytes " + hex.EncodeToString(b) }
func RetStr(s string) string   { return "str " + s }
func RetBig(x *big.Int) string { return "big " + x.Text(16) }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func arr32(b []byte) (r [32]byte) { copy(r[:], b); return }

// IsLizard says whether p encodes data; the simulator knows the data of every
// point it made with Lizard.
type LizardBook map[[32]byte][16]byte

// TextBytes lists the 32-byte strings a text may stand for: hex and unpadded
// base64url, the latter without line breaks, which the decoder may ignore.
func TextBytes(txt []byte, allowHex bool) (cands [][32]byte, exact bool) {
	if allowHex && len(txt) == 64 {
		if b, err := hex.DecodeString(string(txt)); err == nil {
			return [][32]byte{arr32(b)}, true
		}
	}
	clean := make([]byte, 0, len(txt))
	for _, c := range txt {
		if c != '\r' && c != '\n' {
			clean = append(clean, c)
		}
	}
	if len(clean) == 43 {
		if b, err := base64.RawURLEncoding.DecodeString(string(clean)); err == nil && len(b) == 32 {
			back := base64.RawURLEncoding.EncodeToString(b)
			return [][32]byte{arr32(b)}, back == string(txt)
		}
	}
	return nil, false
}

func scalarOfBytes(b []byte) *big.Int {
	x := model.IntLE(b)
	x.And(x, mask253)
	return x.Mod(x, model.L)
}

var mask253 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 253), big.NewInt(1))

// Sem gives the meaning of a call on argument values a (outputs' previous
// values included).
func Sem(name string, a []Val, book LizardBook) *Expect {
	e := &Expect{Outs: map[int]Val{}, Undef: map[int]bool{}}
	sp := ByName[name]
	if sp.Self {
		e.Out.Ret = "self"
	}
	P := func(i int, p model.Pt) { e.Outs[i] = Val{K: 'P', P: p} }
	S := func(i int, x *big.Int) { e.Outs[i] = Val{K: 'S', S: model.ModL(x)} }
	F := func(i int, x model.Fe) { e.Outs[i] = Val{K: 'F', F: x} }
	B := func(i int, b []byte) { e.Outs[i] = Val{K: a[i].K, B: append([]byte{}, b...)} }
	fail := func(point bool) {
		e.Out.Err = true
		if point {
			e.Undef[0] = true
		}
	}
	big_ := func() *big.Int { return new(big.Int) }
	mulInt := func(b []byte) *big.Int { return model.IntLE(b) }

	switch name {
	case "P.SetZero", "E.SetZero", "E.SetTorsion1", "E.SetTorsion2", "E.SetTorsion3":
		P(0, model.Identity)
	case "P.SetBase", "E.SetBase":
		P(0, model.Base)
	case "P.Set", "E.Set":
		P(0, a[1].P)
	case "P.Add", "E.Add", "E.AddCompleted":
		P(0, model.AddPt(a[1].P, a[2].P))
	case "P.Sub", "E.Sub", "E.SubCompleted":
		P(0, model.SubPt(a[1].P, a[2].P))
	case "P.Double", "E.Double", "E.DoubleCompleted", "E.DoubleProjective":
		P(0, model.DblPt(a[1].P))
	case "P.Neg", "E.Neg":
		P(0, model.NegPt(a[1].P))
	case "P.BytesInto", "E.RistrettoInto":
		x := a[0].P.Encode()
		B(1, x[:])
	case "P.Bytes", "E.Ristretto", "P.MarshalBinary":
		x := a[0].P.Encode()
		e.Out.Ret = RetBytes(x[:])
	case "P.MarshalText":
		x := a[0].P.Encode()
		e.Out.Ret = RetStr(base64.RawURLEncoding.EncodeToString(x[:]))
	case "P.String":
		x := a[0].P.Encode()
		e.Out.Ret = RetStr(base64.RawURLEncoding.EncodeToString(x[:]))
	case "P.SetBytes", "E.SetRistretto":
		if p, ok := model.Decode(arr32(a[1].B)); ok {
			P(0, p)
		} else {
			fail(true)
		}
	case "P.UnmarshalBinary":
		if len(a[1].B) != 32 {
			fail(true)
		} else if p, ok := model.Decode(arr32(a[1].B)); ok {
			P(0, p)
		} else {
			fail(true)
		}
	case "P.UnmarshalText":
		c, exact := TextBytes(a[1].B, true)
		var p model.Pt
		ok := false
		if len(c) == 1 {
			p, ok = model.Decode(c[0])
		}
		if !ok {
			fail(true)
		} else if exact {
			P(0, p)
		} else {
			// tolerated spelling: rejecting it is as good
			e.Check = func(out *Outcome, outs map[int]Val) string {
				if out.Err {
					return ""
				}
				if !Same(outs[0], Val{K: 'P', P: p}) {
					return "accepted text yields another point: " + outs[0].Show()
				}
				return ""
			}
			e.Undef[0] = true
		}
	case "P.SetElligator":
		P(0, model.Elligator(arr32(a[1].B)))
	case "E.Elligator":
		P(0, model.Map(a[1].F))
	case "P.ScalarMultTable", "P.PublicScalarMultTable", "P.ScalarMult", "P.PublicScalarMult":
		P(0, model.MulPt(a[1].P, a[2].S))
	case "E.ScalarMult", "E.VarTimeScalarMult", "E.TableScalarMult", "E.TableVarTime":
		P(0, model.MulPt(a[1].P, mulInt(a[2].B)))
	case "P.PublicScalarMultBase", "P.ScalarMultBase":
		P(0, model.MulBase(a[1].S))
	case "E.BaseTable", "E.BaseTableVarTime":
		P(0, model.MulBase(mulInt(a[1].B)))
	case "P.Derive":
		P(0, model.Derive(a[1].B))
	case "P.DeriveDalek":
		P(0, model.DeriveDalek(a[1].B))
	case "P.SetLizard":
		var d [16]byte
		copy(d[:], a[1].B)
		p := model.Lizard(d)
		book[p.Encode()] = d // the simulator now knows this one
		P(0, p)
	case "P.Lizard":
		if d, ok := book[a[0].P.Encode()]; ok {
			e.Out.Ret = RetBytes(d[:])
		} else {
			e.Out.Ret = "nil"
		}
	case "P.LizardInto":
		if d, ok := book[a[0].P.Encode()]; ok {
			B(1, d[:])
		} else {
			fail(false)
		}
	case "P.EqualsI", "E.EqualsI":
		e.Out.Ret = RetInt(b2i(a[0].P.Encode() == a[1].P.Encode()))
	case "P.Equals":
		e.Out.Ret = RetBool(a[0].P.Encode() == a[1].P.Encode())
	case "P.ConditionalSet", "E.ConditionalSet":
		if a[2].U == 1 {
			P(0, a[1].P)
		} else {
			P(0, a[0].P)
		}
	case "T.Compute":
		e.Outs[0] = Val{K: 'T', P: a[1].P}

	case "S.SetZero":
		S(0, big_())
	case "S.SetOne":
		S(0, big.NewInt(1))
	case "S.Set":
		S(0, a[1].S)
	case "S.SetUint64":
		S(0, big_().SetUint64(a[1].U))
	case "S.SetBytes":
		S(0, scalarOfBytes(a[1].B))
	case "S.SetBytesStrict":
		x := model.IntLE(a[1].B)
		if x.Cmp(model.L) < 0 {
			S(0, x)
		} else {
			fail(false)
		}
	case "S.SetReduced":
		S(0, model.IntLE(a[1].B))
	case "S.SetBigInt":
		S(0, a[1].I)
	case "S.BigInt":
		e.Out.Ret = RetBig(a[0].S)
	case "S.BytesInto":
		x := model.LE32(a[0].S)
		B(1, x[:])
	case "S.Bytes", "S.MarshalBinary":
		x := model.LE32(a[0].S)
		e.Out.Ret = RetBytes(x[:])
	case "S.MarshalText", "S.String":
		x := model.LE32(a[0].S)
		e.Out.Ret = RetStr(base64.RawURLEncoding.EncodeToString(x[:]))
	case "S.Neg":
		S(0, big_().Neg(a[1].S))
	case "S.Add":
		S(0, big_().Add(a[1].S, a[2].S))
	case "S.Sub":
		S(0, big_().Sub(a[1].S, a[2].S))
	case "S.Mul":
		S(0, big_().Mul(a[1].S, a[2].S))
	case "S.Square":
		S(0, big_().Mul(a[1].S, a[1].S))
	case "S.MulAdd":
		S(0, big_().Add(big_().Mul(a[1].S, a[2].S), a[3].S))
	case "S.MulSub":
		S(0, big_().Sub(big_().Mul(a[1].S, a[2].S), a[3].S))
	case "S.Inverse":
		if a[1].S.Sign() == 0 {
			e.Skip = true
		}
		S(0, big_().Exp(a[1].S, big_().Sub(model.L, big.NewInt(2)), model.L))
	case "S.Derive":
		h := sha512.Sum512(a[1].B)
		S(0, model.IntLE(h[:]))
	case "S.DeriveShort":
		h := sha512.Sum512(a[1].B)
		S(0, model.IntLE(h[:16]))
	case "S.IsNonZeroI":
		e.Out.Ret = RetInt(b2i(a[0].S.Sign() != 0))
	case "S.EqualsI":
		e.Out.Ret = RetInt(b2i(a[0].S.Cmp(a[1].S) == 0))
	case "S.Equals":
		e.Out.Ret = RetBool(a[0].S.Cmp(a[1].S) == 0)
	case "S.ConditionalSet":
		if a[2].U == 1 {
			S(0, a[1].S)
		} else {
			S(0, a[0].S)
		}
	case "S.UnmarshalBinary":
		if len(a[1].B) != 32 {
			fail(false)
		} else {
			S(0, scalarOfBytes(a[1].B))
		}
	case "S.UnmarshalText":
		c, exact := TextBytes(a[1].B, false)
		if len(c) == 0 && len(a[1].B) == 64 {
			// the point decoder also takes hex; were the scalar decoder to do so, fine
			if c2, _ := TextBytes(a[1].B, true); len(c2) == 1 {
				c, exact = c2, false
			}
		}
		if len(c) == 0 {
			fail(false)
		} else if exact {
			S(0, scalarOfBytes(c[0][:]))
		} else {
			want := scalarOfBytes(c[0][:])
			e.Check = func(out *Outcome, outs map[int]Val) string {
				if out.Err {
					if !Same(outs[0], a[0]) {
						return "rejected text changed the receiver to " + outs[0].Show()
					}
					return ""
				}
				if outs[0].S.Cmp(want) != 0 {
					return "accepted text yields another scalar: " + outs[0].Show()
				}
				return ""
			}
		}

	case "F.SetZero":
		F(0, model.Zero)
	case "F.SetOne":
		F(0, model.One)
	case "F.SetI":
		F(0, model.I)
	case "F.Set":
		F(0, a[1].F)
	case "F.Add":
		F(0, model.Add(a[1].F, a[2].F))
	case "F.Sub":
		F(0, model.Sub(a[1].F, a[2].F))
	case "F.Neg":
		F(0, model.Neg(a[1].F))
	case "F.Mul":
		F(0, model.Mul(a[1].F, a[2].F))
	case "F.Square":
		F(0, model.Sqr(a[1].F))
	case "F.DoubledSquare":
		x := model.Sqr(a[1].F)
		F(0, model.Add(x, x))
	case "F.Inverse":
		F(0, model.Inv(a[1].F))
	case "F.Abs":
		F(0, model.Abs(a[1].F))
	case "F.Exp22523":
		F(0, model.Pow(a[1].F, exp22523))
	case "F.InvSqrt":
		// 1/sqrt of a non-zero square: either root
		x := a[1].F
		if !model.IsSquare(x) || x.IsZero() {
			e.Skip = true
			break
		}
		e.Check = func(out *Outcome, outs map[int]Val) string {
			if model.Mul(model.Sqr(outs[0].F), x) != model.One {
				return "not an inverse square root: " + outs[0].Show()
			}
			return ""
		}
	case "F.Sqrt":
		x := a[1].F
		if !model.IsSquare(x) {
			e.Skip = true
			break
		}
		_, r := model.SqrtRatio(x, model.One)
		F(0, r)
	case "F.InvSqrtI":
		x := a[1].F
		if x.IsZero() {
			e.Skip = true
			break
		}
		sq := model.IsSquare(x)
		e.Check = func(out *Outcome, outs map[int]Val) string {
			if out.Ret != RetInt(b2i(sq)) {
				return "wrong squareness: " + out.Ret
			}
			y := x
			if !sq {
				y = model.Mul(model.I, x)
			}
			if model.Mul(model.Sqr(outs[0].F), y) != model.One {
				return "not an inverse square root: " + outs[0].Show()
			}
			return ""
		}
	case "F.ConditionalSet":
		if a[2].U == 1 {
			F(0, a[1].F)
		} else {
			F(0, a[0].F)
		}
	case "F.SetBytes":
		F(0, model.FeBytes(arr32(a[1].B)))
	case "F.BytesInto":
		x := a[0].F.Bytes()
		B(1, x[:])
	case "F.Bytes":
		x := a[0].F.Bytes()
		e.Out.Ret = RetBytes(x[:])
	case "F.BigInt":
		e.Out.Ret = RetBig(a[0].F.Big())
	case "F.SetBigInt":
		F(0, model.FeBig(a[1].I))
	case "F.String":
		e.Out.Ret = RetStr(a[0].F.Big().String())
	case "F.IsNegativeI":
		e.Out.Ret = RetInt(b2i(a[0].F.IsNeg()))
	case "F.IsNonZeroI":
		e.Out.Ret = RetInt(b2i(!a[0].F.IsZero()))
	case "F.IsOneI":
		e.Out.Ret = RetInt(b2i(a[0].F == model.One))
	case "F.EqualsI":
		e.Out.Ret = RetInt(b2i(a[0].F == a[1].F))
	case "F.Equals":
		e.Out.Ret = RetBool(a[0].F == a[1].F)

	case "N.SetZero":
		e.Outs[0] = Val{K: 'N', N: NielsOf(model.Zero, model.One)}
	case "N.Set":
		e.Outs[0] = Val{K: 'N', N: a[1].N}
	case "N.Neg":
		e.Outs[0] = Val{K: 'N', N: [3]model.Fe{a[1].N[1], a[1].N[0], model.Neg(a[1].N[2])}}
	case "N.ConditionalSet":
		n := a[0].N
		if a[2].U == 1 {
			n = a[1].N
		}
		e.Outs[0] = Val{K: 'N', N: n}
	case "N.SetExtended":
		p := a[1].P.Affine()
		e.Outs[0] = Val{K: 'N', N: NielsOf(p.X, p.Y)}
	case "E.AddNiels":
		P(0, model.AddPt(a[1].P, PtOfNiels(a[2].N)))
	case "E.SubNiels":
		P(0, model.SubPt(a[1].P, PtOfNiels(a[2].N)))

	case "E.ElligatorInverse":
		p := a[0].P
		e.Check = func(out *Outcome, outs map[int]Val) string {
			want := p.Encode()
			seen := map[model.Fe]bool{}
			for _, f := range out.Fes {
				if f.IsNeg() {
					return fmt.Sprintf("negative preimage %x", f.Big())
				}
				if model.Map(f).Encode() != want {
					return fmt.Sprintf("%x is not a preimage", f.Big())
				}
				seen[f] = true
			}
			for _, f := range model.Inverse(p) {
				if !seen[f] {
					return fmt.Sprintf("preimage %x missing", f.Big())
				}
			}
			return ""
		}
	case "E.Jacobi":
		p := a[0].P
		e.Check = func(out *Outcome, outs map[int]Val) string {
			want := p.Encode()
			if len(out.Pts) != 4 {
				return "four points expected"
			}
			for i, q := range out.Pts {
				if !q.Valid() || q.Encode() != want {
					return fmt.Sprintf("quartic point %d maps elsewhere", i)
				}
			}
			// one for each representative, except (0,-1), which has none
			for _, t := range model.Torsion {
				w := model.AddPt(p, t).Affine()
				if w.X.IsZero() && w.Y == model.MinusOne {
					continue
				}
				found := false
				for _, q := range out.Pts {
					q = q.Affine()
					found = found || q.X == w.X && q.Y == w.Y
				}
				if !found {
					return fmt.Sprintf("no quartic point for the representative (%x, %x)", w.X.Big(), w.Y.Big())
				}
			}
			return ""
		}
	case "P.Rand", "S.Rand":
		e.Skip = true
	default:
		panic("no semantics for " + name)
	}
	return e
}

var exp22523 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 252), big.NewInt(3))

// Judge compares a call's outcome with what is expected; "" means it conforms.
// outs are the values of output arguments afterwards, before those of a are.
func Judge(name string, a []Val, e *Expect, out *Outcome, outs map[int]Val) string {
	if out.Hang {
		return "does not finish"
	}
	if out.Panic != "" {
		return "panics: " + out.Panic
	}
	if e.Skip {
		return ""
	}
	sp := ByName[name]
	if sp.Self && out.Ret != "self" {
		return "does not return its receiver: " + out.Ret
	}
	if e.Check != nil {
		return e.Check(out, outs)
	}
	if out.Err != e.Out.Err {
		return fmt.Sprintf("failure reported: %v, expected %v", out.Err, e.Out.Err)
	}
	if out.Ret != e.Out.Ret {
		return fmt.Sprintf("returns %s, expected %s", out.Ret, e.Out.Ret)
	}
	for i, g := range sp.Args {
		if g.Mode == 'i' || e.Undef[i] {
			continue
		}
		w, ok := e.Outs[i]
		if !ok {
			w = a[i] // a failed call leaves it
		}
		got := outs[i]
		if w.K == 'T' {
			if m := TableErr(got.Tab, w.P); m != "" {
				return m
			}
			continue
		}
		if !Same(got, w) {
			return fmt.Sprintf("argument %d is %s, expected %s", i, got.Show(), w.Show())
		}
	}
	return ""
}

// TableErr compares the contents of a table with the multiples of p it stands for.
func TableErr(t *[32][8][3]model.Fe, p model.Pt) string {
	want := TableOf(p)
	if *t == *want {
		return ""
	}
	for i := range t {
		for j := range t[i] {
			if t[i][j] == want[i][j] {
				continue
			}
			q := PtOfNiels(t[i][j])
			if !q.Valid() || NielsOf(q.X, q.Y) != t[i][j] || !model.EqPt(q, PtOfNiels(want[i][j])) {
				return fmt.Sprintf("table entry [%d][%d] is wrong", i, j)
			}
		}
	}
	return ""
}
