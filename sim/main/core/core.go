// Package core holds what the simulator and the library adapters share: the
// list of operations, values and outcomes, and the reference semantics of
// every operation.
package core

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"unsafe"

	"verif.local/main/model"
)

// Kinds of variables and arguments.
//
//	P point, S scalar, T table, F field element, N Niels point, I big integer,
//	q [16]byte, h [32]byte, w [64]byte, y byte slice, b bit, u uint64
//
// Modes: i only read, o overwritten, m read and overwritten.
type Arg struct{ Mode, Kind byte }

type Spec struct {
	Name string
	Args []Arg
	// Returns the receiver (args[0]).
	Self bool
	// May report failure.
	CanFail bool
	// Uses the randomness source.
	Rand bool
	Cost int
}

// Val is a value of a variable, independent of any representation.
type Val struct {
	K byte
	P model.Pt // P, and T: the point of the table
	S *big.Int // S
	F model.Fe
	N [3]model.Fe // Y+X, Y-X, 2dXY
	B []byte      // q h w y
	I *big.Int
	U uint64 // b u
	// Rep picks how coordinates are represented when stored: a set bit means
	// the unnormalised form that the library's own Neg yields.
	Rep uint64
	// Tab is the contents of a table (T), when read from the library.
	Tab *[32][8][3]model.Fe
}

// Outcome is what a caller can see of a call, other than the variables.
type Outcome struct {
	Ret    string     // return values, canonically printed
	Err    bool       // an error (or false from a decoder) was returned
	Panic  string     // a panic came out
	Abort  bool       // ... the process abort of a failing randomness source
	Fault  uintptr    // ... a write to protected memory at this address
	Hang   bool       // step budget exhausted
	Fes    []model.Fe // set-valued results
	Pts    []model.Pt
	Handed []interface{} // memory handed to the caller: []byte or *big.Int
}

// Machine is one build of the library.
type Machine interface {
	Name() string
	New(kind byte) interface{}
	Size(kind byte) uintptr
	At(kind byte, p unsafe.Pointer) interface{}
	// Put and Get write and read a variable without running library code.
	Put(v interface{}, x Val)
	Get(v interface{}) Val
	// Mem is the variable's memory.
	Mem(v interface{}) []byte
	// Poison fills a variable with garbage that is representable.
	Poison(v interface{}, next func() uint64)
	// Exec performs one library call.
	Exec(name string, a []interface{}, out *Outcome)
	// BaseTableMem is the memory of the exported base point table.
	BaseTableMem() []byte
}

func parse(s string) []Spec {
	var l []Spec
	for _, line := range strings.Split(s, "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		sp := Spec{Name: f[0], Cost: 1}
		for _, x := range f[1:] {
			switch {
			case x == "self":
				sp.Self = true
			case x == "fail":
				sp.CanFail = true
			case x == "rand":
				sp.Rand = true
			case strings.HasPrefix(x, "cost="):
				fmt.Sscanf(x, "cost=%d", &sp.Cost)
			default:
				sp.Args = append(sp.Args, Arg{x[0], x[1]})
			}
		}
		l = append(l, sp)
	}
	return l
}

var Specs = parse(`
P.SetZero oP self
P.SetBase oP self
P.Set oP iP self
P.Add oP iP iP self
P.Double oP iP self
P.Sub oP iP iP self
P.Neg oP iP self
P.BytesInto iP oh self cost=3
P.Bytes iP cost=3
P.SetBytes oP ih fail cost=3
P.SetElligator oP ih self cost=3
P.ScalarMultTable oP iT iS self cost=20
P.PublicScalarMultTable oP iT iS self cost=15
P.ScalarMult oP iP iS self cost=40
P.PublicScalarMult oP iP iS self cost=30
P.PublicScalarMultBase oP iS self cost=15
P.ScalarMultBase oP iS self cost=20
P.Rand oP self rand cost=3
P.Derive oP iy self cost=3
P.DeriveDalek oP iy self cost=6
P.SetLizard oP iq self cost=3
P.Lizard iP cost=20
P.LizardInto iP oq fail cost=20
P.EqualsI iP iP
P.Equals iP iP
P.ConditionalSet mP iP ib
P.UnmarshalBinary oP iy fail cost=3
P.MarshalBinary iP cost=3
P.MarshalText iP cost=3
P.UnmarshalText oP iy fail cost=3
P.String iP cost=3
T.Compute oT iP cost=600
S.SetZero oS self
S.SetOne oS self
S.Set oS iS self
S.SetUint64 oS iu self
S.SetBytes oS ih self
S.SetBytesStrict oS ih fail
S.SetReduced oS iw self
S.SetBigInt oS iI self
S.BigInt iS
S.BytesInto iS oh self
S.Bytes iS
S.Neg oS iS self
S.Add oS iS iS self
S.Sub oS iS iS self
S.Mul oS iS iS self
S.Square oS iS self
S.MulAdd oS iS iS iS self
S.MulSub oS iS iS iS self
S.Inverse oS iS self cost=5
S.Derive oS iy self
S.DeriveShort oS iy self
S.Rand oS self rand
S.IsNonZeroI iS
S.EqualsI iS iS
S.Equals iS iS
S.ConditionalSet mS iS ib
S.UnmarshalBinary oS iy fail
S.MarshalBinary iS
S.MarshalText iS
S.UnmarshalText oS iy fail
S.String iS
F.SetZero oF self
F.SetOne oF self
F.SetI oF self
F.Set oF iF self
F.Add oF iF iF self
F.Sub oF iF iF self
F.Neg oF iF self
F.Mul oF iF iF self
F.Square oF iF self
F.DoubledSquare oF iF self
F.Inverse oF iF self cost=3
F.Abs oF iF self
F.Exp22523 oF iF self cost=3
F.InvSqrt oF iF self cost=3
F.Sqrt oF iF self cost=3
F.InvSqrtI oF iF cost=3
F.ConditionalSet mF iF ib
F.SetBytes oF ih self
F.BytesInto iF oh self
F.Bytes iF
F.BigInt iF
F.SetBigInt oF iI self
F.String iF
F.IsNegativeI iF
F.IsNonZeroI iF
F.IsOneI iF
F.EqualsI iF iF
F.Equals iF iF
N.SetZero oN self
N.Set oN iN self
N.Neg oN iN self
N.ConditionalSet mN iN ib self
N.SetExtended oN iP self cost=3
E.SetTorsion1 oP self
E.SetTorsion2 oP self
E.SetTorsion3 oP self
E.SetZero oP self
E.SetBase oP self
E.Set oP iP self
E.Add oP iP iP self
E.Sub oP iP iP self
E.Double oP iP self
E.Neg oP iP self
E.ConditionalSet mP iP ib self
E.EqualsI iP iP
E.ScalarMult oP iP ih self cost=40
E.VarTimeScalarMult oP iP ih self cost=30
E.TableScalarMult oP iT ih cost=20
E.TableVarTime oP iT ih cost=15
E.BaseTable oP ih cost=20
E.BaseTableVarTime oP ih cost=15
E.Ristretto iP cost=3
E.RistrettoInto iP oh self cost=3
E.SetRistretto oP ih fail cost=3
E.Elligator oP iF cost=3
E.ElligatorInverse iP cost=20
E.Jacobi iP cost=10
E.AddCompleted oP iP iP
E.SubCompleted oP iP iP
E.DoubleCompleted oP iP
E.DoubleProjective oP iP
E.AddNiels oP iP iN
E.SubNiels oP iP iN
`)

var ByName = func() map[string]*Spec {
	m := map[string]*Spec{}
	for i := range Specs {
		m[Specs[i].Name] = &Specs[i]
	}
	return m
}()

// ---- limbs ----

// ToLimbs writes x in radix 2^51 (n=5) or in balanced radix 2^25.5 (n=10).
func ToLimbs(n int, x model.Fe) []uint64 {
	r := make([]uint64, n)
	switch n {
	case 5:
		for i := range r {
			o := 51 * i
			v := x[o/64] >> uint(o%64)
			if o%64 > 13 && o/64 < 3 {
				v |= x[o/64+1] << uint(64-o%64)
			}
			r[i] = v & (1<<51 - 1)
		}
	case 10:
		var l [10]int64
		o := 0
		for i := range l {
			w := 26 - i%2
			v := x[o/64] >> uint(o%64)
			if o%64 > 64-w && o/64 < 3 {
				v |= x[o/64+1] << uint(64-o%64)
			}
			l[i] = int64(v & (1<<uint(w) - 1))
			o += w
		}
		for round := 0; round < 2; round++ {
			for i := range l {
				w := uint(26 - i%2)
				c := (l[i] + 1<<(w-1)) >> w
				l[i] -= c << w
				if i == 9 {
					l[0] += 19 * c
				} else {
					l[i+1] += c
				}
			}
		}
		for i := range l {
			r[i] = uint64(l[i])
		}
	default:
		panic("unknown field representation")
	}
	return r
}

// NegLimbs writes x the way negation leaves it: 2p or 0, minus the limbs of -x.
func NegLimbs(n int, x model.Fe) []uint64 {
	r := ToLimbs(n, model.Neg(x))
	for i := range r {
		switch {
		case n == 10:
			r[i] = -r[i]
		case i == 0:
			r[i] = 0xfffffffffffda - r[i]
		default:
			r[i] = 0xffffffffffffe - r[i]
		}
	}
	return r
}

var pow2 = func() (r [256]model.Fe) {
	r[0] = model.One
	for i := 1; i < 256; i++ {
		r[i] = model.Add(r[i-1], r[i-1])
	}
	return
}()

func FromLimbs(l []uint64) model.Fe {
	var r model.Fe
	switch len(l) {
	case 5:
		for i, x := range l {
			v := model.Fe{x}
			r = model.Add(r, model.Mul(v, pow2[51*i]))
		}
	case 10:
		o := 0
		for i, x := range l {
			v := model.Fe{x}
			if int64(x) < 0 {
				v = model.Neg(model.Fe{uint64(-int64(x))})
			}
			r = model.Add(r, model.Mul(v, pow2[o]))
			o += 26 - i%2
		}
	default:
		panic("unknown field representation")
	}
	return r
}

// TableOf computes the contents of a multiplication table for p.
func TableOf(p model.Pt) *[32][8][3]model.Fe {
	if t, ok := tables[p]; ok {
		return t
	}
	var pts [256]model.Pt
	cp := p
	for i := 0; i < 32; i++ {
		c := model.Identity
		for v := 0; v < 8; v++ {
			c = model.AddPt(c, cp)
			pts[8*i+v] = c
		}
		for k := 0; k < 8; k++ {
			cp = model.DblPt(cp)
		}
	}
	// batch inversion
	var pre [257]model.Fe
	pre[0] = model.One
	for i := range pts {
		pre[i+1] = model.Mul(pre[i], pts[i].Z)
	}
	inv := model.Inv(pre[256])
	t := new([32][8][3]model.Fe)
	for i := 255; i >= 0; i-- {
		zi := model.Mul(inv, pre[i])
		inv = model.Mul(inv, pts[i].Z)
		x, y := model.Mul(pts[i].X, zi), model.Mul(pts[i].Y, zi)
		t[i/8][i%8] = NielsOf(x, y)
	}
	tables[p] = t
	return t
}

var tables = map[model.Pt]*[32][8][3]model.Fe{}

func NielsOf(x, y model.Fe) [3]model.Fe {
	return [3]model.Fe{model.Add(y, x), model.Sub(y, x), model.Mul(model.D2, model.Mul(x, y))}
}

// PtOfNiels returns the affine point of a Niels point.
func PtOfNiels(n [3]model.Fe) model.Pt {
	half := model.Inv(model.Fe{2})
	x := model.Mul(half, model.Sub(n[0], n[1]))
	y := model.Mul(half, model.Add(n[0], n[1]))
	return model.Pt{X: x, Y: y, Z: model.One, T: model.Mul(x, y)}
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

// Show prints a value for traces.
func (v Val) Show() string {
	switch v.K {
	case 'P', 'T':
		e := v.P.Encode()
		ok := ""
		if !v.P.Valid() {
			ok = "INVALID "
		}
		return ok + string(v.K) + ":" + Hex(e[:]) + fmt.Sprintf("(X=%x Y=%x Z=%x T=%x)", v.P.X.Big(), v.P.Y.Big(), v.P.Z.Big(), v.P.T.Big())
	case 'S':
		return fmt.Sprintf("S:%x", v.S)
	case 'F':
		return fmt.Sprintf("F:%x", v.F.Big())
	case 'N':
		return fmt.Sprintf("N:%x,%x,%x", v.N[0].Big(), v.N[1].Big(), v.N[2].Big())
	case 'I':
		return fmt.Sprintf("I:%x", v.I)
	case 'b', 'u':
		return fmt.Sprintf("%d", v.U)
	}
	return Hex(v.B)
}

// Same compares what two values mean: points as ristretto255 elements.
func Same(a, b Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'P', 'T':
		return a.P.Valid() && b.P.Valid() && model.EqPt(a.P, b.P) && a.P.Encode() == b.P.Encode()
	case 'S':
		return a.S.Cmp(b.S) == 0
	case 'F':
		return a.F == b.F
	case 'N':
		return a.N == b.N
	case 'I':
		return a.I.Cmp(b.I) == 0
	case 'b', 'u':
		return a.U == b.U
	}
	return string(a.B) == string(b.B)
}
