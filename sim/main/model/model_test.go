package model

import (
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

func TestField(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	edge := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(P, big.NewInt(1)), new(big.Int).Rsh(P, 1)}
	pick := func() *big.Int {
		if r.Intn(4) == 0 {
			return edge[r.Intn(len(edge))]
		}
		return new(big.Int).Rand(r, P)
	}
	for i := 0; i < 20000; i++ {
		a, b := pick(), pick()
		m := func(x *big.Int) *big.Int { return x.Mod(x, P) }
		if Mul(FeBig(a), FeBig(b)).Big().Cmp(m(new(big.Int).Mul(a, b))) != 0 ||
			Add(FeBig(a), FeBig(b)).Big().Cmp(m(new(big.Int).Add(a, b))) != 0 ||
			Sub(FeBig(a), FeBig(b)).Big().Cmp(m(new(big.Int).Sub(a, b))) != 0 {
			t.Fatal(a, b)
		}
	}
}

// RFC 9496, appendix A.1 and A.3.
func TestVectors(t *testing.T) {
	for i, h := range []string{
		"0000000000000000000000000000000000000000000000000000000000000000",
		"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
		"6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
		"94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
	} {
		e := MulBase(big.NewInt(int64(i))).Encode()
		if hex.EncodeToString(e[:]) != h {
			t.Errorf("%d: %x", i, e)
		}
	}
	e := DeriveDalek([]byte("Ristretto is traditionally a short shot of espresso coffee")).Encode()
	if hex.EncodeToString(e[:]) != "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46" {
		t.Errorf("%x", e)
	}
	if !EqPt(MulBase(L), Identity) {
		t.Error("order")
	}
	for _, q := range Torsion {
		if !q.Valid() || !q.Even() || !EqPt(q, Identity) || q.Encode() != Identity.Encode() {
			t.Error("torsion")
		}
		p := AddPt(MulBase(big.NewInt(77)), q)
		if !p.Valid() || p.Encode() != MulBase(big.NewInt(77)).Encode() || !p.Even() {
			t.Error("coset")
		}
	}
}

func BenchmarkMul(b *testing.B) {
	k := new(big.Int).Sub(L, big.NewInt(5))
	for i := 0; i < b.N; i++ {
		MulBase(k)
	}
}

func TestInverse(t *testing.T) {
	f := Fe{5}
	hist := map[int]int{}
	for i := 0; i < 300; i++ {
		p := Map(f)
		l := Inverse(p)
		found := false
		for _, g := range l {
			found = found || g == Abs(f)
		}
		if !found {
			t.Fatal("missing preimage", i)
		}
		hist[len(l)]++
		f = Add(Sqr(f), One)
	}
	t.Log(hist, len(Inverse(Identity)))
	for _, f := range []Fe{Zero, One, I, SqrtID, D} {
		l := Inverse(Map(f))
		found := false
		for _, g := range l {
			found = found || g == Abs(f)
		}
		if !found {
			t.Fatal("missing preimage", f)
		}
	}
}
