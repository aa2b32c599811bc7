package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// Threshold El'Gamal: a dealer shares a key with Feldman commitments, a sender
// encrypts messages embedded with Lizard, a relay re-randomises them, parties
// answer with partial decryptions and Chaum-Pedersen proofs, a receiver checks
// and combines them. The protocol is the simulator's, every group, scalar and
// encoding operation the library's.

type eparty struct {
	node
	id    int
	up    bool
	draws int
	sys   *esys

	// durable: encodings
	disk map[string][]byte
	// volatile: library values
	share interface{}
	comms []interface{} // commitments
	tab   interface{}
	evil  bool
	last  [][]byte // an old answer, to be replayed
}

type emsg struct {
	k         int
	data      [16]byte
	delivered bool
	acked     bool
	forged    *model.Pt // what a dishonest sender encrypts instead of data
	c1        model.Pt  // of the ciphertext the receiver holds
}

type esys struct {
	c       *Ctx
	net     *Net
	n, t    int
	ps      []*eparty // parties, then sender, relay, receiver
	fShare  *form
	fPoint  *form
	fScal   *form
	coef    []*big.Int // ground truth
	ids     []*big.Int // of the parties, distinct and not zero
	msgs    []*emsg
	pFail   int
	fin     bool
	nextKey int
}

func (s *esys) fail(class, f string, a ...interface{}) {
	s.c.Fail(class, f, a...)
	s.net.stop = true
}

func pformBy(r *Rng, kind string) *form {
	for {
		f := &forms[r.N(len(forms))]
		if f.kind == kind && (kind == "P" || f.name != "bytes") {
			return f
		}
	}
}

// call is a library call that must not crash.
func (p *eparty) call(op string, a ...interface{}) *core.Outcome {
	if p.sys.net.stop {
		return &core.Outcome{}
	}
	o := p.do(op, a...)
	if o.Panic != "" || o.Hang {
		p.sys.fail("crash", "%s on node %d (%s): %s", op, p.id, p.m.Name(), short(o.Panic, 200))
	}
	return o
}

// draw makes a random scalar; false when the randomness source failed.
func (p *eparty) draw(v interface{}) bool {
	p.draws++
	key := fmt.Sprintf("draw/%d/%d", p.id, p.draws)
	r := p.c.R(key)
	var src *failingSource
	simrand.Modern = false
	if p.sys.net.now < p.sys.net.calm && r.N(100) < p.sys.pFail {
		left := r.N(64)
		if p.c.Fault("randomness-failure", key) {
			src = &failingSource{r: r, left: left, err: srcErrs[r.N(len(srcErrs))].err}
		}
	}
	if src != nil {
		simrand.Reader = src
	} else {
		simrand.Reader = &simpleSource{r}
	}
	var out core.Outcome
	direct(p.c, &out, opLimit, func() { p.m.Exec("S.Rand", []interface{}{v}, &out) })
	p.c.Nums["calls"]++
	if out.Panic != "" {
		if src == nil {
			p.sys.fail("crash", "S.Rand on node %d (%s) with a working source: %s", p.id, p.m.Name(), short(out.Panic, 200))
		}
		return false
	}
	return true
}

func (p *eparty) pt() interface{} {
	x := p.m.New('P')
	return x
}

// frames
func pack(fields ...[]byte) []byte {
	var b []byte
	for _, f := range fields {
		b = append(b, byte(len(f)))
		b = append(b, f...)
	}
	return b
}

func unpack(b []byte, n int) [][]byte {
	var r [][]byte
	for len(b) > 0 {
		k := int(b[0])
		if 1+k > len(b) {
			return nil
		}
		r = append(r, b[1:1+k])
		b = b[1+k:]
	}
	if len(r) != n {
		return nil
	}
	return r
}

func sealed(b []byte) []byte {
	h := sha256.Sum256(b)
	return append(append([]byte{}, b...), h[:12]...)
}

func unseal(b []byte) ([]byte, bool) {
	if len(b) < 12 {
		return nil, false
	}
	m := b[:len(b)-12]
	h := sha256.Sum256(m)
	return m, bytes.Equal(h[:12], b[len(b)-12:])
}

func (p *eparty) wP(v interface{}) []byte { return p.sys.fPoint.write(&p.node, v) }
func (p *eparty) wS(v interface{}) []byte { return p.sys.fScal.write(&p.node, v) }

func (p *eparty) rd(f *form, b []byte, v interface{}) bool {
	if f.fixed() && len(b) != 32 {
		return false
	}
	o := f.read(&p.node, b, v)
	if o.Panic != "" || o.Hang {
		p.sys.fail("crash", "%s of %q on node %d (%s): %s", f.load, b, p.id, p.m.Name(), short(o.Panic, 200))
		return false
	}
	return !o.Err
}
func (p *eparty) rP(b []byte) interface{} {
	v := p.m.New('P')
	if !p.rd(p.sys.fPoint, b, v) {
		return nil
	}
	return v
}
func (p *eparty) rS(b []byte) interface{} {
	v := p.m.New('S')
	if !p.rd(p.sys.fScal, b, v) {
		return nil
	}
	return v
}

func (p *eparty) index(i int) interface{} {
	v := p.m.New('S')
	if id := p.sys.ids[i]; id.IsUint64() {
		p.call("S.SetUint64", v, id.Uint64())
	} else {
		b := model.LE32(id)
		p.call("S.SetBytes", v, &b)
	}
	return v
}

// shareKey is the public key of party i, from the commitments.
func (p *eparty) shareKey(i int) interface{} {
	x := p.index(i)
	acc := p.pt()
	p.call("P.SetZero", acc)
	for j := len(p.comms) - 1; j >= 0; j-- {
		p.call("P.PublicScalarMult", acc, acc, x)
		p.call("P.Add", acc, acc, p.comms[j])
	}
	return acc
}

// challenge of the Chaum-Pedersen proof.
func (p *eparty) challenge(pts ...interface{}) interface{} {
	var b []byte
	for _, x := range pts {
		e := p.enc(x)
		b = append(b, e[:]...)
	}
	v := p.m.New('S')
	p.call("S.Derive", v, b)
	return v
}

// answer makes a partial decryption with its proof; nil if randomness failed.
func (p *eparty) answer(c1 interface{}, secret interface{}, r *Rng) [][]byte {
	d, y, r1, r2 := p.pt(), p.pt(), p.pt(), p.pt()
	k, z := p.m.New('S'), p.m.New('S')
	p.call("P.ScalarMult", d, c1, secret)
	p.call("P.ScalarMultBase", y, secret)
	if !p.draw(k) {
		return nil
	}
	p.call("P.ScalarMultBase", r1, k)
	p.call("P.ScalarMult", r2, c1, k)
	c := p.challenge(y, c1, d, r1, r2)
	p.call("S.MulAdd", z, c, secret, k)
	return [][]byte{p.wP(d), p.wS(c), p.wS(z)}
}

// verify checks a partial decryption of party i.
func (p *eparty) verify(i int, c1, d, c, z interface{}, r *Rng) bool {
	y := p.shareKey(i)
	r1, r2, u := p.pt(), p.pt(), p.pt()
	if r.P(1, 2) {
		p.call("P.PublicScalarMultBase", r1, z)
	} else {
		p.call("P.ScalarMultBase", r1, z)
	}
	p.call("P.PublicScalarMult", u, y, c)
	p.call("P.Sub", r1, r1, u)
	if r.P(1, 2) {
		p.call("P.PublicScalarMult", r2, c1, z)
	} else {
		p.call("P.ScalarMult", r2, c1, z)
	}
	nc := p.m.New('S')
	p.call("S.Neg", nc, c)
	p.call("P.PublicScalarMult", u, d, nc)
	p.call("P.Add", r2, r2, u)
	want := p.challenge(y, c1, d, r1, r2)
	o := p.call("S.Equals", want, c)
	return o.Ret == core.RetBool(true)
}

// mulKey multiplies the public key.
func (p *eparty) mulKey(dst, k interface{}, r *Rng) {
	if r.P(1, 4) {
		if p.tab == nil {
			p.tab = p.m.New('T')
			p.call("T.Compute", p.tab, p.comms[0])
		}
		p.call("P.ScalarMultTable", dst, p.tab, k)
		return
	}
	p.call("P.ScalarMult", dst, p.comms[0], k)
}

func (p *eparty) restore() {
	s := p.sys
	p.share, p.comms, p.tab = nil, nil, nil
	if b := p.disk["comms"]; b != nil {
		for _, x := range unpack(b, s.t) {
			v := p.m.New('P')
			if !p.rd(s.fShare, x, v) {
				if !s.net.stop {
					s.fail("restart", "node %d (%s) cannot read back the commitment %q it stored as %s", p.id, p.m.Name(), x, s.fShare)
				}
				return
			}
			p.comms = append(p.comms, v)
		}
	}
	if b := p.disk["share"]; b != nil {
		v := p.m.New('S')
		if !p.rd(s.fScal, b, v) {
			if !s.net.stop {
				s.fail("restart", "node %d (%s) cannot read back the share %q it stored as %s", p.id, p.m.Name(), b, s.fScal)
			}
			return
		}
		p.share = v
	}
}

func scenC11(c *Ctx) {
	r := c.R("cfg")
	s := &esys{c: c}
	s.n = 2 + r.N(4)
	s.t = 1 + r.N(s.n)
	if s.t > 3 {
		s.t = 3
	}
	if br := c.R("big"); br.P(1, 8) {
		s.n = 4 + br.N(4)
		s.t = 2 + br.N(4)
		if s.t > s.n {
			s.t = s.n
		}
	}
	ir := c.R("ids")
	named := ir.P(1, 2) // parties are known by any numbers, not by their position
	for i := 0; len(s.ids) < s.n; i++ {
		id := bi(int64(i + 1))
		if named {
			id = genScalar(ir)
		}
		ok := id.Sign() != 0
		for _, x := range s.ids {
			ok = ok && x.Cmp(id) != 0
		}
		if ok {
			s.ids = append(s.ids, id)
		}
	}
	s.net = newNet(c, s.n+3)
	s.pFail = []int{0, 10, 40}[r.N(3)]
	s.fPoint, s.fScal, s.fShare = pformBy(r, "P"), pformBy(r, "S"), pformBy(r, "P")
	evils := 0
	if s.n > s.t {
		evils = r.N(s.n - s.t + 1)
	}
	for i := 0; i < s.n+3; i++ {
		p := &eparty{node: node{c: c, m: machines[pickVariant(r)]}, id: i, up: true, sys: s, disk: map[string][]byte{}}
		p.evil = i < evils && c.On("evil/%d", i)
		s.ps = append(s.ps, p)
	}
	sender, relay, recv := s.ps[s.n], s.ps[s.n+1], s.ps[s.n+2]
	net := s.net
	c.Ev("C11 n=%d t=%d evil=%d point=%s scalar=%s", s.n, s.t, evils, s.fPoint, s.fScal)
	nm := 1 + r.N(3)
	for k := 0; k < nm; k++ {
		if !c.On("message/%d", k) {
			continue
		}
		m := &emsg{k: k}
		copy(m.data[:], genData16(c.R("data/%d", k)))
		if fr := c.R("forge/%d", k); fr.P(1, 5) && c.Fault("forged-plaintext", fmt.Sprint("forge/", k)) {
			p := nearLizard(fr, m.data[:])
			if fr.P(1, 4) {
				p = model.Map(model.FeBig(rbig(fr, 255)))
			}
			m.forged = &p
		}
		s.msgs = append(s.msgs, m)
	}

	// the dealer
	var coef []interface{}
	deal := func() bool {
		for len(coef) < s.t {
			x := sender.m.New('S')
			if kr := c.R("import/%d", len(coef)); kr.P(1, 6) { // an existing key
				k := genScalar(kr)
				b := model.LE32(k)
				sender.call("S.SetBytes", x, &b)
				s.coef = append(s.coef, k)
			} else {
				if !sender.draw(x) {
					return false
				}
				s.coef = append(s.coef, sender.m.Get(x).S)
			}
			coef = append(coef, x)
		}
		if sender.comms == nil {
			var f [][]byte
			for _, x := range coef {
				q := sender.pt()
				sender.call("P.ScalarMultBase", q, x)
				sender.comms = append(sender.comms, q)
				f = append(f, s.fShare.write(&sender.node, q))
			}
			sender.disk["comms"] = pack(f...)
			f = nil
			for _, x := range coef {
				f = append(f, sender.wS(x))
			}
			sender.disk["coef"] = pack(f...)
		}
		return true
	}
	truth := func(i int) *big.Int {
		x, acc := s.ids[i], new(big.Int)
		for j := len(s.coef) - 1; j >= 0; j-- {
			acc.Mul(acc, x)
			acc.Add(acc, s.coef[j])
			acc.Mod(acc, model.L)
		}
		return acc
	}
	acked := make([]bool, s.n+3)
	var handout func()
	handout = func() {
		if net.stop {
			return
		}
		if sender.up && deal() {
			for i, p := range s.ps {
				if acked[i] || i == s.n {
					continue
				}
				i, p := i, p
				var sh []byte
				if i < s.n {
					x, acc := sender.index(i), sender.m.New('S')
					sender.call("S.SetZero", acc)
					for j := len(coef) - 1; j >= 0; j-- {
						sender.call("S.MulAdd", acc, acc, x, coef[j])
					}
					if dr := c.R("deal/%d/%d", i, net.now); dr.P(1, 12) && net.now < net.calm && c.Fault("byzantine-dealing", fmt.Sprintf("deal/%d/%d", i, net.now)) {
						// not the share that belongs to the commitments
						switch dr.N(6) {
						case 0:
							sender.call("S.SetZero", acc)
						case 1:
							sender.call("S.SetOne", acc)
						case 2:
							sender.call("S.Neg", acc, acc)
						case 3:
							sender.call("S.Add", acc, acc, x)
						case 4: // a coefficient
							sender.call("S.Set", acc, coef[dr.N(len(coef))])
						case 5:
							acc = fresh(sender.m, core.Val{K: 'S', S: genScalar(dr)})
						}
					}
					sh = sender.wS(acc)
				}
				// commitments are broadcast with a checksum, the share is not
				cm := sealed(sender.disk["comms"])
				net.Send(s.n, i, fmt.Sprintf("deal/%d", i), sh, func(b []byte) {
					if !p.up || acked[i] || net.stop {
						return
					}
					ack := func() {
						net.Send(i, s.n, fmt.Sprintf("dealack/%d", i), nil, func([]byte) { acked[i] = true })
					}
					if p.disk["comms"] != nil { // again
						ack()
						return
					}
					comms, ok := unseal(cm)
					if !ok {
						return
					}
					p.disk["comms"] = comms
					p.disk["share"] = nil
					p.restore()
					if i < s.n && !net.stop {
						v := p.rS(b)
						if v == nil {
							p.disk["comms"] = nil
							p.restore()
							return
						}
						lhs := p.pt()
						p.call("P.ScalarMultBase", lhs, v)
						good := p.call("P.Equals", lhs, p.shareKey(i)).Ret == core.RetBool(true)
						right := p.m.Get(v).S.Cmp(truth(i)) == 0
						if net.stop {
							return
						}
						if good != right {
							s.fail("dealing", "party %d (%s): share %s checked against the commitments: %v, but it is the dealt one: %v", i, p.m.Name(), p.m.Get(v).Show(), good, right)
							return
						}
						if !good {
							c.Probe("damaged share of the key refused")
							p.disk["comms"] = nil
							p.restore()
							return
						}
						p.share = v
						p.disk["share"] = p.wS(v)
					}
					c.Ev("t=%d node %d has its share", net.now, i)
					ack()
				})
			}
		}
		for i := range acked {
			if i != s.n && !acked[i] {
				net.After(500, handout)
				return
			}
		}
	}
	net.After(1, handout)

	// receiver state for a message, durable
	type rstate struct {
		ct     [2][]byte
		shares map[int][]byte // encoded D of accepted shares
	}
	rst := map[int]*rstate{}

	// sender, for each message
	for _, m := range s.msgs {
		m := m
		var try func()
		round := 0
		try = func() {
			if net.stop || m.acked {
				return
			}
			net.After(600, try)
			round++
			if !sender.up || len(coef) < s.t || sender.comms == nil {
				return
			}
			mr := c.R("enc/%d/%d", m.k, round)
			pm, c1, c2, t := sender.pt(), sender.pt(), sender.pt(), sender.pt()
			k := sender.m.New('S')
			q := m.data
			if m.forged != nil {
				sender.m.Put(pm, core.Val{K: 'P', P: *m.forged})
			} else {
				sender.call("P.SetLizard", pm, &q)
			}
			if !sender.draw(k) {
				return
			}
			sender.call("P.ScalarMultBase", c1, k)
			sender.mulKey(t, k, mr)
			sender.call("P.Add", c2, pm, t)
			msg := sealed(pack(sender.wP(c1), sender.wP(c2)))
			if net.stop {
				return
			}
			net.Send(s.n, s.n+1, fmt.Sprintf("ct/%d", m.k), msg, func(b []byte) {
				if !relay.up || relay.comms == nil || net.stop {
					return
				}
				b, ok := unseal(b)
				if !ok {
					c.Probe("damaged ciphertext refused")
					return
				}
				f := unpack(b, 2)
				x1, x2 := relay.rP(f[0]), relay.rP(f[1])
				if net.stop {
					return
				}
				if x1 == nil || x2 == nil {
					s.fail("transport", "relay (%s) rejects the undamaged ciphertext %q %q", relay.m.Name(), f[0], f[1])
					return
				}
				rr := c.R("relay/%d/%d", m.k, net.now)
				for h := 0; h < 1+rr.N(2); h++ {
					k, t := relay.m.New('S'), relay.pt()
					if !relay.draw(k) {
						return
					}
					relay.call("P.ScalarMultBase", t, k)
					relay.call("P.Add", x1, x1, t)
					relay.mulKey(t, k, rr)
					relay.call("P.Add", x2, t, x2)
				}
				msg := sealed(pack(relay.wP(x1), relay.wP(x2)))
				if net.stop {
					return
				}
				net.Send(s.n+1, s.n+2, fmt.Sprintf("ct2/%d", m.k), msg, func(b []byte) {
					if !recv.up || recv.comms == nil || net.stop {
						return
					}
					b, ok := unseal(b)
					if !ok {
						c.Probe("damaged ciphertext refused")
						return
					}
					if rst[m.k] == nil {
						f := unpack(b, 2)
						rst[m.k] = &rstate{ct: [2][]byte{f[0], f[1]}, shares: map[int][]byte{}}
						c.Ev("t=%d receiver has ciphertext %d", net.now, m.k)
					}
				})
			})
		}
		net.After(1+int64(c.R("start/%d", m.k).N(3000)), try)

		// receiver
		var ask func()
		rounds := 0
		ask = func() {
			if net.stop || m.acked {
				return
			}
			net.After(500, ask)
			rounds++
			st := rst[m.k]
			if st == nil || !recv.up {
				return
			}
			if m.delivered {
				net.Send(s.n+2, s.n, fmt.Sprintf("ack/%d", m.k), nil, func([]byte) { m.acked = true })
				return
			}
			for i := 0; i < s.n; i++ {
				if st.shares[i] != nil {
					continue
				}
				i := i
				p := s.ps[i]
				net.Send(s.n+2, i, fmt.Sprintf("req/%d/%d", m.k, i), sealed(st.ct[0]), func(b []byte) {
					if !p.up || p.share == nil || net.stop {
						return
					}
					b, ok := unseal(b)
					if !ok {
						return
					}
					c1 := p.rP(b)
					if net.stop {
						return
					}
					if c1 == nil {
						s.fail("transport", "party %d (%s) rejects the undamaged point %q", i, p.m.Name(), b)
						return
					}
					ar := c.R("answer/%d/%d/%d", m.k, i, net.now)
					secret := p.share
					kind := -1
					if p.evil {
						kind = ar.N(8)
						if kind == 0 { // proves with another secret
							secret = fresh(p.m, core.Val{K: 'S', S: model.ModL(new(big.Int).Add(p.m.Get(p.share).S, bi(int64(1+ar.N(3)))))})
						}
					}
					a := p.answer(c1, secret, ar)
					if a == nil || net.stop {
						return
					}
					honest := a
					switch kind {
					case 1: // another result under an honest proof
						d := p.pt()
						p.call("P.Add", d, p.rP(a[0]), c1)
						a = [][]byte{p.wP(d), a[1], a[2]}
					case 2: // challenge and response swapped
						a = [][]byte{a[0], a[2], a[1]}
					case 3: // response shifted
						z := p.rS(a[2])
						p.call("S.Add", z, z, p.index(0))
						a = [][]byte{a[0], a[1], p.wS(z)}
					case 4: // an answer to another question
						if p.last != nil {
							a = p.last
						}
					case 6: // nothing at all
						d, z := p.pt(), p.m.New('S')
						p.call("P.SetZero", d)
						p.call("S.SetZero", z)
						a = [][]byte{p.wP(d), p.wS(z), p.wS(z)}
					case 7: // no result under an honest proof
						d := p.pt()
						p.call("P.SetZero", d)
						a = [][]byte{p.wP(d), a[1], a[2]}
					case 5: // negated result
						d := p.rP(a[0])
						p.call("P.Neg", d, d)
						a = [][]byte{p.wP(d), a[1], a[2]}
					}
					if net.stop {
						return
					}
					p.last = honest
					if kind >= 0 {
						c.Faults["byzantine-answer"]++
					}
					msg := pack(a...)
					clean := append([]byte{}, msg...)
					net.Send(i, s.n+2, fmt.Sprintf("ans/%d/%d", m.k, i), msg, func(b []byte) {
						if !recv.up || recv.comms == nil || rst[m.k] != st || st.shares[i] != nil || net.stop || m.delivered {
							return
						}
						f := unpack(b, 3)
						pristine := bytes.Equal(b, clean) && kind < 0
						if f == nil {
							return
						}
						d, cc, z, x1 := recv.rP(f[0]), recv.rS(f[1]), recv.rS(f[2]), recv.rP(st.ct[0])
						if net.stop {
							return
						}
						ok := d != nil && cc != nil && z != nil && x1 != nil
						if ok {
							ok = recv.verify(i, x1, d, cc, z, c.R("verify/%d/%d/%d", m.k, i, net.now))
						}
						if net.stop {
							return
						}
						if !ok {
							if pristine {
								s.fail("completeness", "receiver (%s) refuses the honest partial decryption %q of party %d", recv.m.Name(), f, i)
							}
							c.Probe("bad partial decryption refused")
							return
						}
						want := model.MulPt(recv.m.Get(x1).P, truth(i))
						if !core.Same(recv.m.Get(d), core.Val{K: 'P', P: want}) {
							s.fail("soundness", "receiver (%s) accepts %s as partial decryption of party %d, which is %s", recv.m.Name(), recv.m.Get(d).Show(), i, core.Val{K: 'P', P: want}.Show())
							return
						}
						c.Probe("partial decryption accepted")
						st.shares[i] = f[0]
						if len(st.shares) >= s.t {
							combine(s, recv, m, st.ct, st.shares, c.R("combine/%d", m.k))
						}
					})
				})
			}
		}
		net.After(1+int64(c.R("askstart/%d", m.k).N(600)), ask)
	}
	// crashes
	for _, p := range s.ps {
		p := p
		cr := c.R("life/%d", p.id)
		for q := 0; q < cr.N(3); q++ {
			at := 1 + int64(cr.N(int(net.calm)))
			down := cr.LogU(3000)
			key := fmt.Sprintf("crash/%d/%d", p.id, q)
			net.After(at, func() {
				if net.stop || !p.up || net.now+down >= net.calm || !c.Fault("crash-restart", key) {
					return
				}
				p.up = false
				p.share, p.comms, p.tab, p.last = nil, nil, nil, nil
				if p == sender {
					coef = nil
				}
				net.After(down, func() {
					p.up = true
					c.Ev("t=%d node %d restarts", net.now, p.id)
					p.restore()
					if p == sender && p.disk["coef"] != nil {
						for _, b := range unpack(p.disk["coef"], s.t) {
							coef = append(coef, p.rS(b))
						}
					} else if p == sender {
						s.coef = nil
					}
				})
			})
		}
	}
	limit := net.calm + 24000
	net.Run(limit)
	if net.stop {
		return
	}
	for _, m := range s.msgs {
		if !m.delivered {
			c.Fail("liveness", "message %d is not delivered %d ticks after the last fault", m.k, limit-net.calm)
			return
		}
		c.Probe("message delivered")
	}
}

// combine recovers the message from enough partial decryptions.
func combine(s *esys, p *eparty, m *emsg, ct [2][]byte, shares map[int][]byte, r *Rng) {
	var set []int
	for i := 0; i < s.n; i++ {
		if shares[i] != nil {
			set = append(set, i)
		}
	}
	x2 := p.rP(ct[1])
	acc := p.pt()
	p.call("P.SetZero", acc)
	for _, q := range r.Perm(len(set)) {
		i := set[q]
		// Lagrange coefficient at zero
		num, den, xi := p.m.New('S'), p.m.New('S'), p.index(i)
		p.call("S.SetOne", num)
		p.call("S.SetOne", den)
		for _, j := range set {
			if j == i {
				continue
			}
			xj, t := p.index(j), p.m.New('S')
			p.call("S.Mul", num, num, xj)
			p.call("S.Sub", t, xj, xi)
			p.call("S.Mul", den, den, t)
		}
		p.call("S.Inverse", den, den)
		p.call("S.Mul", num, num, den)
		d := p.rP(shares[i])
		if d == nil || x2 == nil || s.net.stop {
			if !s.net.stop {
				s.fail("restart", "receiver (%s) cannot read back what it accepted: %q", p.m.Name(), shares[i])
			}
			return
		}
		if r.P(1, 2) {
			p.call("P.PublicScalarMult", d, d, num)
		} else {
			p.call("P.ScalarMult", d, d, num)
		}
		p.call("P.Add", acc, d, acc)
	}
	p.call("P.Sub", acc, x2, acc)
	var got [16]byte
	got[3] = 0x5a
	o := p.call("P.LizardInto", acc, &got)
	if s.net.stop {
		return
	}
	if m.forged != nil {
		if !o.Err {
			s.fail("forgery", "receiver (%s) reads %x from message %d, in which the sender put no data but %s", p.m.Name(), got, m.k, core.Val{K: 'P', P: *m.forged}.Show())
			return
		}
		s.c.Probe("message without data refused")
		m.delivered = true
		return
	}
	if o.Err {
		s.fail("integrity", "receiver (%s) cannot read message %d (%x): %s", p.m.Name(), m.k, m.data, p.m.Get(acc).Show())
		return
	}
	if got != m.data {
		s.fail("integrity", "message %d was %x and arrives as %x at the receiver (%s)", m.k, m.data, got, p.m.Name())
		return
	}
	s.c.State("%d/%d/%s/%s/%s/%v", s.n, s.t, s.fPoint, s.fScal, s.fShare, set)
	m.delivered = true
	s.c.Ev("t=%d message %d delivered from %v", s.net.now, m.k, set)
}
