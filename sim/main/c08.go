package main

import (
	"bytes"
	"encoding/base64"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"verif.local/main/core"
	"verif.local/main/model"
	simrand "verif.local/simhook/rand"
)

// Encodings on a faulty medium: nodes with disks that keep encoded values and
// send them to each other.

// A form is one way to write and read a value.
type form struct {
	name, kind string // kind P or S
	save, load string // operations
	text       bool
}

var forms = []form{
	{"bytes", "P", "P.Bytes", "P.SetBytes", false},
	{"binary", "P", "P.MarshalBinary", "P.UnmarshalBinary", false},
	{"text", "P", "P.MarshalText", "P.UnmarshalText", true},
	{"string", "P", "P.String", "P.UnmarshalText", true},
	{"hex", "P", "hex", "P.UnmarshalText", true},
	{"json", "P", "P.JSON", "P.FromJSON", true},
	{"gob", "P", "P.Gob", "P.FromGob", false},
	{"json-value", "P", "P.JSONValue", "P.FromJSON", true},
	{"gob-value", "P", "P.GobValue", "P.FromGob", false},
	{"ristretto", "P", "E.Ristretto", "E.SetRistretto", false},
	{"bytes", "S", "S.Bytes", "S.SetBytes", false},
	{"strict", "S", "S.Bytes", "S.SetBytesStrict", false},
	{"binary", "S", "S.MarshalBinary", "S.UnmarshalBinary", false},
	{"text", "S", "S.MarshalText", "S.UnmarshalText", true},
	{"string", "S", "S.String", "S.UnmarshalText", true},
	{"json", "S", "S.JSON", "S.FromJSON", true},
	{"gob", "S", "S.Gob", "S.FromGob", false},
	{"json-value", "S", "S.JSONValue", "S.FromJSON", true},
	{"json-key", "S", "S.JSONKey", "S.FromJSON", true},
	{"gob-value", "S", "S.GobValue", "S.FromGob", false},
}

func (f *form) String() string { return f.kind + " " + f.name }

// verdict is what the specification says about decoding: the value, whether it
// is accepted, and whether either answer will do (tolerated spellings).
type verdict struct {
	val    core.Val
	ok     bool
	either bool
}

func decodeBin(kind string, b []byte, strict bool) verdict {
	if len(b) != 32 {
		return verdict{}
	}
	var a [32]byte
	copy(a[:], b)
	if kind == "P" {
		p, ok := model.Decode(a)
		return verdict{val: core.Val{K: 'P', P: p}, ok: ok}
	}
	x := model.IntLE(b)
	if strict {
		return verdict{val: core.Val{K: 'S', S: x}, ok: x.Cmp(model.L) < 0}
	}
	x.And(x, new(big.Int).Sub(pow2(253), bi(1)))
	return verdict{val: core.Val{K: 'S', S: model.ModL(x)}, ok: true}
}

func decodeText(kind string, t []byte) verdict {
	c, exact := core.TextBytes(t, kind == "P")
	if len(c) == 0 && kind == "S" && len(t) == 64 {
		// the scalar decoder does not take hex; were it to, fine
		if c, _ = core.TextBytes(t, true); len(c) == 1 {
			v := decodeBin(kind, c[0][:], false)
			v.either = true
			return v
		}
	}
	if len(c) == 0 {
		return verdict{}
	}
	v := decodeBin(kind, c[0][:], false)
	v.either = v.ok && !exact
	return v
}

var errRejected = errors.New("rejected")

// spies take the place of the library's types to learn what the json and gob
// packages hand to the library.
type spyText struct {
	kind  string
	calls []verdict
}

func (s *spyText) UnmarshalText(b []byte) error {
	v := decodeText(s.kind, b)
	s.calls = append(s.calls, v)
	if !v.ok {
		return errRejected
	}
	return nil
}
func (s *spyText) MarshalText() ([]byte, error) { return nil, nil }

type spyBin struct {
	kind  string
	calls []verdict
}

func (s *spyBin) UnmarshalBinary(b []byte) error {
	v := decodeBin(s.kind, b, false)
	s.calls = append(s.calls, v)
	if !v.ok {
		return errRejected
	}
	return nil
}
func (s *spyBin) MarshalBinary() ([]byte, error) { return nil, nil }

// expect says what reading b in form f must do. keep: the receiver is not
// assigned although no error is reported (JSON null).
func (f *form) expect(b []byte) (v verdict, keep bool) {
	switch f.load {
	case "P.SetBytes", "E.SetRistretto", "S.SetBytes", "S.SetBytesStrict":
		return decodeBin(f.kind, b, f.load == "S.SetBytesStrict"), false
	case "P.UnmarshalBinary", "S.UnmarshalBinary":
		return decodeBin(f.kind, b, false), false
	case "P.UnmarshalText", "S.UnmarshalText":
		return decodeText(f.kind, b), false
	case "P.FromJSON", "S.FromJSON":
		s := spyText{kind: f.kind}
		err := json.Unmarshal(b, &s)
		if len(s.calls) == 0 {
			return verdict{ok: err == nil}, true
		}
		v = s.calls[len(s.calls)-1]
		if err != nil && v.ok {
			v.ok = false
		}
		return v, false
	case "P.FromGob", "S.FromGob":
		s := spyBin{kind: f.kind}
		err := gob.NewDecoder(bytes.NewReader(b)).Decode(&s)
		if len(s.calls) == 0 {
			return verdict{ok: err == nil}, true
		}
		v = s.calls[len(s.calls)-1]
		if err != nil && v.ok {
			v.ok = false
			v.either = false
		}
		return v, false
	}
	panic(f.load)
}

// fixed says whether the decoder takes only arrays of 32 bytes.
func (f *form) fixed() bool {
	switch f.load {
	case "P.SetBytes", "E.SetRistretto", "S.SetBytes", "S.SetBytesStrict":
		return true
	}
	return false
}

// write encodes a variable.
func (f *form) write(n *node, v interface{}) []byte {
	if f.save == "hex" {
		e := n.enc(v)
		return []byte(hex.EncodeToString(e[:]))
	}
	o := n.do(f.save, v)
	if o.Err || o.Panic != "" {
		return nil
	}
	if len(o.Handed) == 1 {
		return append([]byte{}, o.Handed[0].([]byte)...)
	}
	if len(o.Ret) > 4 && o.Ret[:4] == "str " {
		return []byte(o.Ret[4:])
	}
	return nil
}

// read decodes into v; steps are limited in proportion to the input.
func (f *form) read(n *node, b []byte, v interface{}) *core.Outcome {
	var arg interface{} = b
	if f.fixed() {
		if len(b) != 32 {
			fatal("simulator: fixed-size decoder called with %d bytes", len(b))
		}
		arg = n.H(b)
	}
	var out core.Outcome
	direct(n.c, &out, opLimit+int64(64*len(b)), func() { n.m.Exec(f.load, []interface{}{v, arg}, &out) })
	n.c.Nums["calls"]++
	return &out
}

// pristine is the encoding the specification gives, nil if it leaves it open.
func (f *form) pristine(v core.Val) []byte {
	var e [32]byte
	if f.kind == "P" {
		e = v.P.Encode()
	} else {
		e = model.LE32(v.S)
	}
	t := base64.RawURLEncoding.EncodeToString(e[:])
	switch f.name {
	case "text", "string":
		return []byte(t)
	case "json", "json-value", "json-key":
		return []byte(`"` + t + `"`)
	case "hex":
		return []byte(hex.EncodeToString(e[:]))
	case "gob", "gob-value":
		return nil
	}
	return e[:]
}

// file of a simulated disk.
type file struct {
	cur, durable []byte
	f            *form
	truth        core.Val // what was written
	whole        []byte   // undamaged contents
}

type dnode struct {
	node
	id    int
	files []*file
	regs  map[string]interface{} // long-lived receivers
}

// hostile makes contents an adversary would write for a form.
func hostile(r *Rng, f *form) []byte {
	var b []byte
	e := genPoint(r).Encode()
	x := model.IntLE(e[:])
	switch r.N(14) {
	case 0: // the negated field element
		x.Sub(model.P, x)
	case 1: // the same element, not reduced
		x.Add(x, model.P)
	case 2: // top bit
		x.SetBit(x, 255, 1)
	case 3: // exceptional field elements
		x = new(big.Int).Set([]*big.Int{bi(0), bi(1), bi(2), new(big.Int).Sub(model.P, bi(1)), model.P, new(big.Int).Add(model.P, bi(1)),
			model.I.Big(), model.Neg(model.I).Big(), model.SqrtID.Big(), model.D.Big()}[r.N(10)])
	case 4: // small distance
		x.Add(x, bi(int64(r.N(9)-4)))
	case 5: // near the order
		x = new(big.Int).Add(model.L, bi(int64(r.N(9)-4)))
	case 6: // near multiples of the order
		x = new(big.Int).Mul(model.L, bi(int64(r.N(16))))
		x.Add(x, bi(int64(r.N(5)-2)))
	case 7: // one word of the order changed
		x = new(big.Int).Set(model.L)
		d := new(big.Int).Lsh(bi(int64(1+r.N(3))), uint(32*r.N(8)))
		if r.P(1, 2) {
			x.Sub(x, d)
		} else {
			x.Add(x, d)
		}
	case 8:
		x = genScalar(r)
		if r.P(1, 2) {
			x.Add(x, pow2(253+r.N(3)))
		}
	case 9: // near 2^255 - 19
		x = new(big.Int).Add(model.P, bi(int64(r.N(41)-20)))
	case 10: // one byte of p changed
		x = new(big.Int).Set(model.P)
		d := new(big.Int).Lsh(bi(int64(1+r.N(255))), uint(8*r.N(32)))
		if r.P(1, 2) {
			x.Sub(x, d)
		} else {
			x.Xor(x, d)
		}
	case 11: // even, not negative, often not square
		x = rbig(r, 255)
		x.SetBit(x, 0, 0)
	default:
		x = model.IntLE(gen32(r))
	}
	x.Abs(x)
	x.And(x, new(big.Int).Sub(pow2(256), bi(1)))
	a := model.LE32(x)
	b = a[:]
	if f == nil {
		return b
	}
	return wrap(r, f, b)
}

// wrap writes given bytes as form f would.
func wrap(r *Rng, f *form, b []byte) []byte {
	switch f.name {
	case "text", "string", "hex":
		if f.kind == "P" && (f.name == "hex" || r.P(1, 5)) {
			t := []byte(hex.EncodeToString(b))
			if r.P(1, 4) {
				t = bytes.ToUpper(t)
			}
			return t
		}
		return []byte(base64.RawURLEncoding.EncodeToString(b))
	case "json", "json-value", "json-key":
		return []byte(`"` + base64.RawURLEncoding.EncodeToString(b) + `"`)
	case "gob", "gob-value":
		var w bytes.Buffer
		gob.NewEncoder(&w).Encode(&rawBin{b})
		return w.Bytes()
	}
	return b
}

// rawBin writes arbitrary bytes as a gob of a binary marshaler.
type rawBin struct{ b []byte }

func (s *rawBin) MarshalBinary() ([]byte, error) { return s.b, nil }
func (s *rawBin) UnmarshalBinary(b []byte) error { return nil }

var jsonJunk = []string{"null", "true", "{}", "[]", `""`, "0", "-1e9", `"\u0000"`, `[1,2,3]`, `{"a":"b"}`, `"`, ``, `nul`, `"\ud800"`, `""""`}

var trimmings = []string{"\n", "\r\n", "\r", " ", "\t", "\x00", "\x01", "\xff", "=", "==", ".", ",", ";", "\"", "'", "\\",
	"\xef\xbb\xbf", "0x", "0X", " ", "\x00\x00", "\x00\x00\x00\x00", "\x20", "\x00\x20", "\x20\x00", "\x00\x00\x00\x20",
	"\x20\x00\x00\x00", "\x02", "\x03", "\x04", "\x40", "\x04\x20", "\x04\x22\x04\x20", "\n\n", "\v", "\f", "\x1a", "\x80", "\x7f", "-", "+"}

// trimmed is a valid encoding, often with something before or after it.
func trimmed(r *Rng, f *form) []byte {
	g := *f
	inner := r.P(1, 2)
	if inner && strings.HasPrefix(g.name, "json") {
		g.name = "text"
	} else if strings.HasPrefix(g.name, "gob") {
		g.name, inner = "binary", true
	}
	b := append([]byte{}, g.pristine(genVal(r, "", 0, f.kind[0]))...)
	x := trimmings[r.N(len(trimmings))]
	if r.P(1, 3) {
		x = "\n\r \x00"[:1+r.N(4)]
		x = x[r.N(len(x)):]
	}
	switch r.N(3) {
	case 0:
		b = append([]byte(x), b...)
	default:
		b = append(b, x...)
	}
	if !inner {
		return b
	}
	if strings.HasPrefix(f.name, "json") {
		t, err := json.Marshal(string(b))
		if err == nil {
			return t
		}
	}
	return junkWrap(r, f, b)
}

// rot damages stored bytes. other is unrelated stored contents.
func rot(r *Rng, c *Ctx, key string, b, other []byte) []byte {
	b = append([]byte{}, b...)
	switch k := r.N(9); {
	case k < 3 && len(b) > 0:
		i, bit := r.N(len(b)), uint(r.N(8))
		if c.Fault("bit-flip", key) {
			b[i] ^= 1 << bit
		}
	case k == 3:
		n := r.N(len(b) + 1)
		if c.Fault("truncation", key) {
			b = b[:n]
		}
	case k == 4:
		x := r.Bytes(1 + r.N(40))
		if r.P(1, 2) {
			x = make([]byte, len(x))
		}
		front := false
		if r.P(2, 3) {
			// what files, protocols and other formats put around a value
			x = []byte(trimmings[r.N(len(trimmings))])
			front = r.P(1, 3)
			if r.P(1, 8) {
				x = append([]byte{}, b...)
			}
		}
		if c.Fault("extension", key) {
			if front {
				b = append(append([]byte{}, x...), b...)
			} else {
				b = append(b, x...)
			}
		}
	case k == 5 && len(other) > 0:
		n := r.N(len(b) + 1)
		if c.Fault("splice", key) {
			if n < len(other) {
				b = append(b[:n:n], other[n:]...)
			}
		}
	case k == 6 && len(b) > 0:
		i, v := r.N(len(b)), byte(r.U64())
		if c.Fault("byte-replaced", key) {
			b[i] = v
		}
	case k == 7:
		n := r.N(len(b) + 1)
		if c.Fault("zeroed-tail", key) {
			for i := n; i < len(b); i++ {
				b[i] = 0
			}
		}
	case k == 8 && len(b) > 1:
		i := r.N(len(b) - 1)
		if c.Fault("bytes-swapped", key) {
			b[i], b[i+1] = b[i+1], b[i]
		}
	}
	return b
}

// mediumRun drives nodes, disks and network; at each read it calls see.
// lost is told of a value that could not be written at all.
func mediumRun(c *Ctx, lost func(n *dnode, f *form, v core.Val), see func(n *dnode, f *form, b []byte, fl *file, key string) bool) []*dnode {
	r := c.R("cfg")
	simrand.Modern = false
	nn := 2 + r.N(2)
	nf := 2 + r.N(4)
	net := newNet(c, nn)
	nodes := make([]*dnode, nn)
	for i := range nodes {
		nodes[i] = &dnode{node: node{c: c, m: machines[pickVariant(r)]}, id: i, regs: map[string]interface{}{}}
		for k := 0; k < nf; k++ {
			nodes[i].files = append(nodes[i].files, &file{f: &forms[r.N(len(forms))]})
		}
	}
	// what a node has written to a file reaches the platter at some later sync
	put := func(n *dnode, k int, b []byte, f *form, truth core.Val, whole []byte, key string) {
		fl := n.files[k]
		kr := c.R("put/" + key)
		if kr.P(1, 20) && c.Fault("lost-write", key) {
			return
		}
		if kr.P(1, 20) && len(n.files) > 1 && c.Fault("misdirected-write", key) {
			k = (k + 1 + kr.N(len(n.files)-1)) % len(n.files)
			fl = n.files[k]
		}
		if kr.P(1, 20) && len(b) > 0 {
			m := kr.N(len(b))
			if c.Fault("short-write", key) {
				b = b[:m]
			}
		}
		*fl = file{cur: append([]byte{}, b...), durable: fl.durable, f: f, truth: truth, whole: whole}
	}
	steps := 20 + r.N(150)
	times := make([]int64, steps)
	for i := range times {
		times[i] = 1 + int64(r.N(int(net.calm)+2000))
	}
	acts := 0
	for i := 0; i < steps; i++ {
		if !c.On("step/%d", i) {
			continue
		}
		i := i
		key := fmt.Sprint(i)
		net.After(times[i], func() {
			if net.stop {
				return
			}
			acts++
			or := c.R("step/" + key)
			n := nodes[or.N(nn)]
			k := or.N(nf)
			fl := n.files[k]
			switch a := or.N(20); {
			case a < 6: // write a value, and send it to the others
				f := &forms[or.N(len(forms))]
				v := genVal(or, "", 0, f.kind[0])
				x := fresh(n.m, v)
				b := f.write(&n.node, x)
				c.Ev("t=%d node %d (%s) writes %s as %s: %q", net.now, n.id, n.m.Name(), v.Show(), f, b)
				n.bad = "" // not this property's concern unless the value is lost by it
				if lost != nil && len(b) == 0 {
					lost(n, f, v)
					net.stop = true
					return
				}
				put(n, k, b, f, v, b, key)
				for _, o := range nodes {
					if o == n || or.P(1, 3) {
						continue
					}
					o := o
					okey := fmt.Sprintf("%s/to%d", key, o.id)
					net.Send(n.id, o.id, okey, b, func(m []byte) { put(o, k, m, f, v, b, okey) })
				}
			case a < 8: // an adversary writes
				f := &forms[or.N(len(forms))]
				b := hostile(or, f)
				if or.P(1, 6) && strings.HasPrefix(f.name, "json") {
					b = []byte(jsonJunk[or.N(len(jsonJunk))])
				}
				if !f.fixed() && or.P(1, 5) {
					b = junkWrap(or, f, dressed(or, f))
				}
				if f.text && or.P(1, 4) {
					b = mutateText(or, b, 1+or.N(3))
				}
				if c.Fault("hostile-contents", key) {
					*fl = file{cur: b, durable: b, f: f}
				}
			case a < 11: // bit rot and the like
				if fl.cur != nil {
					fl.cur = rot(or, c, "rot/"+key, fl.cur, n.files[(k+1)%nf].cur)
				}
			case a < 12: // sync
				for _, x := range n.files {
					x.durable = append([]byte{}, x.cur...)
				}
			case a < 13: // crash: unsynced writes are torn or lost
				for q, x := range n.files {
					if bytes.Equal(x.cur, x.durable) {
						continue
					}
					fk := fmt.Sprintf("crash/%s/%d", key, q)
					kr := c.R(fk)
					m := kr.N(len(x.cur) + 1)
					if !c.Fault("crash-torn-write", fk) {
						continue
					}
					t := append([]byte{}, x.cur[:m]...)
					if m < len(x.durable) {
						t = append(t, x.durable[m:]...)
					}
					x.cur, x.durable = t, t
				}
				n.regs = map[string]interface{}{}
				c.Ev("t=%d node %d restarts", net.now, n.id)
			default:
				f := fl.f
				if or.P(1, 8) {
					f = &forms[or.N(len(forms))]
				}
				b := append([]byte{}, fl.cur...)
				if or.P(1, 10) && len(b) > 0 {
					m := or.N(len(b))
					if c.Fault("short-read", key) {
						b = b[:m]
					}
				}
				if !f.fixed() && or.P(1, 5) {
					x := trimmed(or, f)
					if c.Fault("padded-contents", key) {
						b = x
					}
				}
				if !see(n, f, b, fl, key) {
					net.stop = true
				}
			}
		})
	}
	net.Run(1 << 40)
	if net.stop {
		return nodes
	}
	for _, n := range nodes {
		for k, fl := range n.files {
			if fl.cur != nil {
				if !see(n, fl.f, fl.cur, fl, fmt.Sprintf("end/%d/%d", n.id, k)) {
					return nodes
				}
			}
		}
	}
	return nodes
}

// receiver picks what to decode into.
func (n *dnode) receiver(r *Rng, kind string) interface{} {
	switch r.N(4) {
	case 0:
		return n.m.New(kind[0])
	case 1:
		x := n.m.New(kind[0])
		n.m.Poison(x, r.U64)
		if kind == "S" {
			n.m.Put(x, core.Val{K: 'S', S: genScalar(r)})
		}
		return x
	case 2:
		return fresh(n.m, genVal(r, "", 0, kind[0]))
	}
	if n.regs[kind] == nil {
		n.regs[kind] = fresh(n.m, genVal(r, "", 0, kind[0]))
	}
	return n.regs[kind]
}

func scenC08(c *Ctx) {
	mediumRun(c, func(n *dnode, f *form, v core.Val) {
		c.Fail("unwritable", "%s: %s cannot be written as %s", n.m.Name(), v.Show(), f)
	}, func(n *dnode, f *form, b []byte, fl *file, key string) bool {
		r := c.R("read/" + key)
		if f.fixed() && len(b) != 32 {
			c.Probe("wrong length rejected before decoding")
			return true
		}
		v := n.receiver(r, f.kind)
		mem := append([]byte{}, n.m.Mem(v)...)
		out := f.read(&n.node, b, v)
		got := n.m.Get(v)
		whole := fl.whole != nil && f.save == fl.f.save && bytes.Equal(b, fl.whole) ||
			fl.whole != nil && f.kind == fl.f.kind && bytes.Equal(b, fl.whole)
		c.Ev("%d (%s) reads %q as %s (undamaged %v): err %v panic %q value %s", n.id, n.m.Name(), short(string(b), 200), f, whole, out.Err, short(out.Panic, 80), meaning(got))
		c.State("%s/%s/%d/%v", n.m.Name(), f, len(b), out.Err)
		ok := !out.Err && out.Panic == ""
		if whole && f.name == fl.f.name {
			c.Probe("undamaged encoding read back")
			if !ok {
				c.Fail("lost", "%s: %s written as %q (%s) and read back undamaged is rejected (%s)", n.m.Name(), fl.truth.Show(), b, f, short(out.Panic, 100))
				return false
			}
			if !core.Same(got, fl.truth) {
				c.Fail("changed", "%s: %s written as %q (%s) and read back undamaged becomes %s", n.m.Name(), fl.truth.Show(), b, f, got.Show())
				return false
			}
		}
		if out.Panic != "" {
			return true // not a matter of this property
		}
		e, keep := f.expect(b)
		if ok {
			c.Probe("accepted " + f.String())
		} else {
			c.Probe("rejected " + f.String())
		}
		switch {
		case keep:
			if ok != e.ok {
				c.Fail("container", "%s: %q read as %s: accepted %v, the format says %v", n.m.Name(), b, f, ok, e.ok)
				return false
			}
			if ok && !bytes.Equal(mem, n.m.Mem(v)) {
				c.Fail("container", "%s: %q read as %s carries no value but the receiver becomes %s", n.m.Name(), b, f, got.Show())
				return false
			}
		case ok && !e.ok:
			c.Fail("accepted", "%s: %q read as %s must be rejected but yields %s", n.m.Name(), b, f, got.Show())
			return false
		case !ok && e.ok && !e.either:
			c.Fail("rejected", "%s: %q read as %s must be accepted as %s", n.m.Name(), b, f, e.val.Show())
			return false
		case ok:
			if !core.Same(got, e.val) {
				c.Fail("value", "%s: %q read as %s yields %s, expected %s", n.m.Name(), b, f, got.Show(), e.val.Show())
				return false
			}
			// what was accepted encodes to exactly the bytes given
			var h [32]byte
			n.do(f.kind+".BytesInto", v, &h)
			want := model.LE32(bi(0))
			if f.kind == "P" {
				want = e.val.P.Encode()
			} else {
				want = model.LE32(e.val.S)
			}
			if h != want {
				c.Fail("reencode", "%s: %q read as %s and encoded again gives %x, expected %x", n.m.Name(), b, f, h, want)
				return false
			}
			if whole {
				w := f.write(&n.node, v)
				if p := f.pristine(e.val); p != nil && !bytes.Equal(w, p) {
					c.Fail("reencode", "%s: %s written as %s gives %q, expected %q", n.m.Name(), e.val.Show(), f, w, p)
					return false
				}
			}
		}
		n.bad = ""
		return true
	})
}
