package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"verif.local/main/core"
	"verif.local/main/model"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

var variants = []string{"r51", "gen", "asm"}

func pickVariant(r *Rng) string {
	return []string{"r51", "r51", "r51", "r51", "r51", "gen", "gen", "gen", "gen", "asm"}[r.N(10)]
}

// arena is memory that can be made read-only.
type arena struct {
	mem   []byte
	used  uintptr
	names []struct {
		lo, hi uintptr
		name   string
	}
}

func newArena(n int) *arena {
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fatal("mmap: %v", err)
	}
	return &arena{mem: m}
}

func (a *arena) alloc(n uintptr, name string) unsafe.Pointer {
	o := (a.used + 63) &^ 63
	if o+n+64 > uintptr(len(a.mem)) {
		fatal("arena full")
	}
	a.used = o + n
	p := unsafe.Pointer(&a.mem[o])
	a.names = append(a.names, struct {
		lo, hi uintptr
		name   string
	}{uintptr(p), uintptr(p) + n, name})
	return p
}

func (a *arena) protect(ro bool) {
	p := syscall.PROT_READ
	if !ro {
		p |= syscall.PROT_WRITE
	}
	if err := syscall.Mprotect(a.mem, p); err != nil {
		fatal("mprotect: %v", err)
	}
}

func (a *arena) who(addr uintptr) string {
	b := uintptr(unsafe.Pointer(&a.mem[0]))
	if addr < b || addr >= b+uintptr(len(a.mem)) {
		return ""
	}
	for _, n := range a.names {
		if addr >= n.lo && addr < n.hi {
			return fmt.Sprintf("%s (byte %d)", n.name, addr-n.lo)
		}
	}
	return "memory beside the operands"
}

// place puts a value into the arena and returns the library's view of it.
func (a *arena) place(m core.Machine, v core.Val, name string, spare int) interface{} {
	switch v.K {
	case 'y':
		n := len(v.B) + spare
		if n == 0 {
			n = 1
		}
		p := (*byte)(a.alloc(uintptr(n), name))
		s := unsafe.Slice(p, n)
		for i := range s {
			s[i] = 0xa5
		}
		copy(s, v.B)
		return s[:len(v.B):n]
	case 'I':
		w := new(big.Int).Set(v.I).Bits()
		n := len(w) + spare%4 + 1
		p := (*big.Word)(a.alloc(uintptr(n)*unsafe.Sizeof(big.Word(0)), name+" words"))
		s := unsafe.Slice(p, n)
		copy(s, w)
		x := (*big.Int)(a.alloc(unsafe.Sizeof(big.Int{}), name))
		x.SetBits(s[:len(w):n])
		if v.I.Sign() < 0 {
			x.Neg(x)
		}
		return x
	case 'b':
		return int32(v.U)
	case 'u':
		return v.U
	}
	x := m.At(v.K, a.alloc(m.Size(v.K), name))
	m.Put(x, v)
	return x
}

// fresh makes a variable of the given value on the heap.
func fresh(m core.Machine, v core.Val) interface{} {
	switch v.K {
	case 'y':
		return append([]byte{}, v.B...)
	case 'I':
		return new(big.Int).Set(v.I)
	case 'b':
		return int32(v.U)
	case 'u':
		return v.U
	}
	x := m.New(v.K)
	m.Put(x, v)
	return x
}

// obs prints what a call did, with values by meaning.
func obs(name string, out *core.Outcome, outs map[int]core.Val) string {
	var b strings.Builder
	fmt.Fprintf(&b, "ret=%s err=%v panic=%v hang=%v", out.Ret, out.Err, out.Panic != "", out.Hang)
	var ks []int
	for k := range outs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " arg%d=%s", k, meaning(outs[k]))
	}
	var fs []string
	for _, f := range out.Fes {
		fs = append(fs, f.Big().Text(16))
	}
	sort.Strings(fs)
	fmt.Fprintf(&b, " %v", fs)
	return b.String()
}

func meaning(v core.Val) string {
	switch v.K {
	case 'P':
		if !v.P.Valid() {
			return "invalid point"
		}
		e := v.P.Encode()
		return core.Hex(e[:])
	case 'N':
		if !usable(v) {
			return "invalid Niels point"
		}
		return "N" + meaning(core.Val{K: 'P', P: core.PtOfNiels(v.N)})
	case 'T':
		if v.Tab == nil {
			return "T" + meaning(core.Val{K: 'P', P: v.P})
		}
		if m := core.TableErr(v.Tab, v.P); m != "" {
			return m
		}
		return "T" + meaning(core.Val{K: 'P', P: v.P})
	}
	return v.Show()
}

// outVals reads the output arguments after a call.
func outVals(m core.Machine, name string, args []interface{}) map[int]core.Val {
	o := map[int]core.Val{}
	for i, g := range core.ByName[name].Args {
		if g.Mode != 'i' {
			o[i] = m.Get(args[i])
		}
	}
	return o
}

// Probe is one call on fresh, separate variables in a fresh process.
type Probe struct {
	Variant string
	Op      string
	Args    []ProbeArg
	Seen    string   // what the call did in the history
	Book    [][]byte // Lizard data the simulator knows
}

type ProbeArg struct {
	K   byte
	Raw []byte // memory of the operand; for y and I its value
	Neg bool
	U   uint64
	Out bool
}

func makeProbe(m core.Machine, op string, args []interface{}, raw [][]byte) *Probe {
	p := &Probe{Variant: m.Name(), Op: op}
	for i, g := range core.ByName[op].Args {
		a := ProbeArg{K: g.Kind, Out: g.Mode == 'o'}
		switch x := args[i].(type) {
		case int32:
			a.U = uint64(x)
		case uint64:
			a.U = x
		default:
			a.Raw = raw[i]
		}
		if b, ok := args[i].(*big.Int); ok {
			a.Neg = b.Sign() < 0
		}
		p.Args = append(p.Args, a)
	}
	return p
}

// rawOf copies the memory of arguments (values of y and I).
func rawOf(m core.Machine, args []interface{}) [][]byte {
	r := make([][]byte, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case int32, uint64:
		case []byte:
			r[i] = append([]byte{}, x...)
		case *big.Int:
			r[i] = new(big.Int).Abs(x).Bytes()
		default:
			r[i] = append([]byte{}, m.Mem(a)...)
		}
	}
	return r
}

func runProbe(p *Probe) (bad string, seen string) {
	m := machines[p.Variant]
	var args []interface{}
	var vals []core.Val
	for _, a := range p.Args {
		var v interface{}
		switch a.K {
		case 'b':
			v = int32(a.U)
		case 'u':
			v = a.U
		case 'y':
			v = append([]byte{}, a.Raw...)
		case 'I':
			x := new(big.Int).SetBytes(a.Raw)
			if a.Neg {
				x.Neg(x)
			}
			v = x
		default:
			v = m.New(a.K)
			if !a.Out {
				copy(m.Mem(v), a.Raw)
			} else if a.K == 'q' {
				copy(m.Mem(v), a.Raw) // kept by a failing call
			} else if a.K == 'S' {
				copy(m.Mem(v), a.Raw)
			}
		}
		args = append(args, v)
		vals = append(vals, m.Get(v))
	}
	var out core.Outcome
	c := newCtx("", 0, nil)
	direct(c, &out, opLimit, func() { m.Exec(p.Op, args, &out) })
	outs := outVals(m, p.Op, args)
	seen = obs(p.Op, &out, outs)
	bad = core.Judge(p.Op, vals, core.Sem(p.Op, vals, book), &out, outs)
	_ = model.One
	return
}
