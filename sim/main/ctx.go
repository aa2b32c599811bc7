package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"sort"
	"strings"
)

// Rng is a splitmix64 stream.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// LogU is log-uniform in [1, n].
func (r *Rng) LogU(n int64) int64 {
	if n <= 1 {
		return 1
	}
	bits := 0
	for x := n; x > 0; x >>= 1 {
		bits++
	}
	k := uint(r.N(bits))
	v := int64(1)<<k + int64(r.U64()%(uint64(1)<<k))
	if v > n {
		v = n
	}
	return v
}
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hashKey(seed uint64, key string) uint64 {
	h := seed ^ 0x243f6a8885a308d3
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 0x100000001b3
	}
	return mix(h + 0x9e3779b97f4a7c15)
}

// Violation is what a run found.
type Violation struct {
	Class  string // stays the same while a failure is minimised
	Detail string
	Known  string `json:",omitempty"` // identification for the known-findings file
	// Confirm names a further execution in a fresh process that must come out
	// in a given way before the violation counts (see driver.go).
	Confirm *Confirm `json:",omitempty"`
}

type Confirm struct {
	Solo  int    `json:",omitempty"` // run only this task (1-based)...
	Probe *Probe `json:",omitempty"` // ... or only this call
}

// Ctx is one simulated run: every decision is a function of the seed and a
// key that names the decision, so leaving an element out changes no other.
type Ctx struct {
	Prop  string
	Seed  uint64
	Tier  string
	Solo  int
	World int // of a pair of worlds
	Marks []Mark
	drop  map[string]bool
	elems []string
	seen  map[string]bool

	Faults map[string]int
	Probes map[string]int // reached conditions
	Nums   map[string]int64
	Trace  []string
	h      hash.Hash
	order  hash.Hash // who ran when
	Viols  []*Violation
	states map[uint64]bool
	quiet  bool

	calls, choices, crefs int // made outside schedules
}

func newCtx(prop string, seed uint64, drop []string) *Ctx {
	c := &Ctx{Prop: prop, Seed: seed, drop: map[string]bool{}, seen: map[string]bool{},
		Faults: map[string]int{}, Probes: map[string]int{}, Nums: map[string]int64{},
		h: sha256.New(), order: sha256.New(), states: map[uint64]bool{}}
	for _, d := range drop {
		c.drop[d] = true
	}
	return c
}

// R is the random stream of one decision.
func (c *Ctx) R(key string, a ...interface{}) *Rng {
	if len(a) > 0 {
		key = fmt.Sprintf(key, a...)
	}
	return &Rng{hashKey(c.Seed, key)}
}

// On registers a removable element of the run; it is false when the element
// was removed by minimisation.
func (c *Ctx) On(key string, a ...interface{}) bool {
	if len(a) > 0 {
		key = fmt.Sprintf(key, a...)
	}
	if c.drop[key] {
		return false
	}
	if !c.seen[key] {
		c.seen[key] = true
		c.elems = append(c.elems, key)
	}
	return true
}

// Fault decides about one fault: it must be called only where the fault can
// take effect, and counts it as fired.
func (c *Ctx) Fault(kind, key string) bool {
	if !c.On("fault/" + key) {
		return false
	}
	c.Faults[kind]++
	c.Ev("fault %s at %s", kind, key)
	return true
}

// Ev logs an event.
func (c *Ctx) Ev(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	c.h.Write([]byte(s))
	c.h.Write([]byte{'\n'})
	if len(c.Trace) < 4000 {
		c.Trace = append(c.Trace, s)
	}
}

func (c *Ctx) Digest() string { return hex.EncodeToString(c.h.Sum(nil)[:16]) }

// Order records one step of the interleaving: which task or event came next.
func (c *Ctx) Order(a ...int64) {
	for _, x := range a {
		binary.Write(c.order, binary.LittleEndian, x)
	}
}

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:])
}

// State records a reached state for the coverage measure.
func (c *Ctx) State(f string, a ...interface{}) {
	h := sha256.Sum256([]byte(fmt.Sprintf(f, a...)))
	if len(c.states) < 4096 {
		c.states[binary.LittleEndian.Uint64(h[:])] = true
	}
}

func (c *Ctx) Probe(name string) { c.Probes[name]++ }

// Fail reports a violation.
func (c *Ctx) Fail(class, f string, a ...interface{}) *Violation {
	v := &Violation{Class: class, Detail: fmt.Sprintf(f, a...)}
	if len(c.Viols) < 8 {
		c.Viols = append(c.Viols, v)
		c.Ev("VIOLATION %s: %s", class, v.Detail)
	}
	return v
}

func keys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return strings.TrimSpace(s)
}
