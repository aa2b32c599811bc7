package main

const (
	realLib = "all library code that the calls reach, compiled from /repo's working tree: package ristretto and edwards25519 in three builds (64-bit limbs, portable limbs, legacy amd64 assembly), one run in eight on the 32-bit platform 386 (the first two builds)"
	stubEnv = "crypto/rand (a seeded source with the interface and failure behaviour of the real one), sync (shims the scheduler controls; sync/atomic is the real one), the Go scheduler (one goroutine runs at a time, chosen by the simulator)"
	stubNet = "crypto/rand, clock, network and disks (seeded simulation)"
	modelIs = "the reference model (an independent implementation of RFC 9496, arithmetic modulo 2^255-19 in Go and modulo the order by math/big) is right"
)

var scenarios = map[string]*scenario{
	"C01": {run: scenC01, quick: 16000, thor: 400000, unit: "steps",
		state:   "library statements at which a call was preempted",
		rule:    "a run is a fresh process in which 2 to 5 tasks execute seeded programs of library calls that share read operands, preempted at seeded statements of the library; non-trivial: at least two tasks were preempted inside library calls",
		real:    realLib,
		stub:    stubEnv,
		assume:  []string{"memory is sequentially consistent between preemption points, which are all statements and the words of multi-word stores; compiler reordering within a statement is not explored", modelIs + "; a mismatch counts only if the same task alone in a fresh process shows none"},
		nontriv: func(r *Result) bool { return r.Nums["switches"] >= 2 }},
	"C02": {run: scenC02, quick: 16000, thor: 400000, unit: "steps",
		state:   "preempted statements, and (backend, call, argument, value) combinations on protected memory",
		rule:    "a run is a fresh process in which tasks execute seeded programs of library calls whose read operands, input buffers and their spare capacity lie in write-protected memory; non-trivial: at least three calls ran on protected operands",
		real:    realLib,
		stub:    stubEnv,
		assume:  []string{"a write traps by the hardware's page protection, so any write, equal or not, at any instant is seen; operands passed by value cannot be watched and need not be"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] >= 3 }},
	"C03": {run: scenC03, quick: 12000, thor: 400000, unit: "steps",
		state:   "(kind of draw, bytes received, failed or not, number of reads)",
		rule:    "a run is a fresh process in which tasks draw random points and scalars from a source that fails, ends, or delivers short, empty or partial reads at seeded byte positions, with preemption at seeded statements and inside reads; non-trivial: at least one fault fired during a draw",
		real:    realLib,
		stub:    stubEnv,
		assume:  []string{"the source behaves as io.Reader allows; both behaviours of crypto/rand.Read (returning the error, aborting the process) are simulated"},
		nontriv: func(r *Result) bool { return len(r.Faults) > 0 }},
	"C04": {run: scenC04, quick: 9000, thor: 300000, unit: "steps",
		state:   "(kind of draw, bytes received, failed or not, number of reads)",
		rule:    "as C03, with every successful draw repeated alone from exactly the bytes it received, and again with one of these bits flipped; non-trivial: at least one draw succeeded and was repeated",
		real:    realLib,
		stub:    stubEnv,
		assume:  []string{"a bit counts as influencing the result if flipping it alone changes the result of the repeated draw"},
		nontriv: func(r *Result) bool { return r.Nums["draws"] != 0 || r.Nums["calls"] != 0 || len(r.Faults) > 0 }},
	"C05": {run: scenC05, quick: 12000, thor: 400000, unit: "steps",
		state:   "(backend, call, aliasing shape, outcome)",
		rule:    "a run is a history of library calls by several clients on a pool of variables, with aliased receivers and operands, dirty receivers, failing decodes and draws, recovered panics, calls repeated after one operand was overwritten in place, and memory handed in or out overwritten at seeded moments; non-trivial: at least five calls",
		real:    realLib,
		stub:    stubNet,
		assume:  []string{modelIs + "; a mismatch counts only if the same call on fresh, separate operands in a fresh process does something else"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] >= 5 }},
	"C06": {run: scenC06, quick: 4500, thor: 150000, unit: "ticks",
		state:   "group elements the replicas converged to",
		rule:    "a run is a set of replicas that fold weighted points received over a faulty network by seeded routes, retract and repeat contributions, crash and restart from encoded snapshots; non-trivial: contributions arrived in different orders or a fault fired",
		real:    realLib,
		stub:    stubNet,
		assume:  []string{modelIs},
		nontriv: func(r *Result) bool { return len(r.Faults) > 0 }},
	"C07": {run: scenC07, quick: 4000, thor: 130000, unit: "ticks",
		state:   "(backend, call, encoded outcome prefix)",
		rule:    "a run is a replicated log of seeded library calls executed in lockstep by a node on each field backend, nodes being slow, stalled, or rebuilt from another node's encoded state; non-trivial: at least five commands executed on every node",
		real:    realLib + "; the C reference in cref through its Go wrapper",
		stub:    stubNet,
		assume:  []string{modelIs, "the platforms are amd64 and 386; the C reference and the assembly exist on the first only"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] >= 15 }},
	"C08": {run: scenC08, quick: 12000, thor: 400000, unit: "ticks",
		state:   "(backend, encoding, length, accepted or not)",
		rule:    "a run is a set of nodes that write values in all encodings to faulty disks and send them over a faulty network, an adversary replacing contents, and read them back; non-trivial: at least three reads and one fault",
		real:    realLib + "; encoding/json, encoding/gob",
		stub:    stubNet,
		assume:  []string{modelIs, "what the json and gob packages hand to the library is learnt from a stand-in type of the same shape"},
		nontriv: func(r *Result) bool { return len(r.Faults) > 0 && r.Nums["calls"] >= 3 }},
	"C09": {run: scenC09, quick: 4500, thor: 150000, unit: "ticks",
		state:   "(backend, decoder, input length, accepted or not)",
		rule:    "as C08, with hostile byte strings, texts and points of all lengths besides; a fixed set of calls before and after must observe the same; non-trivial: at least three decoder calls",
		real:    realLib + "; encoding/json, encoding/gob",
		stub:    stubNet,
		assume:  []string{"bounded means 60 million executed library statements plus 64 per input byte, some hundred times what a scalar multiplication needs"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] >= 3 }},
	"C10": {run: scenC10, quick: 4000, thor: 130000, unit: "ticks",
		state:   "(backend, failing call and first bytes of its input, receiver usable before or not)",
		rule:    "as C08, with failing draws, points without embedded data and hostile inputs besides; after each failed call receivers, inputs and bystanders are compared and the receiver is used again; non-trivial: at least one failed call was judged",
		real:    realLib + "; encoding/json, encoding/gob",
		stub:    stubNet,
		assume:  []string{"unusable as a point means coordinates that satisfy no representation of a curve point (zero Z included)"},
		nontriv: func(r *Result) bool { return r.Probes["failed call judged"] > 0 }},
	"C11": {run: scenC11, quick: 3500, thor: 120000, unit: "ticks",
		state:   "(parties, threshold, encodings, set of combined shares)",
		rule:    "a run is a threshold El'Gamal deployment of 2 to 5 parties, sender, relay and receiver, each on a seeded backend, with network faults, crashes with restart from stored encodings, failing randomness, forged plaintexts and dishonest parties until a calm moment; non-trivial: a message was delivered or judged",
		real:    realLib + "; encoding/json, encoding/gob",
		stub:    stubNet + "; the protocol itself (dealing, encryption, proofs, combination) is the simulator's, built on library calls only",
		assume:  []string{modelIs, "ciphertexts and commitments travel with a checksum, shares and partial decryptions do not; delivery is due 24000 ticks after the last fault"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] > 20 }},
	"C12": {run: scenC12, quick: 6000, thor: 200000, unit: "steps", pair: true,
		state:   "(backend, call, operands)",
		rule:    "a run is a pair of worlds, each a fresh process: the same history of calls, with the same public data, aliasing and faults, on other secrets; an observer with the simulated clock (one tick per executed statement, evaluated right operand of a short-circuit operator and compared word) and a view of all indices compares every call; non-trivial: at least one call was compared on different secrets",
		real:    realLib,
		stub:    stubEnv,
		assume:  []string{"one tick per statement: the timing of single machine instructions, of assembly, and of standard library packages is not modelled", "decoders of encodings from the wire, conversions to and from big integers and texts, and calls named Public or VarTime take public data"},
		nontriv: func(r *Result) bool { return r.Probes["calls compared on different secrets"] > 0 }},
	"C13": {run: scenC13, quick: 1500, thor: 60000, unit: "steps",
		state:   "(backend, call)",
		rule:    "a run is one process that makes a long history of one or two kinds of calls, hundreds to thousands of them, on ever new values and on recurring ones, with rejected inputs and failing draws in between; the heap after collection, the goroutines left and the executed statements per call are compared between the middle and the end; non-trivial: at least 100 calls",
		real:    realLib,
		stub:    stubNet,
		assume:  []string{"growth counts from one retained object per eight calls, or 8 bytes per call plus 8000; a store that fills up within the first half of a history is bounded"},
		nontriv: func(r *Result) bool { return r.Nums["calls"] >= 100 }},
}
