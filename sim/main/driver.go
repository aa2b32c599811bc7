package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Job is one execution in a fresh process.
type Job struct {
	Prop  string
	Seed  uint64
	Tier  string
	Solo  int      `json:",omitempty"`
	Drop  []string `json:",omitempty"`
	Probe *Probe   `json:",omitempty"`
	Trace bool     `json:",omitempty"`
	World int      `json:",omitempty"`
}

type Result struct {
	Digest string
	Order  string
	Viols  []*Violation `json:",omitempty"`
	Elems  []string     `json:",omitempty"`
	Faults map[string]int
	Probes map[string]int
	Nums   map[string]int64
	States []uint64 `json:",omitempty"`
	Trace  []string `json:",omitempty"`
	Marks  []Mark   `json:",omitempty"`
	// probes
	Bad, Seen string `json:",omitempty"`
	// the process did not end normally
	Crash string `json:",omitempty"`
}

// scenario of a property: the run, how many in each tier, what counts.
type scenario struct {
	run     func(*Ctx)
	quick   int
	thor    int
	rule    string
	real    string
	stub    string
	unit    string // of simulated time
	state   string // what distinct_states counts
	assume  []string
	nontriv func(*Result) bool
	pair    bool // two worlds are compared
}

var sitesPath string

func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	sitesPath = os.Getenv("SIM_SITES")
	switch os.Args[1] {
	case "worker":
		worker()
	case "ping":
		fmt.Print(runtime.GOARCH)
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "one":
		// one seed with its trace, for debugging
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		res := run(Job{Prop: os.Args[2], Seed: seed, Tier: "quick", Trace: true})
		for _, t := range res.Trace {
			fmt.Println(t)
		}
		res.Trace, res.States = nil, nil
		b, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
	default:
		fatal("unknown command")
	}
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(64 << 20)
	var j Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatal("job: %v", err)
	}
	var res Result
	if j.Probe != nil {
		lizardBookFrom(j.Probe)
		res.Bad, res.Seen = runProbe(j.Probe)
	} else {
		loadSites(sitesPath)
		c := newCtx(j.Prop, j.Seed, j.Drop)
		c.Tier, c.Solo, c.World = j.Tier, j.Solo, j.World
		scenarios[j.Prop].run(c)
		res = Result{Digest: c.Digest(), Order: fmt.Sprintf("%x", c.order.Sum(nil)[:10]), Viols: c.Viols, Elems: c.elems, Faults: c.Faults, Probes: c.Probes, Nums: c.Nums, Marks: c.Marks}
		for s := range c.states {
			res.States = append(res.States, s)
		}
		sort.Slice(res.States, func(i, k int) bool { return res.States[i] < res.States[k] })
		if j.Trace {
			res.Trace = c.Trace
		}
		if len(c.Viols) == 0 && !j.Trace && !scenarios[j.Prop].pair {
			res.Elems = nil
		}
	}
	b, err := json.Marshal(&res)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout.Write(b)
}

// run executes a job, in both worlds where there are two.
func run(j Job) *Result {
	r := run1(j)
	if j.Probe == nil && scenarios[j.Prop].pair && r.Crash == "" {
		j.World = 1
		r2 := run1(j)
		if r2.Crash != "" {
			return r2
		}
		compareWorlds(r, r2)
		if len(r.Viols) == 0 && !j.Trace {
			r.Elems = nil
		}
	}
	return r
}

var (
	binOnce     sync.Once
	self, bin32 string
)

// narrow says whether a run happens on the 32-bit platform: one in eight.
func narrow(seed uint64) bool {
	binOnce.Do(func() {
		var err error
		if self, err = os.Executable(); err != nil {
			fatal("%v", err)
		}
		b := self + "386"
		if out, err := exec.Command(b, "ping").Output(); err == nil && string(out) == "386" {
			bin32 = b
		}
	})
	return bin32 != "" && hashKey(seed, "platform")%8 == 0
}

func workerFor(seed uint64) string {
	if narrow(seed) {
		return bin32
	}
	return self
}

func run1(j Job) *Result {
	b, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, workerFor(j.Seed), "worker")
	cmd.Stdin = bytes.NewReader(b)
	// math/rand's own source, should the library use it, is then the same in each run
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var r Result
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &r)
	}
	if err != nil {
		r = Result{Crash: err.Error() + "\n" + e.String()}
		if ctx.Err() != nil {
			r.Crash = "timeout\n" + e.String()
		}
	}
	return &r
}

var libFrame = regexp.MustCompile(`verif\.local/(r51|gen|asm)[./(]`)

// crashViolation turns the end of a process inside library code (a fatal
// runtime error, which no caller can recover from) into a violation.
func crashViolation(r *Result) {
	if r.Crash == "" || strings.HasPrefix(r.Crash, "timeout") {
		return
	}
	if !strings.Contains(r.Crash, "fatal error:") && !strings.Contains(r.Crash, "runtime: goroutine stack exceeds") {
		return
	}
	if !libFrame.MatchString(r.Crash) {
		return
	}
	msg := "fatal error"
	for _, l := range strings.Split(r.Crash, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "stack exceeds") {
			msg = l
		}
	}
	r.Viols = []*Violation{{Class: "crash", Detail: "the process died inside the library: " + msg}}
	r.Crash = ""
}

// confirmed runs what a violation asks for before it counts.
func confirmed(j Job, v *Violation) bool {
	if v.Confirm == nil {
		return true
	}
	if v.Confirm.Solo != 0 {
		k := j
		k.Solo = v.Confirm.Solo
		r := run(k)
		crashViolation(r)
		if r.Crash != "" {
			return false
		}
		return len(r.Viols) == 0
	}
	if p := v.Confirm.Probe; p != nil {
		r := run(Job{Prop: j.Prop, Seed: j.Seed, Probe: p})
		if r.Crash != "" {
			return false
		}
		return r.Bad == "" || r.Seen != p.Seen
	}
	return true
}

// violating runs a job and returns its first violation that counts.
func violating(j Job, class string) (*Result, *Violation) {
	r := run(j)
	crashViolation(r)
	for _, v := range r.Viols {
		if (class == "" || v.Class == class) && confirmed(j, v) {
			return r, v
		}
	}
	return r, nil
}

func runSeed(master uint64, prop string, i int) uint64 {
	return hashKey(master, fmt.Sprintf("%s/run/%d", prop, i)) >> 1
}

type knownFinding struct{ prop, text string }

// known reads the committed known findings: lines "finding: property=<id> key=<key> <what fails>".
func known(prop string) (keys map[string]string) {
	keys = map[string]string{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("SIM_HOME"), "known_findings.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			keys[m[2]] = m[3]
		}
	}
	return
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 0, "number of runs")
	capS := fs.Int("cap", 0, "seconds after which no new run starts")
	fs.Parse(args)
	sc, ok := scenarios[*prop]
	if !ok {
		fatal("unknown property %s", *prop)
	}
	runs := sc.quick
	limit := 420 * time.Second
	if *tier == "thorough" {
		runs = sc.thor
		limit = 3 * time.Hour
	}
	if *n > 0 {
		runs = *n
	}
	if *capS > 0 {
		limit = time.Duration(*capS) * time.Second
	}
	start := time.Now()
	fmt.Printf("%s tier=%s seed=%d: up to %d simulated runs\n", *prop, *tier, *seed, runs)

	kf := known(*prop)
	kfSeen := map[string]bool{}
	var (
		mu       sync.Mutex
		next     int
		bestIdx  = -1
		bestV    *Violation
		done     int
		twice    int
		on32     int
		differ   []string
		broken   []string
		discard  = map[string]int{}
		digests  = map[string]bool{}
		orders   = map[string]bool{}
		nontriv  int
		states   = map[uint64]bool{}
		faults   = map[string]int{}
		probes   = map[string]int{}
		nums     = map[string]int64{}
		samples  []interface{}
		withViol int
	)
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= runs || bestIdx >= 0 || time.Since(start) > limit || len(broken) > 3 {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				j := Job{Prop: *prop, Seed: runSeed(*seed, *prop, i), Tier: *tier, Trace: i < 3}
				r := run(j)
				crashViolation(r)
				if r.Crash != "" {
					mu.Lock()
					broken = append(broken, fmt.Sprintf("run %d seed %d: %s", i, j.Seed, short(r.Crash, 3000)))
					mu.Unlock()
					continue
				}
				var hit *Violation
				for _, v := range r.Viols {
					if v.Known != "" {
						if _, ok := kf[v.Known]; ok {
							mu.Lock()
							kfSeen[v.Known] = true
							mu.Unlock()
							continue
						}
					}
					if confirmed(j, v) {
						hit = v
						break
					}
					mu.Lock()
					discard[short(v.Detail, 160)]++
					mu.Unlock()
				}
				same := true
				dup := i%25 == 7
				if dup && len(r.Viols) == 0 {
					r2 := run(j)
					same = r2.Digest == r.Digest
				}
				mu.Lock()
				done++
				if narrow(j.Seed) {
					on32++
				}
				if dup && len(r.Viols) == 0 {
					twice++
					if !same {
						differ = append(differ, fmt.Sprintf("run %d seed %d", i, j.Seed))
					}
				}
				if len(r.Viols) > 0 {
					withViol++
				}
				if !digests[r.Digest] && (sc.nontriv == nil || sc.nontriv(r)) {
					nontriv++
				}
				digests[r.Digest] = true
				orders[r.Order] = true
				for _, s := range r.States {
					if len(states) < 4_000_000 {
						states[s] = true
					}
				}
				for k, v := range r.Faults {
					faults[k] += v
				}
				for k, v := range r.Probes {
					probes[k] += v
				}
				for k, v := range r.Nums {
					nums[k] += v
				}
				if j.Trace && len(samples) < 3 {
					t := r.Trace
					if len(t) > 40 {
						t = t[:40]
					}
					samples = append(samples, map[string]interface{}{"run": i, "seed": strconv.FormatUint(j.Seed, 10), "trace": t})
				}
				if hit != nil && (bestIdx < 0 || i < bestIdx) {
					bestIdx, bestV = i, hit
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(start).Seconds()

	violations := 0
	var replayPath string
	if bestIdx >= 0 {
		violations = 1
		replayPath = minimise(*prop, *tier, runSeed(*seed, *prop, bestIdx), bestV)
	}

	perHour := 0.0
	if wall > 0 {
		perHour = float64(done) / wall * 3600
	}
	cov := map[string]interface{}{
		"evaluations":              done,
		"distinct_nontrivial":      nontriv,
		"rule":                     sc.rule,
		"samples":                  samples,
		"runs_per_hour":            int(perHour), // one seed is one run
		"seed_use":                 "one seed per run, all decisions of a run derived from it",
		"simulated_time":           fmt.Sprintf("%d %s", nums[sc.unit], sc.unit),
		"fault_kinds_fired":        faults,
		"rare_conditions_reached":  probes,
		"counters":                 nums,
		"distinct_interleavings":   len(orders),
		"interleaving_measure":     "distinct sequences, over a run, of which task (and at which step of which call), which queued event, or which call of which client came next",
		"distinct_states":          len(states),
		"state_measure":            sc.state,
		"runs_on_32_bit_build":     on32,
		"determinism_rechecked":    twice,
		"determinism_differences":  len(differ),
		"runs_stopped_early":       runs - done,
		"components_real":          sc.real,
		"components_stubbed":       sc.stub,
		"mismatches_not_this_prop": discard,
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "assumptions": sc.assume, "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(os.Getenv("SIM_HOME"), "evidence")
	os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	for k := range kfSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf[k])
	}
	fmt.Printf("%s: %d runs in %.1f s, %d distinct, %d switches, faults %v\n", *prop, done, wall, len(digests), nums["switches"], faults)
	for d, k := range discard {
		fmt.Printf("note: %d x not a matter of this property: %s\n", k, d)
	}
	if bestIdx >= 0 {
		if replayPath == "" {
			fmt.Printf("ERROR: violation of run %d did not reproduce: %s\n", bestIdx, bestV.Detail)
			return 2
		}
		fmt.Printf("violated: %s\n", bestV.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		return 1
	}
	if len(broken) > 0 {
		fmt.Printf("ERROR: %d simulated runs broke down\n%s\n", len(broken), broken[0])
		return 2
	}
	if len(differ) > 0 {
		fmt.Printf("ERROR: not deterministic: %v\n", differ)
		return 2
	}
	return 0
}

// Replay file.
type ReplayFile struct {
	Property string
	Seed     string
	Tier     string
	Dropped  []string // elements removed by minimisation
	Kept     []string // elements left: calls, preemptions, switches, faults
	Class    string
	Detail   string
	Digest   string
	Trace    []string
}

func minimise(prop, tier string, seed uint64, v *Violation) string {
	start := time.Now()
	class := v.Class
	j := Job{Prop: prop, Seed: seed, Tier: tier}
	r, v0 := violating(j, class)
	if v0 == nil {
		// once more: distinguish bad luck of the machine from nondeterminism
		r, v0 = violating(j, class)
		if v0 == nil {
			return ""
		}
	}
	all := r.Elems
	keep := append([]string{}, all...)
	dropOf := func(keep []string) []string {
		in := map[string]bool{}
		for _, k := range keep {
			in[k] = true
		}
		var d []string
		for _, e := range all {
			if !in[e] {
				d = append(d, e)
			}
		}
		return d
	}
	// ddmin, trying chunks in parallel
	n := 2
	for len(keep) > 0 && time.Since(start) < 90*time.Second {
		if n > len(keep) {
			n = len(keep)
		}
		size := (len(keep) + n - 1) / n
		type cand struct {
			keep []string
			ok   bool
		}
		var cs []*cand
		for lo := 0; lo < len(keep); lo += size {
			hi := lo + size
			if hi > len(keep) {
				hi = len(keep)
			}
			k := append(append([]string{}, keep[:lo]...), keep[hi:]...)
			cs = append(cs, &cand{keep: k})
		}
		reduced := false
		for lo := 0; lo < len(cs) && !reduced; lo += 8 {
			hi := lo + 8
			if hi > len(cs) {
				hi = len(cs)
			}
			var wg sync.WaitGroup
			for _, x := range cs[lo:hi] {
				wg.Add(1)
				go func(x *cand) {
					defer wg.Done()
					k := j
					k.Drop = dropOf(x.keep)
					_, vv := violating(k, class)
					x.ok = vv != nil
				}(x)
			}
			wg.Wait()
			for _, x := range cs[lo:hi] {
				if x.ok {
					keep = x.keep
					reduced = true
					if n > 2 {
						n--
					}
					break
				}
			}
		}
		if !reduced {
			if size == 1 {
				break
			}
			n *= 2
		}
	}
	j.Drop = dropOf(keep)
	j.Trace = true
	r, v1 := violating(j, class)
	if v1 == nil { // must not happen; fall back to the full case
		j.Drop = nil
		keep = all
		r, v1 = violating(j, class)
		if v1 == nil {
			return ""
		}
	}
	v.Detail = v1.Detail
	dir := filepath.Join(os.Getenv("SIM_HOME"), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
	f := ReplayFile{Property: prop, Seed: strconv.FormatUint(seed, 10), Tier: tier, Dropped: j.Drop, Kept: keep,
		Class: class, Detail: v1.Detail, Digest: r.Digest, Trace: r.Trace}
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("minimised to %d of %d elements: %s\n", len(keep), len(all), strings.Join(trunc(keep, 12), " "))
	return path
}

func trunc(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), "...")
	}
	return l
}

// replay runs a replay file and says whether it still fails in the same way.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	seed, _ := strconv.ParseUint(f.Seed, 10, 64)
	j := Job{Prop: f.Property, Seed: seed, Tier: f.Tier, Drop: f.Dropped, Trace: true}
	r, v := violating(j, f.Class)
	for _, t := range r.Trace {
		fmt.Println(t)
	}
	if v == nil {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Printf("reproduced: %s\nsame event log: %v\n", v.Detail, r.Digest == f.Digest)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}

// selftest runs seeds of every scenario twice, at two levels of parallelism,
// and compares the event logs.
func selftest(args []string) int {
	n := 40
	if len(args) > 0 {
		n, _ = strconv.Atoi(args[0])
	}
	var props []string
	for p := range scenarios {
		props = append(props, p)
	}
	sort.Strings(props)
	bad := 0
	for _, p := range props {
		one := make([]string, n)
		for pass, par := range []int{8, 24, 2} {
			sem := make(chan struct{}, par)
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := 0; i < n; i++ {
				wg.Add(1)
				sem <- struct{}{}
				go func(i int) {
					defer wg.Done()
					r := run(Job{Prop: p, Seed: runSeed(99, p, i), Tier: "quick"})
					<-sem
					mu.Lock()
					defer mu.Unlock()
					if pass == 0 {
						one[i] = r.Digest
					} else if one[i] != r.Digest {
						bad++
						fmt.Printf("%s run %d differs\n", p, i)
					}
				}(i)
			}
			wg.Wait()
		}
		fmt.Printf("%s: %d seeds x 3 compared\n", p, n)
	}
	if bad > 0 {
		return 2
	}
	return 0
}

func lizardBookFrom(p *Probe) {
	for _, d := range p.Book {
		lizard(d)
	}
}
