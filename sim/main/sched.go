package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"

	"verif.local/main/core"
	"verif.local/simhook"
	simrand "verif.local/simhook/rand"
)

// Site is one scheduling point of an instrumented build.
type Site struct {
	Variant string `json:"v"`
	File    string `json:"f"`
	Func    string `json:"fn"`
	Line    int    `json:"l"`
	Entry   bool   `json:"e"`
	Write   bool   `json:"w"`
	Leaf    bool   `json:"leaf"`
}

var sites []Site

func loadSites(path string) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &sites)
	}
	if err != nil {
		fatal("sites: %v", err)
	}
}

func siteName(s uint32) string {
	if int(s) < len(sites) {
		x := sites[s]
		return fmt.Sprintf("%s/%s:%d(%s)", x.Variant, x.File, x.Line, x.Func)
	}
	return fmt.Sprint(s)
}

type hang struct{}

func (hang) Error() string { return "step budget exhausted" }

type killed struct{}

// Task is a simulated thread.
type Task struct {
	id      int
	ch      chan struct{}
	done    bool
	started bool
	cond    func() bool // blocked until it holds
	f       func(t *Task)
	lib     bool  // the library started it
	parent  *Task // of a task the library started
	bornOp  int   // the call of the parent in which it was started
	stall   int   // it does not go on before that many calls have been made

	// current call
	op      int
	steps   int64 // steps into the call
	limit   int64
	plan    []int64 // steps at which to preempt
	k       int     // decisions taken in this call
	inOp    bool
	hangs   bool
	npre    int
	killing bool
	mapUse  uintptr // map the next statement uses
	mapW    bool
	clock   *simhook.Clock
}

// Sched runs tasks one at a time; it alone decides who runs.
type Sched struct {
	c       *Ctx
	tasks   []*Task
	cur     *Task
	fin     chan string
	base    int64 // Left when last set
	total   int64
	slice   int64 // steps since the last switch
	hotProb int
	style   int
	inLog   []byte
	nsw     int
	dead    bool
	maxPre  int
	unit    int64 // typical length of a call, for step plans
	after   int64 // steps by then of tasks that outlive the callers
	resumes int
	ncalls  int         // that have ended
	stalls  int         // percentage of preemptions that last long
	died    interface{} // the panic of a task of the library, which ends the process
}

// libTasks are the tasks that the library started and that have not ended.
// They outlive the call or the run that saw them begin.
var (
	libTasks []*Task
	libSeq   int
	mode     interface {
		ended(t *Task)
		crashed(t *Task, r interface{})
	}
)

func newLib(f func(), parent *Task) *Task {
	libSeq++
	t := &Task{id: 1000 + libSeq, ch: make(chan struct{}, 1), lib: true, parent: parent, op: libSeq,
		inOp: true, limit: 1 << 62, f: func(*Task) { f() }}
	if parent != nil {
		t.bornOp = parent.op
	}
	libTasks = append(libTasks, t)
	return t
}

// adopt makes tasks of what the library started while it was initialised.
func adopt() {
	for _, f := range simhook.Pending {
		newLib(f, nil)
	}
	simhook.Pending = nil
	live := libTasks[:0]
	for _, t := range libTasks {
		if !t.done {
			t.stall = 0
			live = append(live, t)
		}
	}
	for i := len(live); i < len(libTasks); i++ {
		libTasks[i] = nil
	}
	libTasks = live
}

// died is a panic that no caller can recover.
type died struct{ v interface{} }

const (
	sliceCap   = 3_000_000
	opLimit    = 60_000_000
	totalLimit = 3_000_000_000
	afterLimit = 300_000
)

func newSched(c *Ctx) *Sched {
	return &Sched{c: c, fin: make(chan string, 1), maxPre: 400}
}

// Add creates a task.
func (s *Sched) Add(f func(t *Task)) *Task {
	t := &Task{id: len(s.tasks), ch: make(chan struct{}, 1), f: f}
	s.tasks = append(s.tasks, t)
	return t
}

func start(t *Task) {
	t.started = true
	go func() {
		debug.SetPanicOnFault(true)
		<-t.ch
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				t.done = true
				mode.crashed(t, r)
				return
			}
			t.done = true
			mode.ended(t)
		}()
		if t.killing {
			panic(killed{})
		}
		t.f(t)
	}()
}

// ready lists the tasks that can run now, stalled ones left out.
func (s *Sched) ready(except *Task) []*Task {
	var l []*Task
	for _, ts := range [2][]*Task{s.tasks, libTasks} {
		for _, t := range ts {
			if t == except || t.done || t.stall > s.ncalls {
				continue
			}
			if t.cond != nil && !t.cond() {
				continue
			}
			l = append(l, t)
		}
	}
	return l
}

// runnable does the same, and ends stalls if nobody else is left.
func (s *Sched) runnable(except *Task) []*Task {
	l := s.ready(except)
	if len(l) == 0 {
		s.wake()
		l = s.ready(except)
	}
	return l
}

// wake ends all stalls.
func (s *Sched) wake() {
	for _, ts := range [2][]*Task{s.tasks, libTasks} {
		for _, t := range ts {
			t.stall = 0
		}
	}
}

// linger may keep a preempted task from going on while others make many calls.
func (s *Sched) linger(t *Task) {
	if s.stalls == 0 || !t.inOp {
		return
	}
	k := fmt.Sprintf("stall/t%d/op%d/%d", t.id, t.op, t.k)
	r := s.c.R("%s", k)
	if r.N(100) < s.stalls && s.c.Fault("stall", k) {
		t.stall = s.ncalls + int(r.LogU(128))
	}
}

// served: all callers are done.
func (s *Sched) served() bool {
	for _, t := range s.tasks {
		if !t.done {
			return false
		}
	}
	return true
}

// arm sets the countdown for the current task.
func (s *Sched) arm() {
	t := s.cur
	n := int64(sliceCap)
	if t.inOp {
		if len(t.plan) > 0 && t.plan[0]-t.steps < n {
			n = t.plan[0] - t.steps
		}
		if t.limit-t.steps < n {
			n = t.limit - t.steps
		}
	}
	if n < 0 {
		n = 0
	}
	s.base = n
	simhook.Left = n
}

// count moves consumed steps to the current task.
func (s *Sched) count() {
	d := s.base - simhook.Left
	s.base = simhook.Left
	if s.cur.lib && s.served() {
		s.after += d
	}
	s.cur.steps += d
	s.slice += d
	s.total += d
}

// handoff gives the processor to t and, unless the current task is done, waits.
func (s *Sched) handoff(from, to *Task, why string) {
	s.nsw++
	if from != nil {
		s.c.Order(int64(from.id), int64(from.op), from.steps)
	}
	s.c.Order(int64(to.id))
	s.slice = 0
	s.cur = to
	simhook.Now = to.clock
	s.arm()
	if !to.started {
		start(to)
	}
	to.ch <- struct{}{}
	if from != nil && !from.done {
		<-from.ch
		if from.killing {
			panic(killed{})
		}
	}
}

// ended runs another task.
func (s *Sched) ended(t *Task) {
	for {
		l := s.runnable(t)
		if s.served() && (len(l) == 0 || s.after > afterLimit) {
			s.finish("")
			return
		}
		if len(l) > 0 {
			s.c.Ev("end t%d -> t%d", t.id, l[0].id)
			s.handoff(t, l[0], "end")
			return
		}
		if !simhook.Stuck() {
			s.finish("deadlock")
			return
		}
	}
}

// crashed: a panic nobody recovers ends the process.
func (s *Sched) crashed(t *Task, r interface{}) {
	if !t.lib {
		fmt.Fprintf(os.Stderr, "simulator: panic in task %d: %v\n%s", t.id, r, debug.Stack())
		os.Exit(3)
	}
	s.died = r
	s.c.Ev("crash t%d", t.id)
	s.finish("crash")
}

// epitaph describes what ended the process.
func (s *Sched) epitaph() (o core.Outcome) {
	catch(&o, func() { panic(died{s.died}) })
	return
}

func (s *Sched) finish(m string) {
	s.off()
	s.fin <- m
}

func (s *Sched) off() {
	simhook.Left = simhook.Idle()
	simhook.OnPoint, simhook.OnGo, simhook.OnBlock, simhook.OnChoice, simhook.OnYield = nil, nil, nil, nil, nil
	simhook.OnMap, simhook.OnTorn, simhook.OnObj = nil, nil, nil
	simhook.StopRaces()
}

// Run executes all tasks to completion; it returns "" or "deadlock".
func (s *Sched) Run() string {
	if len(s.tasks) == 0 {
		return ""
	}
	adopt()
	mode = s
	s.install()
	first := s.tasks[s.c.R("first").N(len(s.tasks))]
	s.c.Ev("start t%d", first.id)
	simhook.StartRaces()
	for _, ts := range [2][]*Task{s.tasks, libTasks} {
		for _, t := range ts {
			t.clock = simhook.NewClock(t.id, nil)
		}
	}
	s.cur = first
	simhook.Now = first.clock
	s.arm()
	start(first)
	first.ch <- struct{}{}
	m := <-s.fin
	s.dead = true
	for i := range simhook.Hot {
		simhook.Hot[i] = false
	}
	return m
}

func (s *Sched) install() {
	simhook.OnPoint = s.point
	simhook.OnMap, simhook.OnTorn, simhook.OnObj = s.onMap, s.onTorn, s.onObj
	simhook.OnGo = func(f func()) {
		t := newLib(f, s.cur)
		t.clock = simhook.NewClock(t.id, s.cur.clock)
		t.plan = s.makePlan(t)
		s.c.Ev("go t%d", t.id)
	}
	simhook.OnBlock = func(cond func() bool) {
		t := s.cur
		s.count()
		t.cond = cond
		l := s.runnable(t)
		for len(l) == 0 {
			// nobody else can run: deadlock, unless cond holds by now
			if cond() {
				t.cond = nil
				s.arm()
				return
			}
			if t.lib && s.served() { // it waits for whoever calls next
				s.finish("")
				<-t.ch
				t.cond = nil
				return
			}
			if !simhook.Stuck() {
				s.c.Ev("deadlock t%d", t.id)
				s.finish("deadlock")
				select {} // this task never resumes; the process ends with the run
			}
			l = s.runnable(t)
		}
		to := l[s.c.R("blk/%d/%d/%d", t.id, t.op, t.k).N(len(l))]
		t.k++
		s.c.Ev("block t%d -> t%d", t.id, to.id)
		s.handoff(t, to, "block")
		t.cond = nil
		if t.lib {
			t.steps, t.plan = 0, s.makePlan(t)
		}
	}
	simhook.OnYield = func() {
		t := s.cur
		s.wake()
		t.k++
		s.switchAt(t, 0)
	}
	simhook.OnChoice = func(n int) int {
		t := s.cur
		t.k++
		return s.c.R("choice/%d/%d/%d", t.id, t.op, t.k).N(n)
	}
}

func (s *Sched) onMap(site uint32, name string, id uintptr, write bool) {
	s.announce(site, "map", name, id, write, 2)
}

func (s *Sched) onObj(site uint32, name string, id uintptr, write, shared bool) {
	if shared {
		s.announce(site, "object", name, id, write, 2)
	} else {
		s.announce(site, "object", name, id, write, 16)
	}
}

// announce: the task is about to use something that must not be used by two at
// once if one of them changes it; one time in often, another task goes first.
func (s *Sched) announce(site uint32, kind, name string, id uintptr, write bool, often int) {
	t := s.cur
	if !t.inOp {
		return
	}
	t.mapUse = 0
	for _, ts := range [2][]*Task{s.tasks, libTasks} {
		for _, u := range ts {
			if u != t && u.mapUse == id && (write || u.mapW) {
				// both are about to touch it and nothing orders them
				panic("fatal error: concurrent " + kind + " access (" + name + ")")
			}
		}
	}
	t.mapUse, t.mapW = id, write
	t.k++
	if s.c.R("use/%d/%d/%d", t.id, t.op, t.k).P(1, often) {
		s.switchAt(t, site)
	}
	t.mapUse = 0
}

func (s *Sched) onTorn(site uint32, n int) (int, bool) {
	t := s.cur
	if !t.inOp || !simhook.Hot[site&0xffff] {
		return 0, false
	}
	t.k++
	r := s.c.R("torn/%d/%d/%d", t.id, t.op, t.k)
	if n < 2 || !r.P(1, 3) {
		return 0, false
	}
	mid := 1 + r.N(n-1)
	if r.P(1, 2) {
		mid = -mid
	}
	return mid, true
}

// switchAt gives way to another task inside a call.
func (s *Sched) switchAt(t *Task, site uint32) {
	s.count()
	l := s.ready(t)
	if len(l) == 0 || !s.c.On("preempt/t%d/op%d/%d", t.id, t.op, t.k) {
		s.arm()
		return
	}
	to := l[s.c.R("to/%d/%d/%d", t.id, t.op, t.k).N(len(l))]
	s.c.Faults["preemption"]++
	s.c.State("%s", siteName(site))
	s.c.Ev("preempt t%d op%d step %d %s -> t%d", t.id, t.op, t.steps, siteName(site), to.id)
	s.linger(t)
	s.handoff(t, to, "preempt")
}

// point is called at a scheduling point that was selected.
func (s *Sched) point(site uint32) {
	t := s.cur
	s.count()
	if t.inOp && t.steps >= t.limit {
		t.hangs = true
		t.limit += opLimit // let deferred code run
		s.arm()
		panic(hang{})
	}
	if t.lib && s.after > afterLimit && s.served() {
		s.finish("")
		<-t.ch
		return
	}
	if s.total > totalLimit {
		s.c.Ev("run does not finish")
		s.finish("hang")
		select {}
	}
	want := false
	if t.inOp && len(t.plan) > 0 && t.steps >= t.plan[0] {
		t.plan = t.plan[1:]
		want = true
	} else if simhook.Hot[site&0xffff] && t.inOp {
		t.k++
		want = s.c.R("hot/%d/%d/%d", t.id, t.op, t.k).N(100) < s.hotProb
	}
	forced := s.slice >= sliceCap
	if forced {
		s.wake() // whom it waits for may be stalled
	}
	if !want && !forced {
		s.arm()
		return
	}
	t.npre++
	if t.npre > s.maxPre && !forced {
		s.arm()
		return
	}
	l := s.ready(t)
	if len(l) == 0 {
		s.slice = 0
		s.arm()
		return
	}
	t.k++
	if !forced && !s.c.On("preempt/t%d/op%d/%d", t.id, t.op, t.k) {
		s.arm()
		return
	}
	to := l[s.c.R("to/%d/%d/%d", t.id, t.op, t.k).N(len(l))]
	s.c.Faults["preemption"]++
	s.c.State("%s", siteName(site))
	s.c.Ev("preempt t%d op%d step %d %s -> t%d", t.id, t.op, t.steps, siteName(site), to.id)
	s.linger(t)
	s.handoff(t, to, "preempt")
}

// Yield is a scheduling point between calls.
func (s *Sched) Yield(t *Task) {
	s.count()
	r := s.c.R("sw/%d/%d", t.id, t.op)
	l := s.ready(t)
	if len(l) > 0 && r.P(2, 3) && s.c.On("switch/t%d/op%d", t.id, t.op) {
		to := l[r.N(len(l))]
		s.c.Ev("switch t%d op%d -> t%d", t.id, t.op, to.id)
		s.handoff(t, to, "switch")
		return
	}
	s.arm()
}

// Call performs f as one library call of task t, preemptible inside.
// Panics are caught and described.
func (s *Sched) Call(t *Task, op int, out *core.Outcome, f func()) {
	s.count()
	t.op, t.steps, t.k, t.inOp, t.hangs = op, 0, 0, true, false
	t.limit = opLimit
	t.plan = s.makePlan(t)
	jump(s.c, s.c.R("jump/%d/%d", t.id, t.op))
	s.arm()
	catch(out, f)
	s.count()
	t.inOp = false
	s.ncalls++
	if t.hangs {
		out.Hang = true
	}
	s.c.Nums["steps"] += t.steps
	s.arm()
}

// Styles of preemption inside calls.
func (s *Sched) makePlan(t *Task) []int64 {
	r := s.c.R("plan/%d/%d", t.id, t.op)
	if t.lib {
		s.resumes++
		r = s.c.R("plan/%d/%d/%d", t.id, t.op, s.resumes)
	}
	switch s.style {
	case 1: // a few, log-uniform
		n := r.N(4)
		var p []int64
		at := int64(0)
		for i := 0; i < n; i++ {
			at += r.LogU(400_000)
			p = append(p, at)
		}
		return p
	case 2: // early burst, very fine
		n := r.N(12)
		var p []int64
		at := r.LogU(3000)
		for i := 0; i < n; i++ {
			at += r.LogU(40)
			p = append(p, at)
		}
		return p
	case 3: // round robin with a fixed quantum
		q := s.unit
		var p []int64
		for i := int64(1); i < 60; i++ {
			p = append(p, i*q)
		}
		return p
	}
	return nil
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)

// catch runs f and describes a panic that comes out of it.
func catch(out *core.Outcome, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		pre := ""
		if x, ok := r.(died); ok {
			// a goroutine's panic ends the process
			out.Abort = true
			pre, r = "in a goroutine of the library, which ends the process: ", x.v
		}
		defer func() { out.Panic = pre + out.Panic }()
		switch x := r.(type) {
		case killed:
			panic(x)
		case hang:
			out.Hang = true
			out.Panic = "does not finish"
		case simrand.Abort:
			out.Abort = true
			out.Panic = x.Error()
		case runtime.Error:
			if a, ok := r.(interface{ Addr() uintptr }); ok {
				out.Fault = a.Addr()
			}
			out.Panic = addrRe.ReplaceAllString(x.Error(), "0x..") + " at " + where()
		default:
			out.Panic = fmt.Sprint(r)
		}
	}()
	f()
}

// where names the innermost library frame of the panic being handled.
func where() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "verif.local/") && !strings.HasPrefix(f.Function, "verif.local/main") &&
			!strings.HasPrefix(f.Function, "verif.local/simhook") && f.Function != "" {
			return fmt.Sprintf("%s", f.Function)
		}
		if !more {
			return "?"
		}
	}
}

// chooseHot picks hot scheduling points for the run among those of a variant.
func (s *Sched) chooseHot(variant string, r *Rng) {
	byFn := map[string][]int{}
	var fns []string
	var writes []int
	for i, x := range sites {
		if x.Variant != variant || i >= len(simhook.Hot) {
			continue
		}
		k := x.File + ":" + x.Func
		if len(byFn[k]) == 0 {
			fns = append(fns, k)
		}
		byFn[k] = append(byFn[k], i)
		if x.Write {
			writes = append(writes, i)
		}
	}
	if len(fns) == 0 {
		return
	}
	if len(writes) > 0 && r.P(3, 4) {
		for i := 0; i < 1+r.N(4); i++ {
			w := writes[r.N(len(writes))]
			simhook.Hot[w] = true
			if w+1 < len(sites) && r.P(1, 2) {
				simhook.Hot[w+1] = true
			}
		}
	}
	n := 1 + r.N(6)
	for i := 0; i < n; i++ {
		l := byFn[fns[r.N(len(fns))]]
		if r.P(1, 3) {
			simhook.Hot[l[0]] = true
		} else {
			simhook.Hot[l[r.N(len(l))]] = true
		}
	}
	s.hotProb = []int{3, 10, 30, 60}[r.N(4)]
}

// configure picks the run's preemption style.
func (s *Sched) configure(variant string) {
	r := s.c.R("sched")
	s.style = r.N(4)
	s.unit = r.LogU(60_000)
	s.maxPre = []int{6, 30, 150, 400}[r.N(4)]
	if s.style == 0 || r.P(2, 3) {
		s.chooseHot(variant, r)
	}
	if r.P(1, 5) || long(s.c) && r.P(2, 3) {
		s.stalls = []int{5, 20, 60}[r.N(3)]
	}
	s.c.Ev("style %d unit %d hot %d%% max %d", s.style, s.unit, s.hotProb, s.maxPre)
}

// jump lets time pass, where the library looks at the clock.
func jump(c *Ctx, r *Rng) {
	if simhook.OnJump != nil && r.P(1, 8) {
		c.Faults["clock-jump"]++
		simhook.OnJump(r.LogU(1 << 45))
	}
}

// coop is the schedule of a call made by itself: the caller goes first, and
// tasks of the library run as they are started, while the caller waits, and
// after it has returned.
type coop struct {
	c     *Ctx
	main  *Task
	cur   *Task
	turn  int
	after bool // the call has returned
	stuck bool
	died  interface{}
	dead  bool
}

func (d *coop) next(t *Task, lib bool) *Task {
	ok := func(u *Task) bool { return u != t && !u.done && (u.cond == nil || u.cond()) }
	if !lib && ok(d.main) {
		return d.main
	}
	for i := range libTasks {
		u := libTasks[(d.turn+i)%len(libTasks)]
		if ok(u) {
			d.turn = (d.turn + i + 1) % len(libTasks)
			return u
		}
	}
	if lib && ok(d.main) {
		return d.main
	}
	return nil
}

// give passes the processor on.
func (d *coop) give(from, to *Task) {
	d.cur = to
	if !to.started {
		start(to)
	}
	to.ch <- struct{}{}
	if !from.done {
		<-from.ch
		if from == d.main && d.died != nil {
			r := d.died
			d.died = nil
			panic(died{r})
		}
	}
}

func (d *coop) ended(t *Task) {
	for {
		if to := d.next(t, false); to != nil {
			d.give(t, to)
			return
		}
		if !simhook.Stuck() {
			d.stuck = true
			d.give(t, d.main)
			return
		}
	}
}

func (d *coop) crashed(t *Task, r interface{}) {
	d.died = r
	d.give(t, d.main)
}

func (d *coop) block(out *core.Outcome, cond func() bool) {
	t := d.cur
	defer func() { t.cond = nil }()
	for !cond() {
		t.cond = cond
		if d.stuck && t == d.main {
			d.stuck = false
			out.Hang = true
			panic(hang{})
		}
		if to := d.next(t, false); to != nil {
			d.give(t, to)
			if d.dead {
				return // of another call by now
			}
			continue
		}
		if simhook.Stuck() {
			continue
		}
		d.stuck = true
		if t != d.main {
			d.give(t, d.main)
			if d.dead {
				return
			}
		}
	}
}

// direct performs f as one call outside a schedule: with a step budget, and
// with blocking and waiting forever seen as not finishing.
func direct(c *Ctx, out *core.Outcome, limit int64, f func()) {
	adopt()
	d := &coop{c: c, main: &Task{id: -1, ch: make(chan struct{}, 1), started: true}}
	d.cur = d.main
	mode = d
	c.calls++
	jump(c, c.R("jump/%d", c.calls))
	simhook.Left = limit
	simhook.OnPoint = func(uint32) {
		simhook.Left = opLimit
		if t := d.cur; t != d.main {
			d.stuck = !d.after
			d.give(t, d.main)
			return
		}
		out.Hang = true
		panic(hang{})
	}
	simhook.OnBlock = func(cond func() bool) { d.block(out, cond) }
	simhook.OnGo = func(f func()) {
		d.give(d.cur, newLib(f, d.cur))
	}
	simhook.OnYield = func() {
		if to := d.next(d.cur, true); to != nil {
			d.give(d.cur, to)
		}
	}
	simhook.OnChoice = func(n int) int {
		c.choices++
		return c.R("choice/%d", c.choices).N(n)
	}
	catch(out, f)
	if !out.Hang {
		c.Nums["steps"] += limit - simhook.Left
	}
	if len(libTasks) > 0 && !out.Abort {
		d.after, d.stuck = true, false
		simhook.Left = afterLimit
		catch(out, func() {
			for to := d.next(d.main, true); to != nil && simhook.Left <= afterLimit; to = d.next(d.main, true) {
				d.give(d.main, to)
			}
		})
	}
	d.dead = true
	simhook.Left = simhook.Idle()
	simhook.OnPoint, simhook.OnGo, simhook.OnBlock, simhook.OnYield, simhook.OnChoice = nil, nil, nil, nil, nil
}
