// Package engine is the simulator: it runs the tasks of a plan one at a time, decides
// every switch between them, injects callback faults, and records the schedule so
// that a plan replays exactly.
//
// Functions marked norace touch state that is shared by all tasks without any
// happens-before edge. In the race build control is handed over invisibly to the
// race detector, so only simulated locks order the tasks' accesses.
package engine

import (
	"fmt"
	"runtime/debug"
	"strings"

	hook "github.com/zyedidia/generic/simhookverif"
)

// Op is one operation of a task, with the faults and the task switches inside it.
type Op struct {
	K  string `json:"k"`
	A  []int  `json:"a,omitempty"`
	F  int    `json:"f,omitempty"`  // the F-th callback invocation panics
	NA int    `json:"na,omitempty"` // at the NA-th visit, N is executed
	N  *Op    `json:"n,omitempty"`
	MO uint64 `json:"mo,omitempty"` // map iteration order (0: canonical)
	Sw []Sw   `json:"sw,omitempty"`
}

// Sw is a switch to task To after At yields within the operation; B marks the
// choice made when the task blocked on a lock there.
type Sw struct {
	At int  `json:"at"`
	To int  `json:"to"`
	B  bool `json:"b,omitempty"`
}

// Arg returns an argument, 0 if absent.
func (o *Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is everything that determines a run.
type Plan struct {
	Prop  string         `json:"prop"`
	WL    string         `json:"wl"`
	Seed  uint64         `json:"seed"`
	Mode  string         `json:"mode"`
	Cfg   map[string]int `json:"cfg"`
	Setup []*Op          `json:"setup"`
	Tasks [][]*Op        `json:"tasks"`
	Ends  []int          `json:"ends"` // whom to run when a task ends (-1: default)
}

// Violation describes what was broken.
type Violation struct {
	Kind string `json:"kind"` // mismatch, panic, race, hang, deadlock
	What string `json:"what"`
	Task int    `json:"task"`
	Op   string `json:"op"`
	Site string `json:"site,omitempty"`
}

func (v *Violation) String() string {
	return fmt.Sprintf("%s: task %d, op %s: %s", v.Kind, v.Task, v.Op, v.What)
}

// Counters of one run or of many.
const (
	CSwitch = iota // switches at a yield inside an operation
	CSwitchOp
	CLockWait
	CStall
	CPanicRead
	CPanicWrite
	CNested
	CMapOrder
	CEvict
	COps
	CReads
	CWrites
	CAbortedBefore
	CAbortedAfter
	NCounters
)

// CounterNames names them in the evidence.
var CounterNames = [NCounters]string{
	"preemptions_inside_operation", "switches_at_operation_boundary", "lock_waits", "long_stalls",
	"callback_panics_in_reads", "callback_panics_in_writes", "nested_queries", "map_order_shuffles",
	"eviction_callbacks", "operations", "read_operations", "write_operations",
	"aborted_writes_without_effect", "aborted_writes_completed",
}

// Injected is the value of an injected panic.
type Injected struct{ N int }

type abortT struct{}

var abortV = abortT{}

type state uint8

const (
	ready state = iota
	waitLock
	spin
	done
)

// Task is one simulated caller thread.
type Task struct {
	ID    int
	r     *Run
	ch    chan struct{}
	st    state
	stall bool
	wait  *Lock

	op     *Op
	opIdx  int
	swi    int    // next entry of op.Sw
	base   uint64 // hook.Steps - base = yields within the op
	yields uint64 // saved while not running
	cbs    int
	visits int
	fired  bool
	safe   bool
	nested bool
	callAt uint64 // yields at start of the current call
	mo     uint64
	isMain bool
	depth  int
	write  bool

	Data any // workload's own
}

// Run is one simulated execution.
type Run struct {
	Plan   *Plan
	record bool
	rng    Rng
	strat  int
	mean   int
	stallP int
	tasks  []*Task
	main   *Task
	cur    *Task
	back   chan struct{}
	endTok byte

	Viol    *Violation
	aborted bool
	Count   [NCounters]uint64
	Digest  uint64
	trace   bool
	Trace   []string
	traps   [8]uint32
	ntraps  int
	nextSw  uint64 // step of next random preemption
	budget  uint64
	Inst    Instance
	races0  int
}

// Instance is a workload bound to a run.
type Instance interface {
	// Setup runs before the tasks start, Exec executes one operation of a task, Final
	// runs after all tasks ended.
	Setup(t *Task, op *Op)
	Exec(t *Task, op *Op)
	Final(t *Task)
}

// Readier is implemented by workloads that finish their setup before the tasks start.
type Readier interface{ Ready(t *Task) }

// StepBudget bounds the yields of one library call.
const StepBudget = 500_000

// BigBudget is that of runs with huge containers.
const BigBudget = 20_000_000

var cur *Run

// PairHit marks pairs (statement preempted, statement resumed) when allocated.
var PairHit []uint64

const never = ^uint64(0)

// SetBudget changes the step budget of a call for this run.
func (r *Run) SetBudget(n uint64) { r.budget = n }

//go:norace
func getcur() *Run { return cur }

// Execute runs a plan. With record, scheduling decisions are drawn from the plan's
// seed and written into the plan; otherwise they are taken from the plan.
func Execute(p *Plan, record, trace bool, mk func(*Run) Instance) *Run {
	r := &Run{Plan: p, record: record, rng: Rng{Mix(p.Seed, 0x5ced)}, trace: trace, back: make(chan struct{})}
	r.budget = StepBudget
	for k, v := range p.Cfg {
		if strings.HasSuffix(k, "big") && v > 0 {
			r.budget = BigBudget
		}
	}
	r.Digest = 14695981039346656037
	r.races0 = raceErrors()
	cur = r
	hook.Slow, hook.OrderSeed, hook.Block, hook.Wake = slow, orderSeed, block, wake
	hook.Steps = 0
	r.main = &Task{ID: -1, r: r, isMain: true}
	r.cur = r.main
	for i := range p.Tasks {
		r.tasks = append(r.tasks, &Task{ID: i, r: r, ch: make(chan struct{})})
	}
	if len(p.Ends) != len(p.Tasks) {
		p.Ends = make([]int, len(p.Tasks))
		for i := range p.Ends {
			p.Ends[i] = -1
		}
	}
	if record {
		r.chooseStrategy()
	}
	r.guard(r.main, func() {
		r.main.begin(&Op{K: "init"}, 0)
		r.Inst = mk(r)
		for i, op := range p.Setup {
			r.main.begin(op, i)
			r.Inst.Setup(r.main, op)
		}
		if x, ok := r.Inst.(Readier); ok {
			x.Ready(r.main)
		}
	})
	if r.Viol == nil && len(r.tasks) > 0 {
		for i := range r.tasks {
			go r.taskMain(r.tasks[i])
		}
		first := 0
		if record {
			first = r.rng.Intn(len(r.tasks))
			p.Cfg["first"] = first
		} else {
			first = p.Cfg["first"] % len(r.tasks)
		}
		r.start(first)
		raceAcquire(&r.endTok)
	}
	r.cur = r.main
	hook.Next = never
	clearTraps(r)
	if r.Viol == nil {
		r.guard(r.main, func() {
			r.main.begin(&Op{K: "final"}, 0)
			r.Inst.Final(r.main)
		})
	}
	if r.Viol == nil && raceErrors() > r.races0 {
		r.Viol = &Violation{Kind: "race", What: "data race (see the race report on standard error)", Task: -1, Op: "?"}
	}
	hook.Next = never
	hook.Slow, hook.OrderSeed, hook.Block, hook.Wake = nil, nil, nil, nil
	cur = nil
	return r
}

//go:norace
func (r *Run) start(first int) {
	t := r.tasks[first]
	r.cur = t
	t.base = hook.Steps
	raceOff()
	t.ch <- struct{}{}
	<-r.back
	raceOn()
}

func (r *Run) chooseStrategy() {
	switch x := r.rng.Intn(16); {
	case x < 2:
		r.strat, r.mean = 0, 0 // switches at operation boundaries and lock waits only
	case x < 11:
		r.strat = 1
		r.mean = r.rng.Pick(1, 2, 3, 5, 8, 15, 30, 60, 150, 500)
	default:
		r.strat = 2
		r.mean = r.rng.Pick(50, 300, 2000)
		r.ntraps = 1 + r.rng.Intn(len(r.traps)-1)
		for i := 0; i < r.ntraps; i++ {
			r.traps[i] = pickSite(&r.rng)
		}
	}
	r.stallP = r.rng.Pick(0, 0, 20, 6, 3)
}

// pickSite prefers statements this process has already reached.
func pickSite(g *Rng) uint32 {
	n := len(hook.Sites)
	// deterministic per run: only the seed decides, so the prefix of the site table
	// that belongs to the property's packages is chosen by SiteFilter.
	if len(SiteFilter) > 0 {
		return SiteFilter[g.Intn(len(SiteFilter))]
	}
	return uint32(g.Intn(n))
}

// SiteFilter restricts targeted preemption to the statements of a property's files.
var SiteFilter []uint32

//go:norace
func clearTraps(r *Run) {
	for i := 0; i < r.ntraps; i++ {
		hook.Trap[r.traps[i]] = false
	}
}

//go:norace
func setTraps(r *Run) {
	for i := 0; i < r.ntraps; i++ {
		hook.Trap[r.traps[i]] = true
	}
}

func (r *Run) guard(t *Task, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if x == any(abortV) {
				return
			}
			r.fail(t, "panic", fmt.Sprintf("%v%s", x, frames(debug.Stack())))
		}
	}()
	f()
}

//go:norace
func (r *Run) fail(t *Task, kind, what string) {
	if r.Viol == nil {
		v := &Violation{Kind: kind, What: what, Task: t.ID}
		if t.op != nil {
			v.Op = fmt.Sprintf("%d %s%v", t.opIdx, t.op.K, t.op.A)
		}
		r.Viol = v
	}
	r.aborted = true
	hook.Next = 0
}

func frames(stack []byte) string {
	var out []string
	for _, l := range strings.Split(string(stack), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 || strings.Contains(l, "__") && strings.Contains(l, ".go:") && strings.Contains(l, "/src/") {
			if j := strings.LastIndexByte(l, '/'); j >= 0 {
				l = strings.ReplaceAll(l[j+1:], "__", "/")
			}
			if j := strings.IndexByte(l, ' '); j >= 0 {
				l = l[:j]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

func (r *Run) taskMain(t *Task) {
	raceOff()
	<-t.ch
	raceOn()
	r.guard(t, func() {
		for i, op := range r.Plan.Tasks[t.ID] {
			t.begin(op, i)
			r.Inst.Exec(t, op)
		}
	})
	raceReleaseMerge(&r.endTok)
	r.finish(t)
}

// begin starts an operation: a switch point.
//
//go:norace
func (t *Task) begin(op *Op, i int) {
	r := t.r
	t.op, t.opIdx, t.swi = op, i, 0
	t.cbs, t.visits, t.fired, t.nested, t.safe = 0, 0, false, false, false
	t.base = hook.Steps
	t.callAt = 0
	t.yields = 0
	t.mo = op.MO
	t.depth = 0
	t.write = false
	r.Count[COps]++
	r.mixDigest(uint64(t.ID)<<32 ^ uint64(i) ^ hashOp(op))
	if t.isMain {
		hook.Next = never
		t.arm(hook.Steps + r.budget)
		return
	}
	if r.aborted {
		panic(abortV)
	}
	if r.record {
		op.Sw = nil
		if r.rng.P(1, 3) {
			if to := r.pick(t, false); to != nil && to != t {
				r.recordSw(t, to, false)
				r.Count[CSwitchOp]++
				r.switchTo(t, to)
			}
		}
		r.rearm(t)
		return
	}
	r.replayPoint(t)
}

//go:norace
func hashOp(op *Op) uint64 {
	h := HashStr(op.K)
	for _, a := range op.A {
		h = (h ^ uint64(a)) * 1099511628211
	}
	return h ^ uint64(op.F)<<40 ^ uint64(op.NA)<<50 ^ op.MO
}

//go:norace
func (t *Task) arm(n uint64) { hook.Next = n }

//go:norace
func (r *Run) mixDigest(x uint64) {
	r.Digest = (r.Digest ^ x) * 1099511628211
	r.Digest ^= r.Digest >> 29
}

// rearm sets the next trap after (re)gaining control in record mode.
//
//go:norace
func (r *Run) rearm(t *Task) {
	limit := t.base + t.callAt + r.budget
	n := limit
	switch r.strat {
	case 1:
		n = hook.Steps + uint64(r.rng.Geo(r.mean))
	case 2:
		n = hook.Steps + uint64(r.rng.Geo(r.mean))
		setTraps(r)
	}
	if n > limit {
		n = limit
	}
	hook.Next = n
}

// slow is reached from a yield point.
//
//go:norace
func slow(site uint32) {
	r := cur
	if r == nil {
		return
	}
	t := r.cur
	if r.aborted {
		panic(abortV)
	}
	if hook.Steps-t.base-t.callAt >= r.budget {
		r.fail(t, "hang", fmt.Sprintf("call did not finish within %d steps (at %s)", r.budget, siteName(site)))
		panic(abortV)
	}
	if t.isMain {
		return
	}
	if r.record {
		if hook.Steps < hook.Next && r.rng.P(1, 2) {
			return // targeted site, coin says no
		}
		if to := r.pick(t, true); to != nil && to != t {
			r.recordSw(t, to, false)
			r.Count[CSwitch]++
			r.mixDigest(uint64(site)<<8 ^ uint64(to.ID))
			if r.trace {
				r.tr(t, "preempted at "+siteName(site)+" -> task "+itoa(to.ID))
			}
			r.switchSite(t, to, site)
		}
		r.rearm(t)
		return
	}
	for t.swi < len(t.op.Sw) && uint64(t.op.Sw[t.swi].At) < hook.Steps-t.base {
		t.swi++
	}
	if t.swi < len(t.op.Sw) {
		s := t.op.Sw[t.swi]
		if uint64(s.At) == hook.Steps-t.base && !s.B {
			t.swi++
			if to := r.runnable(s.To); to != nil && to != t {
				r.Count[CSwitch]++
				r.mixDigest(uint64(site)<<8 ^ uint64(to.ID))
				if r.trace {
					r.tr(t, "preempted at "+siteName(site)+" -> task "+itoa(to.ID))
				}
				r.switchSite(t, to, site)
			}
		}
	}
	r.armReplay(t)
}

//go:norace
func (r *Run) switchSite(t, to *Task, site uint32) {
	r.switchTo(t, to)
	if PairHit != nil {
		// the statement this task resumes at is the one it was preempted at; pair it
		// with the statement the other side was stopped at
		k := uint64(site)*uint64(len(hook.Sites)) + uint64(lastSite)
		PairHit[k>>6] |= 1 << (k & 63)
	}
	lastSite = site
}

var lastSite uint32

//go:norace
func itoa(i int) string {
	if i < 0 {
		return "main"
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return fmt.Sprint(i)
}

func siteName(s uint32) string {
	if int(s) < len(hook.Sites) {
		return hook.Sites[s]
	}
	return "?"
}

// replayPoint handles the operation boundary in replay.
//
//go:norace
func (r *Run) replayPoint(t *Task) {
	for t.swi < len(t.op.Sw) && t.op.Sw[t.swi].At == 0 && !t.op.Sw[t.swi].B {
		s := t.op.Sw[t.swi]
		t.swi++
		if to := r.runnable(s.To); to != nil && to != t {
			r.Count[CSwitchOp]++
			r.switchTo(t, to)
		}
	}
	r.armReplay(t)
}

//go:norace
func (r *Run) armReplay(t *Task) {
	n := t.base + t.callAt + r.budget
	if t.op != nil {
		for i := t.swi; i < len(t.op.Sw); i++ {
			if s := t.op.Sw[i]; !s.B {
				if x := t.base + uint64(s.At); x < n {
					n = x
				}
				break
			}
		}
	}
	hook.Next = n
}

//go:norace
func (r *Run) recordSw(t, to *Task, blocked bool) {
	t.op.Sw = append(t.op.Sw, Sw{int(hook.Steps - t.base), to.ID, blocked})
}

//go:norace
func (r *Run) runnable(id int) *Task {
	if id < 0 || id >= len(r.tasks) {
		return nil
	}
	if t := r.tasks[id]; t.st == ready {
		return t
	}
	return nil
}

// pick chooses the next task at random; self may be chosen if it is ready.
//
//go:norace
func (r *Run) pick(self *Task, mayStall bool) *Task {
	if mayStall && r.stallP > 0 && !self.stall && r.rng.P(1, r.stallP) {
		for _, t := range r.tasks {
			if t != self && t.st == ready && !t.stall { // somebody else can go on
				self.stall = true
				r.Count[CStall]++
				break
			}
		}
	}
	n := 0
	for _, t := range r.tasks {
		if t.st == ready && !t.stall {
			n++
		}
	}
	if n == 0 {
		for _, t := range r.tasks {
			t.stall = false
			if t.st == ready {
				n++
			}
		}
		if n == 0 {
			return nil
		}
	}
	k := r.rng.Intn(n)
	for _, t := range r.tasks {
		if t.st == ready && !t.stall {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

// next chooses in replay: the recorded task if it can run, else the next ready one.
//
//go:norace
func (r *Run) nextDefault(self *Task) *Task {
	n := len(r.tasks)
	for d := 1; d <= n; d++ {
		if t := r.tasks[(self.ID+d)%n]; t.st == ready {
			return t
		}
	}
	return nil
}

// switchTo gives control to another task and returns when it comes back.
//
//go:norace
func (r *Run) switchTo(t, to *Task) {
	t.yields = hook.Steps - t.base
	r.resume(to)
	raceOff()
	to.ch <- struct{}{}
	<-t.ch
	raceOn()
	if r.aborted {
		panic(abortV)
	}
}

// resume prepares the bookkeeping for a task about to run.
//
//go:norace
func (r *Run) resume(to *Task) {
	r.cur = to
	to.base = hook.Steps - to.yields
	if r.strat == 2 {
		clearTraps(r)
	}
	if r.aborted {
		hook.Next = 0
	} else if r.record {
		r.rearm(to)
	} else {
		r.armReplay(to)
	}
}

// finish ends a task.
//
//go:norace
func (r *Run) finish(t *Task) {
	t.st = done
	var to *Task
	if r.aborted {
		for _, x := range r.tasks {
			if x.st != done {
				x.st = ready
				to = x
			}
		}
	} else {
		if r.record {
			to = r.pick(t, false)
			if to != nil {
				r.Plan.Ends[t.ID] = to.ID
			}
		} else {
			to = r.runnable(r.Plan.Ends[t.ID])
			if to == nil {
				to = r.nextDefault(t)
			}
		}
		if to == nil {
			for _, x := range r.tasks {
				if x.st != done { // everybody left waits
					r.fail(x, "deadlock", "all remaining tasks wait for a lock")
					x.st = ready
					to = x
				}
			}
		}
	}
	if to == nil {
		raceOff()
		r.back <- struct{}{}
		raceOn()
		return
	}
	r.resume(to)
	raceOff()
	to.ch <- struct{}{}
	raceOn()
}

// park blocks the running task in state st until it is made ready again.
//
//go:norace
func (r *Run) park(t *Task, st state) {
	t.st = st
	r.Count[CLockWait]++
	var to *Task
	if r.record {
		to = r.pick(t, false)
		if to != nil {
			r.recordSw(t, to, true)
		}
	} else {
		at := hook.Steps - t.base
		for i := t.swi; i < len(t.op.Sw); i++ {
			if s := t.op.Sw[i]; s.B && uint64(s.At) == at {
				to = r.runnable(s.To)
				// consume it
				if i == t.swi {
					t.swi++
				}
				break
			}
		}
		if to == nil {
			to = r.nextDefault(t)
		}
	}
	if to == nil {
		r.fail(t, "deadlock", "all tasks wait for a lock")
		t.st = ready
		panic(abortV)
	}
	r.switchTo(t, to)
}

//go:norace
func block() {
	r := cur
	if r == nil || r.cur.isMain {
		panic("simulated lock: deadlock outside the tasks")
	}
	r.park(r.cur, spin)
}

//go:norace
func wake() {
	r := cur
	if r == nil {
		return
	}
	for _, t := range r.tasks {
		if t.st == spin {
			t.st = ready
		}
	}
}

//go:norace
func orderSeed() uint64 {
	r := cur
	if r == nil || r.cur == nil || r.cur.mo == 0 {
		return 0
	}
	r.Count[CMapOrder]++
	x := Rng{r.cur.mo}
	r.cur.mo = x.U64() | 1<<63
	return r.cur.mo
}

// tr appends to the trace.
//
//go:norace
func (r *Run) tr(t *Task, s string) {
	r.Trace = append(r.Trace, "step "+fmt.Sprint(hook.Steps)+" task "+itoa(t.ID)+": "+s)
}

// Tracef records a line for the replay's log.
//
//go:norace
func (t *Task) Tracef(f string, a ...any) {
	if t.r.trace && !t.r.aborted {
		t.r.tr(t, fmt.Sprintf(f, a...))
	}
}

// Tracing says whether a trace is wanted.
//
//go:norace
func (t *Task) Tracing() bool { return t.r.trace }

// Add counts an event.
//
//go:norace
func (t *Task) Add(c int, n uint64) { t.r.Count[c] += n }

// Fail reports a violation and ends the run.
func (t *Task) Fail(f string, a ...any) {
	t.r.fail(t, "mismatch", fmt.Sprintf(f, a...))
	panic(abortV)
}

// Call executes a library call, recovering its panic. The step budget is per call.
func (t *Task) Call(f func()) (pv any, panicked bool) {
	t.callBegin()
	defer func() {
		if x := recover(); x != nil {
			if x == any(abortV) {
				panic(x)
			}
			t.callEnd()
			pv, panicked = x, true
			if _, ok := x.(Injected); !ok {
				pv = fmt.Sprintf("%v%s", x, frames(debug.Stack()))
			}
		}
	}()
	f()
	t.callEnd()
	return nil, false
}

//go:norace
func (t *Task) callBegin() {
	if t.depth == 0 {
		t.callAt = hook.Steps - t.base
		if hook.Next != 0 {
			if t.isMain || !t.r.record {
				t.r.armMain(t)
			} else if l := t.base + t.callAt + t.r.budget; t.r.strat == 0 {
				hook.Next = l
			}
		}
	}
	t.depth++
}

//go:norace
func (r *Run) armMain(t *Task) {
	if t.isMain {
		hook.Next = hook.Steps + r.budget
		return
	}
	r.armReplay(t)
}

//go:norace
func (t *Task) callEnd() { t.depth-- }

// Must executes a call that must not panic, except for an injected fault; it returns
// true if the fault hit.
func (t *Task) Must(name string, f func()) bool {
	pv, p := t.Call(f)
	if !p {
		return false
	}
	if _, ok := pv.(Injected); ok {
		if t.write {
			t.Add(CPanicWrite, 1)
		} else {
			t.Add(CPanicRead, 1)
		}
		t.Tracef("%s aborted by injected callback panic", name)
		return true
	}
	t.r.fail(t, "panic", fmt.Sprintf("%s panicked: %v", name, pv))
	panic(abortV)
}

// SetWrite classifies the running operation for the fault counters.
func (t *Task) SetWrite(w bool) {
	t.write = w
	if w {
		t.Add(CWrites, 1)
	} else {
		t.Add(CReads, 1)
	}
}

// CB is called at the start of every callback the library invokes.
func CB() {
	t := curTask()
	if t == nil || t.op == nil || t.safe {
		return
	}
	t.cbs++
	if t.op.F != 0 && t.cbs == t.op.F && !t.fired {
		t.fired = true
		panic(Injected{t.cbs})
	}
}

//go:norace
func curTask() *Task {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Quiet disables the callback faults of the running operation, so that its effect can
// be inspected.
func (t *Task) Quiet() { t.fired = true }

// Safe runs f without callback faults; the callbacks in it do not count.
func (t *Task) Safe(f func()) {
	old := t.safe
	t.safe = true
	f()
	t.safe = old
}

// Own counts the steps of the running operation that this task made itself.
//
//go:norace
func (t *Task) Own() uint64 { return hook.Steps - t.base }

// Fired says whether the operation's fault has happened.
func (t *Task) Fired() bool { return t.fired }

// Visit is called by every visitor; it is a callback, and the place where a nested
// query may run.
func (t *Task) Visit() {
	CB()
	t.visits++
	if t.op.N != nil && !t.nested && t.visits == t.op.NA {
		t.nested = true
		t.Add(CNested, 1)
		t.r.Inst.(Nester).Nested(t, t.op.N)
	}
}

// Nester is implemented by workloads with nested queries.
type Nester interface{ Nested(t *Task, op *Op) }

// Sub is a view of the run with a plan of its own, for making an instance within another.
func (r *Run) Sub(p *Plan) *Run { return &Run{Plan: p, main: r.main} }

// As makes t the task that the instance is made by.
func (r *Run) As(t *Task) { r.main = t }

// Main returns the pseudo task of setup and final phases.
func (r *Run) Main() *Task { return r.main }

// Task returns task i.
func (r *Run) Task(i int) *Task { return r.tasks[i] }

// Cfg reads a knob.
func (r *Run) Cfg(k string) int { return r.Plan.Cfg[k] }

// Lock is a simulated readers-writer lock: it blocks through the scheduler and is
// the only thing that orders tasks for the happens-before oracle.
type Lock struct {
	w    bool
	n    int
	a, b byte
}

//go:norace
func (t *Task) Lock(l *Lock) {
	if !t.isMain {
		for l.w || l.n > 0 {
			t.wait = l
			t.r.park(t, waitLock)
		}
	}
	l.w = true
	raceAcquire(&l.a)
	raceAcquire(&l.b)
}

//go:norace
func (t *Task) Unlock(l *Lock) {
	raceRelease(&l.a)
	l.w = false
	t.r.wakeLock(l)
}

//go:norace
func (t *Task) RLock(l *Lock) {
	if !t.isMain {
		for l.w {
			t.wait = l
			t.r.park(t, waitLock)
		}
	}
	l.n++
	raceAcquire(&l.a)
}

//go:norace
func (t *Task) RUnlock(l *Lock) {
	raceReleaseMerge(&l.b)
	l.n--
	t.r.wakeLock(l)
}

//go:norace
func (r *Run) wakeLock(l *Lock) {
	for _, t := range r.tasks {
		if t.st == waitLock && t.wait == l {
			t.st = ready
			t.wait = nil
		}
	}
}
