// Package vsim is the runtime of the deterministic simulator. It is mapped
// into /repo's module by a go build overlay and never committed there.
//
// Exactly one registered task runs at a time; it holds the baton until it
// reaches a yield point at which the seeded scheduler (or the recorded
// schedule) hands the baton on. Everything in this package that touches
// shared scheduler state is compiled without race instrumentation and its
// hand-offs are hidden from the race detector, so the detector sees only the
// synchronisation the code under test performs itself.
package vsim

import (
	"math"
	"runtime"
	"strconv"
)

const (
	stRun = iota // runnable or running
	stBlocked
	stSleep
	stPoll
	stDone
	stStall
)

// Task is one simulated caller.
type Task struct {
	ID    int
	wake  chan struct{}
	state int
	until int64 // simulated time, when sleeping
	what  string
	gid   int64
	prio  int
	poll  int64 // clock when it last polled
	base  int64 // clock at the start of the current operation
	ops   int64 // points executed by this task since base
	mark  int64
}

// Preempt is one recorded scheduling decision: at logical clock C task T got
// the baton.
type Preempt struct {
	C int64 `json:"c"`
	T int32 `json:"t"`
}

// Config is the per-run configuration of the scheduler.
type Config struct {
	Seed     uint64
	Strategy int   // 0 never preempt, 1 random walk, 2 priorities (PCT)
	Mean     int64 // mean points between preemptions (random walk)
	SyncPm   int   // chance in 1/1000 of a preemption at sync and I/O points
	Depth    int   // number of priority changes (PCT)
	Horizon  int64 // estimated points in the run (PCT)
	Replay   bool
	Trace    []Preempt // schedule to replay
	OpLimit  int64     // points one operation may take
	RunLimit int64
	NumCPU   int
	PoolHit  int // chance in 1/1000 that a simulated sync.Pool returns an item
}

// Abort is panicked inside tasks to unwind them when the run is over.
type Abort struct{}

// Hang is panicked inside a task whose operation exceeded its step budget.
type Hang struct{ Points int64 }

const maxTrace = 1 << 16

// Recovered wraps the result of recover() in the code under test: panics of
// the simulator itself go on.
func Recovered(v any) any {
	switch v.(type) {
	case Abort, Hang:
		panic(v)
	}

	return v
}

var (
	active    bool
	aborting  bool
	clock     int64
	waits     int64 // how much of it was spent polling
	next      int64 = math.MaxInt64
	cur       *Task
	tasks     []*Task
	cfg       Config
	rng       Rand
	trace     [maxTrace]Preempt
	ntrace    int
	overflow  bool
	rpos      int
	now       int64 // simulated time is now + clock: every point takes a tick
	epoch     int64
	deadlock  string
	stalled   string
	runOver   bool
	changes   [64]int64
	nchange   int
	lowPrio   int
	doneCh    chan struct{}
	live      int
	switches  int64
	decisions int64
	hashv     uint64

	// Probes counts rare conditions reached, by fixed index.
	probes [64]int64
)

// Rand is splitmix64.
type Rand struct{ s uint64 }

//go:norace
func (r *Rand) Seed(s uint64) { r.s = s }

//go:norace
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) N(n int64) int64 {
	if n <= 1 {
		return 0
	}

	return int64(r.U64() % uint64(n))
}

// P is the yield point inserted before every statement of the code under test.
//
//go:norace
func P() {
	clock++
	if clock >= next {
		slow()
	}
}

// onTask reports whether the calling goroutine is the task holding the baton.
//
//go:norace
func onTask() bool { return active && cur != nil && cur.gid == goid() }

//go:norace
func slow() {
	if !active || cur == nil {
		next = math.MaxInt64
		return
	}

	if cur.gid != goid() {
		return
	}

	if aborting {
		return // set again by abortAll; unwinding code runs freely
	}

	checkLimits()
	decide(false)
}

//go:norace
func checkLimits() {
	if clock-cur.base > 0 {
		// points executed by this task since its operation began
		used := cur.ops + (clock - cur.mark)
		if cfg.OpLimit > 0 && used > cfg.OpLimit {
			cur.ops, cur.mark = 0, clock
			panic(Hang{used})
		}
	}
	if cfg.RunLimit > 0 && clock > cfg.RunLimit {
		cfg.RunLimit += cfg.OpLimit
		panic(Hang{clock})
	}
}

// setNext computes the clock at which the running task next enters slow().
//
//go:norace
func setNext() {
	lim := int64(math.MaxInt64)
	if cfg.OpLimit > 0 {
		lim = clock + cfg.OpLimit - (cur.ops + (clock - cur.mark)) + 1
	}
	var n int64
	switch {
	case cfg.Replay:
		n = lim
		for rpos < len(cfg.Trace) && cfg.Trace[rpos].C < clock {
			rpos++
		}
		if rpos < len(cfg.Trace) {
			n = cfg.Trace[rpos].C
		}
	case cfg.Strategy == 1 && live > 1:
		n = clock + 1 + geo(max(1, cfg.Mean)<<thin())
	case cfg.Strategy == 2 && live > 1:
		n = lim
		for i := 0; i < nchange; i++ {
			if changes[i] > clock && changes[i] < n {
				n = changes[i]
			}
		}
	default:
		n = lim
	}
	if n > lim {
		n = lim
	}
	if n <= clock {
		n = clock + 1
	}
	next = n
}

// thin makes preemptions exponentially rarer after every few thousand of
// them, which bounds the cost of a run and the length of its trace.
//
//go:norace
func thin() uint {
	return uint(min(decisions>>12, 30))
}

//go:norace
func geo(mean int64) int64 {
	if mean <= 1 {
		return 0
	}
	// cheap geometric-like: uniform in [0, 2*mean) with an occasional long tail
	v := rng.N(2 * mean)
	if rng.N(8) == 0 {
		v *= 1 + rng.N(8)
	}

	return v
}

// decide is called by the running task at a point where it may lose the baton.
//
//go:norace
func decide(forced bool) {
	decisions++
	t := pick(forced)
	if t == nil {
		t = cur
	}
	if t != cur {
		record(t)
		switchTo(t)
	}
	setNext()
}

//go:norace
func record(t *Task) {
	switches++
	hashv = (hashv ^ uint64(clock)) * 0x100000001b3
	hashv = (hashv ^ uint64(t.ID)) * 0x100000001b3
	if ntrace < maxTrace {
		trace[ntrace] = Preempt{clock, int32(t.ID)}
		ntrace++
	} else {
		overflow = true
	}
}

//go:norace
func runnable(t *Task) bool {
	if t.state == stRun {
		return true
	}
	if t.state == stSleep && t.until <= now+clock {
		return true
	}

	return t.state == stPoll && t.poll < clock-waits
}

// pick chooses the next task; nil keeps the current one.
//
//go:norace
func pick(forced bool) *Task {
	if cfg.Replay {
		if rpos < len(cfg.Trace) && cfg.Trace[rpos].C <= clock {
			id := int(cfg.Trace[rpos].T)
			rpos++
			for _, t := range tasks {
				if t.ID == id && runnable(t) {
					return t
				}
			}
		}
		if !forced && runnable(cur) {
			return nil
		}
		for _, t := range tasks {
			if t != cur && runnable(t) {
				return t
			}
		}
		if runnable(cur) {
			return nil
		}

		return nil
	}

	var n int64
	for _, t := range tasks {
		if runnable(t) && (!forced || t != cur) {
			n++
		}
	}
	if n == 0 {
		return nil
	}

	if cfg.Strategy == 2 {
		for i := 0; i < nchange; i++ {
			if changes[i] > 0 && changes[i] <= clock {
				lowPrio--
				cur.prio = lowPrio
				changes[i] = -1
			}
		}
		var best *Task
		for _, t := range tasks {
			if runnable(t) && (!forced || t != cur) && (best == nil || t.prio > best.prio) {
				best = t
			}
		}

		return best
	}

	k := rng.N(n)
	for _, t := range tasks {
		if runnable(t) && (!forced || t != cur) {
			if k == 0 {
				return t
			}
			k--
		}
	}

	return nil
}

//go:norace
func switchTo(t *Task) {
	me := cur
	me.ops += clock - me.mark
	if t.state == stSleep || t.state == stPoll {
		t.state = stRun
	}
	t.mark = clock
	cur = t
	raceOff()
	t.wake <- struct{}{}
	if me.state != stDone {
		<-me.wake
	}
	raceOn()
	if me.state != stDone && aborting {
		panic(Abort{})
	}
}

// block parks the running task (whose state was set by the caller) until some
// other task makes it runnable again.
//
//go:norace
func block() {
	for {
		if aborting {
			panic(Abort{})
		}
		if cur.state == stRun {
			setNext()
			return
		}
		// Is somebody else runnable?
		any := false
		for _, t := range tasks {
			if t != cur && runnable(t) {
				any = true
			}
		}
		if !any {
			// advance simulated time to the earliest sleeper
			var e *Task
			for _, t := range tasks {
				if t.state == stSleep && (e == nil || t.until < e.until) {
					e = t
				}
			}
			if e == nil {
				if e = unstall(); e == nil {
					failDeadlock()
					return
				}
			} else if e.until > now+clock {
				now = e.until - clock
			}
			if e == cur {
				e.state = stRun
				setNext()
				return
			}
		}
		me := cur
		t := pick(true)
		if t == nil || t == me {
			// replay divergence: fall back to the lowest runnable task
			t = nil
			for _, o := range tasks {
				if o != me && runnable(o) {
					t = o
					break
				}
			}
			if t == nil {
				failDeadlock()
				return
			}
		}
		record(t)
		switchTo(t)
		if cur.state == stRun {
			setNext()
			return
		}
	}
}

//go:norace
func failDeadlock() {
	s := ""
	for _, t := range tasks {
		if t.state == stBlocked || t.state == stPoll {
			s += " task" + strconv.Itoa(t.ID) + ":" + t.what
		}
	}
	deadlock = "all live tasks are blocked:" + s
	aborting = true
	panic(Abort{})
}

// Point is a yield point with an extra chance of preemption, used at I/O and
// synchronisation operations.
//
//go:norace
func Point() {
	clock++
	if !active || aborting || cur == nil || cur.gid != goid() {
		return
	}
	checkLimits()
	if cfg.Replay {
		if clock >= next {
			decide(false)
		}

		return
	}
	if clock >= next || (cfg.SyncPm > 0 && live > 1 && rng.N(1000<<thin()) < int64(cfg.SyncPm)) {
		if cfg.Strategy == 2 && clock < next {
			// a priority change point placed at a synchronisation operation
			lowPrio--
			cur.prio = lowPrio
		}
		decide(false)
	}
}

// Sleep advances the running task's simulated time.
//
//go:norace
func Sleep(d int64) {
	clock++
	if d <= 0 || !onTask() || aborting {
		return
	}
	if live == 1 {
		now += d
		return
	}
	cur.state = stSleep
	cur.until = now + clock + d
	cur.what = "sleep"
	block()
}

// Stall parks the running task until no other task can go on without it.
//
//go:norace
func Stall() {
	clock++
	if !onTask() || aborting {
		return
	}
	probes[2]++
	if live == 1 {
		return
	}
	cur.state = stStall
	cur.what = "stalled"
	block()
}

// unstall lets a stalled task go on now that nothing else can: callers that
// are blocked at this point wait for a stalled one.
//
//go:norace
func unstall() *Task {
	var e *Task
	s := ""
	for _, t := range tasks {
		switch t.state {
		case stStall:
			if e == nil {
				e = t
			}
		case stBlocked, stPoll:
			s += " task" + strconv.Itoa(t.ID) + ":" + t.what
		}
	}
	if e == nil {
		return nil
	}
	if s != "" && stalled == "" {
		stalled = "task" + strconv.Itoa(e.ID) + " waits for storage, and for that:" + s
	}
	e.state = stRun

	return e
}

// BlockOn parks the running task until Wake is called for it. It returns
// false when the calling goroutine is not a task.
//
//go:norace
func BlockOn(what string) bool {
	if !onTask() {
		return false
	}
	if aborting {
		return true
	}
	clock++
	cur.state = stBlocked
	cur.what = what
	probes[0]++
	block()

	return true
}

// Current returns the running task, or nil outside a run.
//
//go:norace
func Current() *Task {
	if !onTask() {
		return nil
	}

	return cur
}

//go:norace
func Active() bool { return active }

//go:norace
func Aborting() bool { return aborting }

// Wake makes a blocked task runnable.
//
//go:norace
func Wake(t *Task) {
	if t.state == stBlocked {
		t.state = stRun
	}
}

// Wait is called in place of a real blocking channel operation.
//
//go:norace
func Wait() {
	if !onTask() {
		runtime.Gosched()
		return
	}
	if aborting {
		panic(Abort{})
	}
	clock++
	waits++
	cur.state = stPoll
	// polling again makes sense only once somebody has got further
	cur.poll = clock - waits
	cur.what = "channel"
	block()
}

// Now is the simulated time in nanoseconds.
//
//go:norace
func Now() int64 { return now + clock }

//go:norace
func Clock() int64 { return clock }

//go:norace
func Epoch() int64 { return epoch }

// NumCPU replaces runtime.NumCPU in the code under test.
//
//go:norace
func NumCPU() int {
	if cfg.NumCPU <= 0 {
		return 2
	}

	return cfg.NumCPU
}

// GOMAXPROCS replaces runtime.GOMAXPROCS in the code under test.
func GOMAXPROCS(int) int { return NumCPU() }

//go:norace
func PoolHit() bool { return rngAux.N(1000) < int64(cfg.PoolHit) }

//go:norace
func PoolPick(n int) int { return int(rngAux.N(int64(n))) }

// rngAux feeds decisions other than scheduling, so that a replay with a
// reduced schedule still draws the same values.
var rngAux Rand

// OpStart resets the step budget of the running task.
//
//go:norace
func OpStart() {
	if cur != nil {
		cur.base, cur.ops, cur.mark = clock, 0, clock
		if cfg.OpLimit > 0 && next > clock+cfg.OpLimit {
			setNext()
		}
	}
}

//go:norace
func Probe(i int) { probes[i]++ }

//go:norace
func Probes() [64]int64 { return probes }

// Result describes a finished run.
type Result struct {
	Points   int64
	Switches int64
	SimTime  int64
	Hash     uint64
	Trace    []Preempt
	Overflow bool
	Deadlock string
	Stalled  string // callers held up by somebody else's stalled read
}

// Begin starts a new simulated process lifetime: recycled objects and Once
// values of the code under test start afresh. Stages executed by Run until
// the next Begin belong to it.
//
//go:norace
func Begin(c Config) {
	cfg = c
	epoch++
	rngAux.Seed(c.Seed ^ 0xa0a0)
	for i := range probes {
		probes[i] = 0
	}
}

// Run executes the bodies as tasks under the configuration and returns when
// all of them have finished.
//
//go:norace
func Run(c Config, bodies []func()) Result {
	cfg = c
	waits = 0
	clock, now, ntrace, rpos, nchange, lowPrio, switches, decisions = 0, 0, 0, 0, 0, 0, 0, 0
	hashv = 0xcbf29ce484222325
	overflow, aborting, deadlock, stalled = false, false, "", ""
	rng.Seed(c.Seed ^ 0x5eed)
	tasks = make([]*Task, 0, 64)
	doneCh = make(chan struct{}, 1)
	live = len(bodies)
	for i := range bodies {
		t := &Task{ID: i, wake: make(chan struct{}), prio: i}
		tasks = tasks[:len(tasks)+1]
		tasks[len(tasks)-1] = t
	}
	if c.Strategy == 2 {
		for i := len(tasks) - 1; i > 0; i-- {
			j := int(rng.N(int64(i + 1)))
			tasks[i].prio, tasks[j].prio = tasks[j].prio, tasks[i].prio
		}
		nchange = c.Depth
		if nchange > len(changes) {
			nchange = len(changes)
		}
		for i := 0; i < nchange; i++ {
			changes[i] = 1 + rng.N(c.Horizon)
		}
	}
	active = true
	if len(bodies) > 0 {
		for i := range bodies {
			spawn(tasks[i], bodies[i])
		}
		first := tasks[0]
		cur = first
		if cfg.Replay {
			if len(cfg.Trace) > 0 && cfg.Trace[0].C == 0 {
				for _, t := range tasks {
					if t.ID == int(cfg.Trace[0].T) {
						cur = t
					}
				}
				rpos = 1
			}
		} else {
			if cfg.Strategy == 2 {
				for _, t := range tasks {
					if t.prio > cur.prio {
						cur = t
					}
				}
			} else if cfg.Strategy == 1 {
				cur = tasks[rng.N(int64(len(tasks)))]
			}
			if cur != first {
				record(cur)
			}
		}
		setNext()
		raceOff()
		cur.wake <- struct{}{}
		<-doneCh
		raceOn()
		RaceAcquire(&endSync)
	}
	active = false
	cur = nil
	next = math.MaxInt64
	tr := make([]Preempt, ntrace)
	for i := 0; i < ntrace; i++ {
		tr[i] = trace[i]
	}

	return Result{clock, switches, now + clock, hashv, tr, overflow, deadlock, stalled}
}

var endSync int64

//go:norace
func spawn(t *Task, body func()) {
	go runTask(t, body)
}

//go:norace
func runTask(t *Task, body func()) {
	raceOff()
	<-t.wake
	raceOn()
	t.gid = goid()
	t.base, t.mark = clock, clock
	if !aborting {
		setNext()
		guarded(body)
	}
	RaceReleaseMerge(&endSync)
	finish(t)
}

// Unhandled, when set, receives panics that escape a task body.
var Unhandled func(v any)

func guarded(body func()) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(Abort); ok {
				return
			}
			if Unhandled != nil {
				Unhandled(v)
				return
			}
			panic(v)
		}
	}()
	body()
}

//go:norace
func finish(t *Task) {
	t.state = stDone
	live--
	waits-- // the end counts as getting further
	if live == 0 {
		raceOff()
		doneCh <- struct{}{}
		raceOn()

		return
	}
	if !aborting {
		// hand over to somebody
		n := pick(true)
		if n == nil || n == t || !runnable(n) {
			n = nil
			for _, o := range tasks {
				if o != t && runnable(o) {
					n = o
					break
				}
			}
		}
		if n == nil {
			var e *Task
			for _, o := range tasks {
				if o.state == stSleep && (e == nil || o.until < e.until) {
					e = o
				}
			}
			if e != nil {
				if e.until > now+clock {
					now = e.until - clock
				}
				n = e
			} else {
				n = unstall()
			}
		}
		if n != nil {
			record(n)
			cur = n
			if n.state == stSleep || n.state == stPoll {
				n.state = stRun
			}
			n.mark = clock
			setNext()
			raceOff()
			n.wake <- struct{}{}
			raceOn()

			return
		}
		s := ""
		for _, o := range tasks {
			if o.state == stBlocked || o.state == stPoll {
				s += " task" + strconv.Itoa(o.ID) + ":" + o.what
			}
		}
		deadlock = "all live tasks are blocked:" + s
		aborting = true
	}
	// unwind the remaining tasks one after another
	for _, o := range tasks {
		if o.state != stDone {
			cur = o
			o.state = stRun
			raceOff()
			o.wake <- struct{}{}
			raceOn()

			return
		}
	}
}

// AbortRun ends the run early: every task is unwound at its next block or
// switch. The calling task should return.
//
//go:norace
func AbortRun() { aborting = true }

// Go replaces a go statement of the code under test: the goroutine becomes a
// task of the current run.
//
//go:norace
func Go(f func()) {
	if !onTask() || len(tasks) == cap(tasks) {
		go f()
		return
	}
	t := &Task{ID: len(tasks), wake: make(chan struct{}), prio: int(rng.N(int64(len(tasks) + 1)))}
	tasks = tasks[:len(tasks)+1]
	tasks[len(tasks)-1] = t
	live++
	spawn(t, f)
	if !cfg.Replay && cfg.Strategy == 1 {
		setNext()
	}
	Point()
}
