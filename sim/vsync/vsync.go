// Package vsync replaces package sync in the code under test. Outside a
// simulated run it behaves like sync with a single caller; during a run every
// blocking operation parks the calling task with the simulator, so that the
// seeded scheduler decides who gets which lock when.
package vsync

import (
	"sync"

	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

type Locker = sync.Locker

// queue is a list of waiting tasks, handled without race instrumentation.
type queue struct{ t []*vsim.Task }

//go:norace
func (q *queue) push(t *vsim.Task) {
	n := make([]*vsim.Task, len(q.t)+1)
	for i := range q.t {
		n[i] = q.t[i]
	}
	n[len(q.t)] = t
	q.t = n
}

//go:norace
func (q *queue) wakeAll() {
	for i := range q.t {
		vsim.Wake(q.t[i])
	}
	q.t = nil
}

//go:norace
func (q *queue) wait(what string) {
	t := vsim.Current()
	if t == nil {
		if vsim.Aborting() {
			return
		}
		panic("vsync: blocking outside a simulated task: " + what)
	}
	q.push(t)
	vsim.BlockOn(what)
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	q    queue
	race int64
}

//go:norace
func (m *Mutex) Lock() {
	vsim.Point()
	for m.held {
		if vsim.Aborting() {
			return
		}
		m.q.wait("mutex")
	}
	m.held = true
	vsim.RaceAcquire(&m.race)
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsim.Point()
	if m.held {
		return false
	}
	m.held = true
	vsim.RaceAcquire(&m.race)

	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if vsim.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	vsim.RaceRelease(&m.race)
	m.held = false
	m.q.wakeAll()
	vsim.Point()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w       bool
	readers int
	waiting int // writers waiting
	q       queue
	rr, rw  int64
}

//go:norace
func (m *RWMutex) Lock() {
	vsim.Point()
	m.waiting++
	for m.w || m.readers > 0 {
		if vsim.Aborting() {
			m.waiting--
			return
		}
		m.q.wait("rwmutex")
	}
	m.waiting--
	m.w = true
	vsim.RaceAcquire(&m.rr)
	vsim.RaceAcquire(&m.rw)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsim.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vsim.RaceAcquire(&m.rr)
	vsim.RaceAcquire(&m.rw)

	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		if vsim.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsim.RaceRelease(&m.rr)
	m.w = false
	m.q.wakeAll()
	vsim.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	vsim.Point()
	for m.w || m.waiting > 0 {
		if vsim.Aborting() {
			return
		}
		m.q.wait("rwmutex (read)")
	}
	m.readers++
	vsim.RaceAcquire(&m.rr)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsim.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	vsim.RaceAcquire(&m.rr)

	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if vsim.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsim.RaceReleaseMerge(&m.rw)
	m.readers--
	m.q.wakeAll()
	vsim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker over RLock and RUnlock.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once performs exactly one action per simulated process lifetime: package
// level Onces start afresh in every run.
type Once struct {
	done  bool
	epoch int64
	m     Mutex
	race  int64
}

//go:norace
func (o *Once) Do(f func()) {
	vsim.Point()
	if e := vsim.Epoch(); o.epoch != e {
		o.epoch, o.done = e, false
		o.m = Mutex{}
	}
	if o.done {
		vsim.RaceAcquire(&o.race)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	vsim.RaceRelease(&o.race)
	o.done = true
}

// OnceFunc is sync.OnceFunc per simulated process lifetime.
func OnceFunc(f func()) func() {
	g := OnceValues(func() (struct{}, struct{}) { f(); return struct{}{}, struct{}{} })

	return func() { g() }
}

// OnceValue is sync.OnceValue per simulated process lifetime.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })

	return func() T { v, _ := g(); return v }
}

// OnceValues is sync.OnceValues per simulated process lifetime.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o  Once
		r1 T1
		r2 T2
	)

	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })

		return r1, r2
	}
}

// Pool hands out recycled values at the simulator's discretion.
type Pool struct {
	New   func() any
	items []*item
	epoch int64
}

// maxItems bounds what a pool holds on to.
const maxItems = 12

type item struct {
	x    any
	race int64
}

//go:norace
func (p *Pool) take() any {
	n := len(p.items)
	if n == 0 || (vsim.Active() && !vsim.PoolHit()) {
		return nil
	}
	i := n - 1
	if vsim.Active() {
		i = vsim.PoolPick(n)
	}
	it := p.items[i]
	rest := make([]*item, n-1)
	k := 0
	for j := 0; j < n; j++ {
		if j != i {
			rest[k] = p.items[j]
			k++
		}
	}
	p.items = rest
	vsim.RaceAcquire(&it.race)
	vsim.Probe(1)

	return it.x
}

//go:norace
func (p *Pool) fresh() {
	if e := vsim.Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

//go:norace
func (p *Pool) Get() any {
	vsim.Point()
	p.fresh()
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}

	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	vsim.Point()
	if x == nil {
		return
	}
	p.fresh()
	it := &item{x: x}
	vsim.RaceRelease(&it.race)
	old := p.items
	if len(old) >= maxItems { // as the garbage collector does to a real pool
		old = old[1:]
	}
	n := make([]*item, len(old)+1)
	for i := range old {
		n[i] = old[i]
	}
	n[len(old)] = it
	p.items = n
}

// Map is sync.Map with yield points around every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)    { vsim.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)            { vsim.Point(); m.m.Store(k, v); vsim.Point() }
func (m *Map) Clear()                    { vsim.Point(); m.m.Clear() }
func (m *Map) Delete(k any)              { vsim.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { vsim.Point(); return m.m.Swap(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsim.Point()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { vsim.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsim.Point()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { vsim.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)    { vsim.Point(); m.m.Range(f) }

// WaitGroup waits for a collection of tasks.
type WaitGroup struct {
	n    int
	q    queue
	race int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	vsim.Point()
	if d < 0 {
		vsim.RaceReleaseMerge(&w.race)
	}
	w.n += d
	if w.n < 0 && !vsim.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsim.Point()
	for w.n > 0 {
		if vsim.Aborting() {
			return
		}
		w.q.wait("waitgroup")
	}
	vsim.RaceAcquire(&w.race)
}

// Go runs f as a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := vsim.Current()
	if t == nil {
		return
	}
	c.q.push(t)
	c.L.Unlock()
	// the wake-up may already have happened between Unlock and here
	for {
		in := false
		for i := range c.q.t {
			if c.q.t[i] == t {
				in = true
			}
		}
		if !in {
			break
		}
		vsim.BlockOn("cond")
		if vsim.Aborting() {
			return
		}
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vsim.Point()
	if len(c.q.t) > 0 {
		t := c.q.t[0]
		c.q.t = c.q.t[1:]
		vsim.Wake(t)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	vsim.Point()
	c.q.wakeAll()
}
