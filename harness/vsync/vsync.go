// Package vsync replaces "sync" in the schedule-perturbed build of the code
// under test. Its locks block on channels, so that a goroutine waiting for one
// counts as durably blocked inside a testing/synctest bubble, and Yield gives
// every other goroutine of the bubble a seeded random chance to run.
package vsync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// --- schedule control -----------------------------------------------------

var (
	active atomic.Bool
	rmu    sync.Mutex
	rng    *rand.Rand
	pol    policy
	Yields atomic.Int64 // yields taken in the current execution
	Total  atomic.Int64
)

type policy struct {
	kind  int
	p     int
	stops [3]int // kind 5: the lock releases after which to stop for long
	n     int    // lock releases so far
}

// Start turns schedule perturbation on for one execution inside a bubble.
func Start(seed uint64) {
	rmu.Lock()
	rng = rand.New(rand.NewPCG(seed, 0x5eed))
	pol = policy{kind: rng.IntN(6), p: 2 + rng.IntN(30)}
	pol.stops = [3]int{rng.IntN(8), rng.IntN(16), rng.IntN(40)}
	rmu.Unlock()
	Yields.Store(0)
	active.Store(true)
}

// Stop turns it off again.
func Stop() {
	active.Store(false)
	Total.Add(Yields.Load())
}

// Steps counts the statements executed while Counting is set.
var (
	Counting atomic.Bool
	Steps    atomic.Int64
	Locks    atomic.Int64 // locks taken while counting
)

// Yield is inserted before every statement of the code under test.
func Yield() {
	if Counting.Load() {
		Steps.Add(1)
	}
	if !active.Load() {
		return
	}
	Yields.Add(1)
	rmu.Lock()
	var d int64
	switch pol.kind {
	case 0: // uniform
		d = 1 + rng.Int64N(64)
	case 1: // mostly run on, now and then a long stop
		d = 1
		if rng.IntN(pol.p) == 0 {
			d = 1 + rng.Int64N(4000)
		}
	case 2: // heavy tail
		d = 1 + rng.Int64N(1<<uint(rng.IntN(13)))
	case 4: // long stops only after releasing a lock
		d = 1 + rng.Int64N(6)
	case 5: // one after the other, but for a few stops after releasing a lock
		d = 1
	default: // bursts: the same goroutine runs on unless it is stopped
		if rng.IntN(pol.p) != 0 {
			rmu.Unlock()
			runtime.Gosched()
			return
		}
		d = 1 + rng.Int64N(1000)
	}
	rmu.Unlock()
	time.Sleep(time.Duration(d))
}

// released is called after a lock was released: what a call knew under the lock
// may be out of date when it takes it again.
func released() {
	if !active.Load() {
		return
	}
	rmu.Lock()
	var d int64
	switch {
	case pol.kind == 4 && rng.IntN(3) == 0:
		d = 1 + rng.Int64N(1<<uint(3+rng.IntN(10)))
	case pol.kind == 5:
		if pol.n == pol.stops[0] || pol.n == pol.stops[1] || pol.n == pol.stops[2] {
			d = 1 + rng.Int64N(8000)
		}
		pol.n++
	}
	rmu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Enter is called by a worker before its first call.
func Enter() {
	rmu.Lock()
	var d int64
	if pol.kind == 5 {
		d = 1500 * rng.Int64N(4)
	}
	rmu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// --- locks ----------------------------------------------------------------

// waiters are served in arrival order, which is one of the legal behaviours
// of sync.Mutex / sync.RWMutex; a lock released with nobody waiting is free for
// whoever comes first.

type Mutex struct {
	g      sync.Mutex
	locked bool
	q      []chan struct{}
}

func (m *Mutex) Lock() {
	Yield()
	if Counting.Load() {
		Locks.Add(1)
	}
	m.g.Lock()
	if !m.locked {
		m.locked = true
		m.g.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, ch)
	m.g.Unlock()
	<-ch
	Yield()
}

func (m *Mutex) TryLock() bool {
	Yield()
	m.g.Lock()
	defer m.g.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	Yield()
	defer released()
	m.g.Lock()
	if !m.locked {
		m.g.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.q) > 0 {
		i := 0
		if active.Load() {
			rmu.Lock()
			i = rng.IntN(len(m.q))
			rmu.Unlock()
		}
		ch := m.q[i]
		m.q = append(m.q[:i:i], m.q[i+1:]...)
		m.g.Unlock()
		close(ch) // ownership handed over
		return
	}
	m.locked = false
	m.g.Unlock()
}

// RWMutex prefers writers exactly as sync.RWMutex does: once a writer waits,
// new readers wait behind it.
type RWMutex struct {
	g       sync.Mutex
	writer  bool
	readers int
	wq, rq  []chan struct{}
}

func (m *RWMutex) RLock() {
	Yield()
	m.g.Lock()
	if !m.writer && len(m.wq) == 0 {
		m.readers++
		m.g.Unlock()
		return
	}
	ch := make(chan struct{})
	m.rq = append(m.rq, ch)
	m.g.Unlock()
	<-ch
	Yield()
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	m.g.Lock()
	defer m.g.Unlock()
	if m.writer || len(m.wq) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	Yield()
	defer released()
	m.g.Lock()
	if m.readers == 0 {
		m.g.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && len(m.wq) > 0 {
		ch := m.wq[0]
		m.wq = m.wq[1:]
		m.writer = true
		m.g.Unlock()
		close(ch)
		return
	}
	m.g.Unlock()
}

func (m *RWMutex) Lock() {
	Yield()
	m.g.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.g.Unlock()
		return
	}
	ch := make(chan struct{})
	m.wq = append(m.wq, ch)
	m.g.Unlock()
	<-ch
	Yield()
}

func (m *RWMutex) TryLock() bool {
	Yield()
	m.g.Lock()
	defer m.g.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	Yield()
	defer released()
	m.g.Lock()
	if !m.writer {
		m.g.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if len(m.rq) > 0 { // readers that waited go first
		for _, ch := range m.rq {
			m.readers++
			close(ch)
		}
		m.rq = nil
		m.g.Unlock()
		return
	}
	if len(m.wq) > 0 {
		ch := m.wq[0]
		m.wq = m.wq[1:]
		m.writer = true
		close(ch)
	}
	m.g.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	Yield()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
