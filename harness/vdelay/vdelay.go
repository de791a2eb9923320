//go:build go1.21

// Package vdelay stands in for package sync in copies of the repository's packages that run in virtual time. Waiting for a
// lock lets virtual time go on, and every operation on a lock by a goroutine that a check has entered is a point at which
// the check can make it wait: everything else that can run then runs before it goes on.
package vdelay

import (
	"sync"
	"time"
	"unsafe"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Once      = sync.Once
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// Ctl is what a check wants of one run.
type Ctl struct {
	mu     sync.Mutex
	counts map[int]int
	delays map[At]time.Duration
	hits   int
	over   bool
	all    bool
}

// At is the N-th point of a goroutine entered under a number.
type At struct{ Who, N int }

func New(delays map[At]time.Duration) *Ctl {
	return &Ctl{counts: map[int]int{}, delays: delays}
}

type entry struct {
	ctl  *Ctl
	who  int
	held int // locks it holds; only its own goroutine uses it
}

// A goroutine carries its entry as its profiler label: the one thing of its own that is quick to look up.

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// Enter says that the calling goroutine, and those it starts, have a number from now on.
func (c *Ctl) Enter(who int) {
	if e := (*entry)(getLabel()); e != nil && e.ctl == c && e.who == who {
		return
	}
	setLabel(unsafe.Pointer(&entry{ctl: c, who: who}))
}

// All makes the operations on locks while another lock is held points, too.
func (c *Ctl) All() { c.all = true }

// Stop ends counting and waiting.
func (c *Ctl) Stop() {
	c.mu.Lock()
	c.over = true
	c.mu.Unlock()
}

// Start begins counting again.
func (c *Ctl) Start() {
	c.mu.Lock()
	c.over = false
	c.mu.Unlock()
}

// Count is how many points there were.
func (c *Ctl) Count(who int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[who]
}

// Hits is how many of the delays took place.
func (c *Ctl) Hits() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.hits
}

func point() {
	e := (*entry)(getLabel())
	if e == nil || e.held > 0 && !e.ctl.all {
		return
	}
	e.ctl.mu.Lock()
	if e.ctl.over {
		e.ctl.mu.Unlock()
		return
	}
	n := e.ctl.counts[e.who]
	e.ctl.counts[e.who]++
	d := e.ctl.delays[At{e.who, n}]
	if d > 0 {
		e.ctl.hits++
	}
	e.ctl.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

// RWMutex lets waiting writers go before new readers, as the real one does.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	queue   []waiter
}

type waiter struct {
	write bool
	ch    chan struct{}
}

func hold(n int) {
	if e := (*entry)(getLabel()); e != nil {
		e.held += n
	}
}

func (m *RWMutex) acquire(write bool) {
	point()
	hold(1)
	m.mu.Lock()
	if !m.writer && len(m.queue) == 0 && (!write || m.readers == 0) {
		m.take(write)
		m.mu.Unlock()
		return
	}
	w := waiter{write, make(chan struct{})}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.ch
}

func (m *RWMutex) take(write bool) {
	if write {
		m.writer = true
	} else {
		m.readers++
	}
}

// wake lets in those that can go: a writer alone, or the readers in front.
func (m *RWMutex) wake() {
	for len(m.queue) > 0 && !m.writer {
		w := m.queue[0]
		if w.write && m.readers > 0 {
			return
		}
		m.queue = m.queue[1:]
		m.take(w.write)
		close(w.ch)
	}
}

func (m *RWMutex) release(write bool) {
	m.mu.Lock()
	if write {
		if !m.writer {
			m.mu.Unlock()
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.writer = false
	} else {
		if m.readers == 0 {
			m.mu.Unlock()
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	}
	m.wake()
	m.mu.Unlock()
	hold(-1)
	point()
}

func (m *RWMutex) try(write bool) bool {
	point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.queue) > 0 || write && m.readers > 0 {
		return false
	}
	m.take(write)
	hold(1)
	return true
}

func (m *RWMutex) Lock()          { m.acquire(true) }
func (m *RWMutex) Unlock()        { m.release(true) }
func (m *RWMutex) RLock()         { m.acquire(false) }
func (m *RWMutex) RUnlock()       { m.release(false) }
func (m *RWMutex) TryLock() bool  { return m.try(true) }
func (m *RWMutex) TryRLock() bool { return m.try(false) }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.acquire(true) }
func (m *Mutex) Unlock()       { m.m.release(true) }
func (m *Mutex) TryLock() bool { return m.m.try(true) }
