//go:build go1.21

// Package vsync stands in for package sync in instrumented copies of the repository's packages. In controlled threads the
// locks are scheduling points; everywhere else they are the real ones.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if vsched.Point(vsched.KLock, unsafe.Pointer(m)) {
		vsched.Acquire(unsafe.Pointer(m))
		return
	}
	m.real.Lock()
}

func (m *Mutex) Unlock() {
	if vsched.Controlled() {
		vsched.Release(unsafe.Pointer(m))
		vsched.Point(vsched.KUnlock, unsafe.Pointer(m))
		return
	}
	m.real.Unlock()
}

func (m *Mutex) TryLock() bool {
	if vsched.Controlled() {
		panic("vsync: TryLock is not supported in controlled threads")
	}
	return m.real.TryLock()
}

type RWMutex struct {
	real sync.RWMutex
	w, r byte // addresses for the race detector
}

func (m *RWMutex) Lock() {
	if vsched.Point(vsched.KAnnounce, unsafe.Pointer(m)) {
		vsched.Point(vsched.KWait, unsafe.Pointer(m))
		vsched.Acquire(unsafe.Pointer(&m.r))
		vsched.Acquire(unsafe.Pointer(&m.w))
		return
	}
	m.real.Lock()
}

func (m *RWMutex) Unlock() {
	if vsched.Controlled() {
		vsched.Release(unsafe.Pointer(&m.r))
		vsched.Point(vsched.KWUnlock, unsafe.Pointer(m))
		return
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if vsched.Point(vsched.KRLock, unsafe.Pointer(m)) {
		vsched.Acquire(unsafe.Pointer(&m.r))
		return
	}
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	if vsched.Controlled() {
		vsched.ReleaseMerge(unsafe.Pointer(&m.w))
		vsched.Point(vsched.KRUnlock, unsafe.Pointer(m))
		return
	}
	m.real.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if vsched.Controlled() {
		panic("vsync: TryLock is not supported in controlled threads")
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if vsched.Controlled() {
		panic("vsync: TryRLock is not supported in controlled threads")
	}
	return m.real.TryRLock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs its function in the first thread that comes.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		o.done = true
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
