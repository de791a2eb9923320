//go:build go1.21

// Package vsched runs threads under a controlled scheduler and explores all their schedules. Threads stop before every
// synchronization operation; one thread runs at a time. Hand-over between threads is hidden from the race detector, which
// therefore sees exactly the order made by the code's own locks.
package vsched

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

type Kind byte

const (
	kStart Kind = iota
	KLock
	KUnlock
	KAnnounce // a writer tells readers to wait
	KWait     // a writer waits for readers
	KWUnlock
	KRLock
	KRUnlock
	KBegin // a call begins
	KEnd   // a call ends
	KAtomic
)

var kindNames = [...]string{"start", "lock", "unlock", "wlock", "wlock-wait", "wunlock", "rlock", "runlock", "begin", "end", "atomic"}

type op struct {
	kind Kind
	obj  unsafe.Pointer
	name string
}

// independent: the order of two operations of different threads does not matter.
func independent(a, b op) bool {
	if a.kind == kStart || b.kind == kStart {
		return true
	}
	if a.kind >= KBegin && a.kind <= KEnd || b.kind >= KBegin && b.kind <= KEnd {
		return !(a.kind == KBegin && b.kind == KEnd || a.kind == KEnd && b.kind == KBegin)
	}
	if a.obj != b.obj {
		return true
	}
	r := func(k Kind) bool { return k == KRLock || k == KRUnlock }
	if r(a.kind) && r(b.kind) {
		return true
	}
	return a.kind == KAnnounce && b.kind == KRUnlock || a.kind == KRUnlock && b.kind == KAnnounce
}

// together: two dependent operations of different threads can both be possible in one state.
func together(a, b op) bool {
	if a.kind >= KBegin || b.kind >= KBegin {
		return true
	}
	return a.kind == KLock && b.kind == KLock || a.kind == KAnnounce && b.kind == KAnnounce || a.kind == KAnnounce && b.kind == KRLock || a.kind == KRLock && b.kind == KAnnounce
}

type event struct {
	tid      int
	op       op
	finished bool
	panicked string
}

// Call is one call made by a thread.
type Call struct {
	Thread     int
	Name       string
	Begin, End int
	Out        interface{}
}

func (c Call) String() string {
	return fmt.Sprintf("thread %d: %s [%d,%d] = %v", c.Thread, c.Name, c.Begin, c.End, c.Out)
}

// T is a controlled thread. Only its own goroutine uses it while it runs.
type T struct {
	ID      int
	events  chan event
	token   chan bool
	aborted bool
	ended   bool
	calls   []Call
	clock   int // sent along with the token
	clocks  chan int
}

// point stops before an operation until the scheduler lets it happen.
func (t *T) point(o op) {
	if t.aborted {
		return
	}
	raceDisable()
	t.events <- event{tid: t.ID, op: o}
	now := <-t.clocks
	raceEnable()
	if now < 0 {
		t.aborted = true
		runtime.Goexit()
	}
	t.clock = now
}

// Do makes a call; calls of all threads make the history.
func (t *T) Do(name string, f func() interface{}) {
	t.point(op{kind: KBegin, name: name})
	b := t.clock
	out := f()
	t.point(op{kind: KEnd, name: name})
	t.calls = append(t.calls, Call{t.ID, name, b, t.clock, out})
}

// Point is a scheduling point of the thread running now, if it is a controlled one.
func Point(k Kind, obj unsafe.Pointer) bool {
	t := current()
	if t == nil {
		return false
	}
	t.point(op{kind: k, obj: obj})
	return true
}

// Controlled says that the running goroutine is a controlled thread.
func Controlled() bool { return current() != nil }

// ---- goroutines to threads

// The thread is kept where profiler labels of a goroutine are kept; nothing else uses them here. The list in front makes
// it an empty set of labels for whoever prints them.
type mark struct {
	list []struct{ key, value string }
	t    *T
}

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:norace
func current() *T {
	p := (*mark)(getLabel())
	if p == nil {
		return nil
	}
	return p.t
}

func register(t *T) {
	raceDisable()
	setLabel(unsafe.Pointer(&mark{t: t}))
	raceEnable()
}

func unregister() {
	raceDisable()
	setLabel(nil)
	raceEnable()
}

// ---- exploration

type lockState struct {
	held, pending bool
	readers       int
}

// node is a state on the path being explored.
type node struct {
	enabled   []int
	sleep     map[int]bool // explored already, here or in an equivalent order
	backtrack map[int]bool // to be explored
	chosen    int
}

// step is a step of the execution.
type step struct {
	t     int
	o     op
	clock []int // for every thread the last step of it that must come before, this one included
}

// Scenario is what is explored: threads on fresh objects, and a check of the finished execution.
type Scenario struct {
	Name string
	// Setup makes the objects and the threads' bodies; check gets the history ("" is fine).
	Setup func() (threads []func(t *T), check func(h []Call) string)
}

type Stats struct {
	Schedules, Pruned, Steps int
	MaxDepth                 int
	Complete                 bool
}

// Explore runs all schedules (one of each class of equivalent ones). It stops at the first failure.
func Explore(sc Scenario, stop func() bool, visit func(schedule string)) (st Stats, failure string) {
	var stack []node
	for {
		if stop() {
			return st, ""
		}
		if fail := execute(sc, &stack, &st, visit); fail != "" {
			return st, fail
		}
		for {
			n := len(stack)
			if n == 0 {
				st.Complete = true
				return st, ""
			}
			top := &stack[n-1]
			top.sleep[top.chosen] = true
			top.chosen = -1
			for _, i := range top.enabled {
				if top.backtrack[i] && !top.sleep[i] {
					top.chosen = i
					break
				}
			}
			if top.chosen >= 0 {
				break
			}
			stack = stack[:n-1]
		}
	}
}

// execute runs one schedule: the stack's choices, then the first choice that is not asleep. Where two operations could
// have come in the other order, the state before the first is marked for another visit (dynamic partial order reduction).
func execute(sc Scenario, stack *[]node, st *Stats, visit func(string)) (failure string) {
	bodies, check := sc.Setup()
	n := len(bodies)
	events := make(chan event)
	threads := make([]*T, n)
	pending := make([]op, n)
	done := make([]bool, n)
	joined := make(chan struct{}, n)
	var trail []string
	for i, f := range bodies {
		t := &T{ID: i, events: events, clocks: make(chan int)}
		threads[i] = t
		go run(t, f, joined)
		raceDisable()
		ev := <-events
		raceEnable()
		pending[i] = ev.op
	}
	locks := map[unsafe.Pointer]*lockState{}
	get := func(p unsafe.Pointer) *lockState {
		l := locks[p]
		if l == nil {
			l = &lockState{}
			locks[p] = l
		}
		return l
	}
	ok := func(o op) bool {
		switch o.kind {
		case KLock:
			return !get(o.obj).held
		case KAnnounce:
			return !get(o.obj).pending
		case KWait:
			return get(o.obj).readers == 0
		case KRLock:
			return !get(o.obj).pending
		}
		return true
	}
	abort := func() {
		for i, t := range threads {
			if !done[i] {
				raceDisable()
				t.clocks <- -1
				raceEnable()
				<-joined
			}
		}
	}
	var steps []step
	clocks := make([][]int, n)
	for i := range clocks {
		clocks[i] = make([]int, n)
	}
	// mark looks for the last step from..to that could have come after the operation p waits with
	mark := func(p, from, to int) {
		for k := from; k >= to; k-- {
			x := &steps[k]
			if x.t == p || k+1 <= clocks[p][x.t] || independent(x.o, pending[p]) || !together(x.o, pending[p]) {
				continue
			}
			nd := &(*stack)[k]
			for _, i := range nd.enabled {
				if i == p {
					nd.backtrack[p] = true
					return
				}
			}
			for _, i := range nd.enabled {
				nd.backtrack[i] = true
			}
			return
		}
	}
	sleep := map[int]bool{}
	for depth := 0; ; depth++ {
		var enabled []int
		left := 0
		for i := range threads {
			if done[i] {
				continue
			}
			left++
			if ok(pending[i]) {
				enabled = append(enabled, i)
			}
		}
		if left == 0 {
			break
		}
		if len(enabled) == 0 {
			s := "deadlock:"
			for i := range threads {
				if !done[i] {
					s += fmt.Sprintf(" thread %d waits for %s;", i, kindNames[pending[i].kind])
				}
			}
			failure = s + " after " + strings.Join(trail, " ")
			abort()
			return failure
		}
		if depth >= len(*stack) {
			nd := node{sleep: sleep, backtrack: map[int]bool{}, chosen: -1, enabled: enabled}
			for _, i := range enabled {
				if !sleep[i] {
					nd.chosen = i
					nd.backtrack[i] = true
					break
				}
			}
			if nd.chosen < 0 {
				// only schedules seen before lie below
				st.Pruned++
				abort()
				return ""
			}
			*stack = append(*stack, nd)
		}
		nd := &(*stack)[depth]
		c := nd.chosen
		if done[c] || !ok(pending[c]) || len(enabled) != len(nd.enabled) {
			panic("vsched: a schedule cannot be repeated: the code behaves differently in " + sc.Name)
		}
		o := pending[c]
		next := map[int]bool{}
		for u, asleep := range nd.sleep {
			if asleep && u != c && independent(pending[u], o) {
				next[u] = true
			}
		}
		sleep = next
		l := (*lockState)(nil)
		if o.obj != nil {
			l = get(o.obj)
		}
		switch o.kind {
		case KLock:
			l.held = true
		case KUnlock:
			if !l.held {
				failure = "unlock of an unlocked mutex"
			}
			l.held = false
		case KAnnounce:
			l.pending = true
		case KWait:
			l.held = true
		case KWUnlock:
			if !l.held {
				failure = "unlock of an unlocked lock"
			}
			l.held, l.pending = false, false
		case KRLock:
			l.readers++
		case KRUnlock:
			l.readers--
			if l.readers < 0 {
				failure = "read unlock of a lock not locked"
			}
		}
		if o.name != "" {
			trail = append(trail, fmt.Sprintf("%d:%s(%s)", c, kindNames[o.kind], o.name))
		} else {
			trail = append(trail, fmt.Sprintf("%d:%s", c, kindNames[o.kind]))
		}
		if failure != "" {
			failure += " after " + strings.Join(trail, " ")
			abort()
			return failure
		}
		st.Steps++
		clock := append([]int{}, clocks[c]...)
		for k := len(steps) - 1; k >= 0; k-- {
			if x := &steps[k]; x.t != c && k+1 > clock[x.t] && !independent(x.o, o) {
				for q, v := range x.clock {
					if v > clock[q] {
						clock[q] = v
					}
				}
			}
		}
		clock[c] = depth + 1
		clocks[c] = clock
		steps = append(steps, step{c, o, clock})
		raceDisable()
		threads[c].clocks <- depth + 1
		ev := <-events
		raceEnable()
		if ev.finished {
			done[c] = true
			<-joined
			if ev.panicked != "" {
				failure = "panic: " + ev.panicked + " after " + strings.Join(trail, " ")
				abort()
				return failure
			}
		} else {
			pending[c] = ev.op
			mark(c, len(steps)-1, 0)
		}
		for p := range threads {
			if p != c && !done[p] {
				mark(p, len(steps)-1, len(steps)-1)
			}
		}
		if depth > st.MaxDepth {
			st.MaxDepth = depth
		}
	}
	st.Schedules++
	var h []Call
	for _, t := range threads {
		h = append(h, t.calls...)
	}
	s := strings.Join(trail, " ")
	visit(s)
	if msg := check(h); msg != "" {
		for _, x := range h {
			msg += "; " + x.String()
		}
		return msg + "; schedule: " + s
	}
	return ""
}

func run(t *T, f func(t *T), joined chan struct{}) {
	register(t)
	panicked := ""
	normal := false
	defer func() {
		if !normal && !t.aborted {
			if r := recover(); r != nil {
				var buf [4096]byte
				n := runtime.Stack(buf[:], false)
				panicked = fmt.Sprint(r, " ", string(buf[:n]))
			} else {
				panicked = "the thread ended itself"
			}
		}
		unregister()
		if !t.aborted {
			raceDisable()
			t.events <- event{tid: t.ID, finished: true, panicked: panicked}
			raceEnable()
		}
		joined <- struct{}{}
	}()
	t.point(op{kind: kStart})
	f(t)
	normal = true
}

// ---- histories

// Linear says whether some sequential order of the calls, in keeping with their order in time, is explained by a model.
// step gives the state after a call, and whether the call's result is right in a state.
func Linear[S any](init S, calls []Call, step func(s S, c Call) (S, bool), final func(s S) bool) bool {
	used := make([]bool, len(calls))
	var rec func(s S, left int) bool
	rec = func(s S, left int) bool {
		if left == 0 {
			return final == nil || final(s)
		}
		for i, c := range calls {
			if used[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !used[j] && j != i && d.End < c.Begin {
					first = false
					break
				}
			}
			if !first {
				continue
			}
			n, ok := step(s, c)
			if !ok {
				continue
			}
			used[i] = true
			if rec(n, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, len(calls))
}
