//go:build go1.21

// Package vsignal stands in for package os/signal in instrumented copies: signals come from the check.
package vsignal

import (
	"context"
	"os"
	"sync"
)

type entry struct {
	c    chan<- os.Signal
	sigs []os.Signal // none: all
}

var (
	mu      sync.Mutex
	entries []entry
	ignored = map[os.Signal]bool{}
)

// Reset forgets everything registered.
func ResetAll() {
	mu.Lock()
	entries = nil
	ignored = map[os.Signal]bool{}
	mu.Unlock()
}

// Send delivers a signal as the system would; false: nobody asked for it, so the process would end.
func Send(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	if ignored[s] {
		return true
	}
	found := false
	for _, e := range entries {
		if len(e.sigs) > 0 {
			match := false
			for _, x := range e.sigs {
				match = match || x == s
			}
			if !match {
				continue
			}
		}
		found = true
		select {
		case e.c <- s:
		default:
		}
	}
	return found
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	mu.Lock()
	entries = append(entries, entry{c, sig})
	mu.Unlock()
}

func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	var l []entry
	for _, e := range entries {
		if e.c != c {
			l = append(l, e)
		}
	}
	entries = l
}

func Ignore(sig ...os.Signal) {
	mu.Lock()
	for _, s := range sig {
		ignored[s] = true
	}
	mu.Unlock()
}

func Ignored(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	return ignored[s]
}

func Reset(sig ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	if len(sig) == 0 {
		entries = nil
		ignored = map[os.Signal]bool{}
		return
	}
	for i := range entries {
		var l []os.Signal
		for _, x := range entries[i].sigs {
			keep := true
			for _, s := range sig {
				keep = keep && x != s
			}
			if keep {
				l = append(l, x)
			}
		}
		if len(entries[i].sigs) > 0 && len(l) == 0 {
			entries[i].c = make(chan os.Signal) // nobody
			continue
		}
		entries[i].sigs = l
	}
	for _, s := range sig {
		delete(ignored, s)
	}
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	if ctx.Err() == nil {
		go func() {
			select {
			case <-ch:
				cancel()
			case <-ctx.Done():
			}
		}()
	}
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}
