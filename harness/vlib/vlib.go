//go:build go1.21

// Package vlib is the harness side of the checks: counters, violations, watchdog, parallel enumeration.
// It is compiled into the repository's module through an overlay and never exists in the repository.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Result is what the harness reports to the runner.
type Result struct {
	Property   string                 `json:"property"`
	Violations []Violation            `json:"violations"`
	Findings   []string               `json:"findings"`
	Coverage   map[string]interface{} `json:"coverage"`
	Exhaustive bool                   `json:"exhaustive"`
	Done       bool                   `json:"done"`
}

type Violation struct {
	Msg  string `json:"msg"`
	Case string `json:"case"`
	Info string `json:"info"`
}

const slotSize = 4096
const slots = 64

type Ctx struct {
	ID       string
	Tier     string
	Thorough bool
	Workers  int
	start    time.Time
	deadline time.Time
	out      string

	mu       sync.Mutex
	res      Result
	samples  []string
	outcomes map[string]int64
	counters map[string]*int64
	capped   []string

	evals, transitions, traces int64

	distinct [256]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	journal []byte
	cur     [slots]struct {
		sync.Mutex
		desc  string
		since time.Time
	}
	known map[string]bool
}

var one *Ctx

// Now is the real time, also inside a bubble of virtual time.
func Now() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}

// New prepares the harness for a property. Environment comes from the runner.
func New(id string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), start: Now(), out: os.Getenv("VERIF_OUT")}
	c.Thorough = c.Tier == "thorough"
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SOFT_SECS"))
	if secs == 0 {
		secs = 200
	}
	c.deadline = c.start.Add(time.Duration(secs) * time.Second)
	c.Workers = runtime.GOMAXPROCS(0)
	if w, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && w > 0 {
		c.Workers = w
	}
	if c.Workers > slots {
		c.Workers = slots
	}
	c.res = Result{Property: id, Coverage: map[string]interface{}{}, Exhaustive: true}
	c.outcomes = map[string]int64{}
	c.counters = map[string]*int64{}
	for i := range c.distinct {
		c.distinct[i].m = map[uint64]struct{}{}
	}
	c.known = map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k != "" {
			c.known[k] = true
		}
	}
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		if f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR, 0600); err == nil {
			if f.Truncate(slotSize*slots) == nil {
				c.journal, _ = syscall.Mmap(int(f.Fd()), 0, slotSize*slots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			}
			f.Close()
		}
	}
	one = c
	hang := 150 * time.Second
	go func() {
		for {
			time.Sleep(2 * time.Second)
			now := Now()
			for i := range c.cur {
				s := &c.cur[i]
				s.Lock()
				d, t := s.desc, s.since
				s.Unlock()
				if d != "" && !t.IsZero() && now.Sub(t) > hang {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					c.Violate("the case does not terminate (no result in "+hang.String()+")", d, string(buf))
				}
			}
		}
	}()
	return c
}

// Set notes the case a worker is about to run (for crash and hang attribution).
func (c *Ctx) Set(worker int, desc string) {
	s := &c.cur[worker]
	s.Lock()
	s.desc = desc
	s.since = Now()
	s.Unlock()
	if c.journal != nil {
		off := worker * slotSize
		n := len(desc)
		if n > slotSize-8 {
			n = slotSize - 8
		}
		copy(c.journal[off+8:off+slotSize], desc[:n])
		c.journal[off] = byte(n)
		c.journal[off+1] = byte(n >> 8)
	}
}

func (c *Ctx) Clear(worker int) {
	s := &c.cur[worker]
	s.Lock()
	s.desc = ""
	s.Unlock()
	if c.journal != nil {
		c.journal[worker*slotSize] = 0
		c.journal[worker*slotSize+1] = 0
	}
}

// Expired says whether the soft deadline has passed; the run is then reported as capped.
func (c *Ctx) Expired() bool { return Now().After(c.deadline) }

func (c *Ctx) Remaining() time.Duration { return c.deadline.Sub(Now()) }

// Cap records that an exploration was cut and what was completed below it.
func (c *Ctx) Cap(what string) {
	c.mu.Lock()
	c.res.Exhaustive = false
	c.capped = append(c.capped, what)
	c.mu.Unlock()
}

func (c *Ctx) Eval(n int)       { atomic.AddInt64(&c.evals, int64(n)) }
func (c *Ctx) Transition(n int) { atomic.AddInt64(&c.transitions, int64(n)) }
func (c *Ctx) Trace(n int)      { atomic.AddInt64(&c.traces, int64(n)) }

// Distinct records a state (or non-trivial case) by key and says if it is new.
func (c *Ctx) Distinct(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	b := &c.distinct[v>>56]
	b.Lock()
	_, ok := b.m[v]
	if !ok {
		b.m[v] = struct{}{}
	}
	b.Unlock()
	return !ok
}

func (c *Ctx) DistinctCount() int64 {
	n := int64(0)
	for i := range c.distinct {
		c.distinct[i].Lock()
		n += int64(len(c.distinct[i].m))
		c.distinct[i].Unlock()
	}
	return n
}

// Outcome counts a class of observed results (vacuity guard).
func (c *Ctx) Outcome(k string) {
	c.mu.Lock()
	c.outcomes[k]++
	c.mu.Unlock()
}

func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Cov(k string, v interface{}) {
	c.mu.Lock()
	c.res.Coverage[k] = v
	c.mu.Unlock()
}

// Known says whether a finding with this key is listed; it is then reported as such and not as a violation.
func (c *Ctx) Finding(key, msg, caseDesc string) {
	if c.known[key] {
		c.mu.Lock()
		for _, f := range c.res.Findings {
			if f == key {
				c.mu.Unlock()
				return
			}
		}
		c.res.Findings = append(c.res.Findings, key)
		c.mu.Unlock()
		return
	}
	c.Violate("["+key+"] "+msg, caseDesc, "")
}

// Violate reports a violation and ends the process.
func (c *Ctx) Violate(msg, caseDesc, info string) {
	c.mu.Lock()
	c.res.Violations = append(c.res.Violations, Violation{msg, caseDesc, info})
	c.finish()
	os.Exit(1)
}

// Fail is Violate with a formatted message.
func (c *Ctx) Fail(caseDesc string, format string, a ...interface{}) {
	c.Violate(fmt.Sprintf(format, a...), caseDesc, "")
}

// Litter fails if there is a file in the working directory, which is empty at the start.
func (c *Ctx) Litter(caseDesc string) {
	if d := os.Getenv("VERIF_CWD"); d != "" {
		if l, err := os.ReadDir(d); err == nil && len(l) > 0 {
			c.Fail(caseDesc, "a file was written that nobody asked for: %s (the case is this or one run at the same time)", l[0].Name())
		}
	}
}

// Done writes the result; called once at the end.
func (c *Ctx) Done() {
	c.mu.Lock()
	c.res.Done = true
	c.finish()
	os.Exit(0)
}

func (c *Ctx) finish() {
	cov := c.res.Coverage
	cov["evaluations"] = atomic.LoadInt64(&c.evals)
	cov["distinct"] = c.DistinctCount()
	if c.transitions > 0 {
		cov["transitions"] = c.transitions
	}
	if c.traces > 0 {
		cov["traces"] = c.traces
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	if len(c.capped) > 0 {
		cov["capped"] = c.capped
	}
	cov["samples"] = c.samples
	b, err := json.MarshalIndent(c.res, "", " ")
	if err != nil {
		fmt.Println("marshal:", err)
	}
	if c.out != "" {
		_ = os.WriteFile(c.out, b, 0644)
	} else {
		os.Stdout.Write(b)
		fmt.Println()
	}
}

// Guard runs f and turns a panic into a violation.
func (c *Ctx) Guard(worker int, desc string, f func()) {
	c.Set(worker, desc)
	defer func() {
		if r := recover(); r != nil {
			c.Violate(fmt.Sprintf("panic: %v", r), desc, string(debug.Stack()))
		}
		c.Clear(worker)
	}()
	f()
}

// Try runs f and returns a panic as a string ("" if none).
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}

// Each enumerates 0..n-1 over the workers. It returns false if the soft deadline cut it.
func (c *Ctx) Each(name string, n int, f func(worker, i int)) bool {
	var next int64 = -1
	var cut int32
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if i%16 == 0 && c.Expired() {
					atomic.StoreInt32(&cut, 1)
					return
				}
				desc := fmt.Sprintf("%s #%d", name, i)
				c.Set(w, desc)
				func() {
					defer func() {
						if r := recover(); r != nil {
							c.cur[w].Lock()
							d := c.cur[w].desc
							c.cur[w].Unlock()
							c.Violate(fmt.Sprintf("panic: %v", r), d, string(debug.Stack()))
						}
					}()
					f(w, i)
				}()
				c.Clear(w)
			}
		}(w)
	}
	wg.Wait()
	if cut != 0 {
		done := int(atomic.LoadInt64(&next))
		c.Cap(fmt.Sprintf("%s: stopped by the time limit after about %d of %d cases", name, done, n))
		return false
	}
	return true
}

// Product enumerates all index vectors with the given radices.
func Product(radix []int, f func(ix []int)) {
	ix := make([]int, len(radix))
	for _, r := range radix {
		if r == 0 {
			return
		}
	}
	for {
		f(ix)
		i := len(ix) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < radix[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Unrank turns i into an index vector with the given radices (first is slowest).
func Unrank(i int, radix []int) []int {
	ix := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		ix[k] = i % radix[k]
		i /= radix[k]
	}
	return ix
}

func Size(radix []int) int {
	n := 1
	for _, r := range radix {
		n *= r
	}
	return n
}

// Permutations of 0..n-1.
func Permutations(n int) [][]int {
	var out [][]int
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return out
}
