//go:build go1.21

package c17

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
	log "github.com/sirupsen/logrus"
)

var c *vlib.Ctx

var logger = func() *log.Logger {
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	return l
}()

func hash(k int) (h crypto.Hash) {
	h[0], h[31] = byte(k), byte(k>>8)
	return
}

// table is the model: height -> number of the hash.
type table map[uint32]int

func (t table) with(i uint32, h int) table {
	n := table{}
	for k, v := range t {
		n[k] = v
	}
	n[i] = h
	return n
}

func (t table) max() (m uint32, any bool) {
	for k := range t {
		if !any || k > m {
			m, any = k, true
		}
	}
	return
}

func (t table) zone(i uint32) bool {
	m, any := t.max()
	return any && m > 0 && i <= m
}

func (t table) check(i uint32, h int) bool {
	x, ok := t[i]
	return !ok || x == h
}

// alt: is an alternative block allowed.
func (t table) alt(size, i uint32) bool {
	if i == 0 {
		return false
	}
	if !t.zone(i) && size > 10 && i < size-10 {
		return false
	}
	for p := range t {
		if p <= size && i <= p {
			return false
		}
	}
	return true
}

func (t table) String() string {
	var s []string
	for k, v := range t {
		s = append(s, fmt.Sprintf("%d:%d", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// call is one call and what it must give in a state.
type call struct {
	name string
	do   func(cp config.Checkpoints) bool
	step func(t table) (table, bool)
}

func add(i uint32, h int) call {
	return call{fmt.Sprintf("add(%d,%d)", i, h), func(cp config.Checkpoints) bool { return cp.AddCheckpoint(i, hash(h)) == nil }, func(t table) (table, bool) {
		if _, ok := t[i]; ok {
			return t, false
		}
		return t.with(i, h), true
	}}
}

func zone(i uint32) call {
	return call{fmt.Sprintf("zone(%d)", i), func(cp config.Checkpoints) bool { return cp.IsInCheckpointZone(i) }, func(t table) (table, bool) { return t, t.zone(i) }}
}

func check(i uint32, h int) call {
	return call{fmt.Sprintf("check(%d,%d)", i, h), func(cp config.Checkpoints) bool { x := hash(h); return cp.CheckBlock(i, &x) == nil }, func(t table) (table, bool) { return t, t.check(i, h) }}
}

func alt(size, i uint32) call {
	return call{fmt.Sprintf("alt(%d,%d)", size, i), func(cp config.Checkpoints) bool { return cp.AlternativeBlockAllowed(size, i) == nil }, func(t table) (table, bool) { return t, t.alt(size, i) }}
}

// one runs calls in one controlled thread: a call that locks itself up is a deadlock at once.
func one(w int, calls []call) {
	var names []string
	for _, x := range calls {
		names = append(names, x.name)
	}
	desc := strings.Join(names, " ")
	c.Set(w, desc)
	sc := vsched.Scenario{Name: desc, Setup: func() ([]func(t *vsched.T), func(h []vsched.Call) string) {
		cp := config.NewCheckpoints(logger)
		return []func(t *vsched.T){func(t *vsched.T) {
			for _, x := range calls {
				t.Do(x.name, func() interface{} { return x.do(cp) })
			}
		}}, func(h []vsched.Call) string {
			m := table{}
			for i, x := range calls {
				n, want := x.step(m)
				if h[i].Out.(bool) != want {
					return fmt.Sprintf("%s gives %v with checkpoints [%v]", x.name, h[i].Out, m)
				}
				m = n
			}
			return ""
		}
	}}
	st, fail := vsched.Explore(sc, c.Expired, func(string) {})
	if fail != "" {
		c.Fail(desc, "%s", fail)
	}
	c.Transition(st.Steps)
	c.Trace(st.Schedules)
}

// threads explores all schedules of threads.
func threads(w int, before []call, lists [][]call) {
	desc := ""
	for _, l := range lists {
		for _, x := range l {
			desc += x.name + " "
		}
		desc += "| "
	}
	for _, x := range before {
		desc += x.name + " "
	}
	c.Set(w, desc)
	sc := vsched.Scenario{Name: desc, Setup: func() ([]func(t *vsched.T), func(h []vsched.Call) string) {
		cp := config.NewCheckpoints(logger)
		m := table{}
		for _, x := range before {
			x.do(cp)
			m, _ = x.step(m)
		}
		var bodies []func(t *vsched.T)
		byName := map[string]call{}
		for _, l := range lists {
			l := l
			for _, x := range l {
				byName[x.name] = x
			}
			bodies = append(bodies, func(t *vsched.T) {
				for _, x := range l {
					t.Do(x.name, func() interface{} { return x.do(cp) })
				}
			})
		}
		return bodies, func(h []vsched.Call) string {
			step := func(s table, k vsched.Call) (table, bool) {
				n, want := byName[k.Name].step(s)
				return n, k.Out.(bool) == want
			}
			ok := vsched.Linear(m, h, step, func(s table) bool {
				for i := uint32(0); i < 9; i++ {
					if cp.IsInCheckpointZone(i) != s.zone(i) {
						return false
					}
					for k := 1; k < 4; k++ {
						x := hash(k)
						if (cp.CheckBlock(i, &x) == nil) != s.check(i, k) {
							return false
						}
					}
				}
				return true
			})
			if !ok {
				return "no sequential order of the calls explains their results"
			}
			return ""
		}
	}}
	st, fail := vsched.Explore(sc, c.Expired, func(s string) {
		c.Distinct(desc + s)
		c.Sample(desc + ": " + s)
	})
	if fail != "" {
		c.Fail(desc, "%s", fail)
	}
	if !st.Complete {
		c.Cap("schedules of " + desc)
	}
	c.Eval(st.Schedules)
	c.Transition(st.Steps)
	c.Trace(st.Schedules)
}

func TestVerif(t *testing.T) {
	c = vlib.New("C17")
	// every call in one thread, and every pair
	small := []call{add(1, 1), add(1, 2), add(3, 3), add(0, 1), zone(1), zone(3), check(1, 1), check(3, 2), alt(14, 2), alt(14, 4), alt(2, 2)}
	for _, a := range small {
		one(0, []call{a})
		for _, b := range small {
			one(0, []call{a, b, a})
		}
	}

	// 1. two threads of two calls, three threads of one, on two beginnings
	befores := [][]call{nil, {add(2, 2)}}
	n := len(small)
	c.Each("two threads", n*n*n*n, func(w, i int) {
		x := vlib.Unrank(i, []int{n, n, n, n})
		if x[0]*n+x[1] > x[2]*n+x[3] {
			return
		}
		// at least one change
		if x[0] > 3 && x[1] > 3 && x[2] > 3 && x[3] > 3 {
			return
		}
		for k, b := range befores {
			if !c.Thorough && (i+k)%9 != 0 {
				continue
			}
			threads(w, b, [][]call{{small[x[0]], small[x[1]]}, {small[x[2]], small[x[3]]}})
		}
	})
	c.Each("three threads", n*n*n, func(w, i int) {
		x := vlib.Unrank(i, []int{n, n, n})
		if x[0] > x[1] || x[1] > x[2] {
			return
		}
		for _, b := range befores {
			threads(w, b, [][]call{{small[x[0]]}, {small[x[1]]}, {small[x[2]]}})
		}
		if c.Thorough {
			threads(w, nil, [][]call{{small[x[0]], zone(2)}, {small[x[1]]}, {small[x[2]]}})
		}
	})
	c.Each("four threads", n*n, func(w, i int) {
		threads(w, nil, [][]call{{small[i/n]}, {small[i%n]}, {add(2, 1)}, {zone(2)}})
	})

	// 2. all sequences of additions, all queries
	heights := []uint32{0, 1, 2, 5, 12, 13, 100, 1<<32 - 1}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	queries := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 22, 23, 24, 99, 100, 101, 110, 111, 112, 1 << 31, 1<<32 - 12, 1<<32 - 11, 1<<32 - 10, 1<<32 - 2, 1<<32 - 1}
	for d := 0; d <= depth; d++ {
		radix := make([]int, d)
		for i := range radix {
			radix[i] = len(heights)
		}
		c.Each(fmt.Sprintf("%d additions", d), vlib.Size(radix), func(w, i int) {
			word := vlib.Unrank(i, radix)
			cp := config.NewCheckpoints(logger)
			m := table{}
			desc := ""
			for k, x := range word {
				desc += fmt.Sprintf("add %d;", heights[x])
				c.Set(w, desc)
				err := cp.AddCheckpoint(heights[x], hash(k+1))
				if _, there := m[heights[x]]; there != (err != nil) {
					c.Fail(desc, "addition gives %v", err)
				}
				if err == nil {
					m = m.with(heights[x], k+1)
				}
			}
			if !c.Distinct("seq "+m.String()) && d == depth {
				return
			}
			for _, q := range queries {
				if cp.IsInCheckpointZone(q) != m.zone(q) {
					c.Fail(desc, "height %d in the zone: %v", q, !m.zone(q))
				}
				for k := 0; k <= d+1; k++ {
					h := hash(k)
					if (cp.CheckBlock(q, &h) == nil) != m.check(q, k) {
						c.Fail(desc, "block %d at %d passes: %v", k, q, !m.check(q, k))
					}
				}
				// a hash that differs in the last byte only
				if k, ok := m[q]; ok {
					h := hash(k)
					h[31] ^= 0x80
					if cp.CheckBlock(q, &h) == nil {
						c.Fail(desc, "another hash passes at %d", q)
					}
				}
				for _, s := range queries {
					if (cp.AlternativeBlockAllowed(s, q) == nil) != m.alt(s, q) {
						c.Fail(desc, "alternative block at %d with chain size %d is allowed: %v", q, s, !m.alt(s, q))
					}
				}
			}
			c.Eval(len(queries) * (len(queries) + d + 3))
			c.Transition(d)
		})
	}

	// 3. every question asked before the first and again after each of a few additions
	var asks []call
	for _, q := range queries {
		asks = append(asks, zone(q), check(q, 1), check(q, 2))
		for _, s := range queries {
			asks = append(asks, alt(s, q))
		}
	}
	between := 3
	if c.Thorough {
		between = 4
	}
	radix := make([]int, between)
	for i := range radix {
		radix[i] = len(heights)
	}
	c.Each(fmt.Sprintf("questions between %d additions", between), vlib.Size(radix), func(w, i int) {
		word := vlib.Unrank(i, radix)
		desc := "adding at"
		for _, x := range word {
			desc += fmt.Sprint(" ", heights[x])
		}
		c.Set(w, desc)
		for _, a := range asks {
			cp := config.NewCheckpoints(logger)
			m := table{}
			for k := 0; ; k++ {
				_, want := a.step(m)
				if got := a.do(cp); got != want {
					c.Fail(desc, "%s, asked before each addition, gives %v after %d", a.name, got, k)
				}
				if k == len(word) {
					break
				}
				x := add(heights[word[k]], k%2+1)
				x.do(cp)
				m, _ = x.step(m)
			}
		}
		c.Eval(len(asks) * (len(word) + 1))
		c.Trace(len(asks))
		c.Transition(len(asks) * len(word))
	})

	// 4. the network's own checkpoints, if it has any: added in every rotation
	c.Cov("race detector", vsched.Race)
	c.Done()
}
