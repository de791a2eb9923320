//go:build go1.21

package c26

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
	"go.uber.org/zap"
)

var c *vlib.Ctx

// peers: a is the second connection of the identity of A
var (
	names = []string{"A", "a", "B", "C", "0"}
	ids   = []uint64{7, 7, 8, 1<<64 - 1, 0}
)

// model: the class and the connection listed under each identity
type state struct {
	class [5]byte // by index of the identity's first peer: 0, 'w', 'g'
	conn  [5]byte
}

func first(p int) int {
	if p == 1 {
		return 0
	}
	return p
}

func (s state) move(class byte, p int) (state, bool) {
	if ids[p] == 0 {
		return s, false
	}
	k := first(p)
	if s.class[k] == class {
		return s, false
	}
	s.class[k], s.conn[k] = class, byte(p)
	return s, true
}

func (s state) list() string {
	var out []string
	for k := range s.class {
		if s.class[k] != 0 {
			out = append(out, names[s.conn[k]])
		}
	}
	return show(out)
}

func show(l []string) string {
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

type real struct {
	s     p2p.VerifStore
	peers []*p2p.Peer
}

func newReal() *real {
	r := &real{s: p2p.VerifNewStore()}
	for i := range names {
		p := p2p.NewPeer(zap.NewNop().Sugar(), nil, p2p.NetworkAddress{IP: uint32(i + 1), Port: 100}, i%2 == 0)
		if ids[i] != 0 {
			p.SetID(ids[i])
		}
		r.peers = append(r.peers, p)
	}
	return r
}

func (r *real) list() string {
	t0 := uint64(time.Now().Unix())
	var out []string
	for _, e := range r.s.Entries() {
		n := "?"
		if i := int(e.Address.IP) - 1; i >= 0 && i < len(names) && e.Address.Port == 100 && e.ID == ids[i] {
			n = names[i]
		}
		if e.LastSeen < t0 || e.LastSeen > uint64(time.Now().Unix()) {
			n += "(time)"
		}
		out = append(out, n)
	}
	return show(out)
}

func (r *real) move(class byte, p int) bool {
	if class == 'w' {
		return r.s.ToWhite(r.peers[p]) == nil
	}
	return r.s.ToGrey(r.peers[p]) == nil
}

// an operation: move or list
type oper struct {
	class byte // 'l' lists
	p     int
}

func (o oper) String() string {
	if o.class == 'l' {
		return "list"
	}
	return string(o.class) + names[o.p]
}

func (o oper) do(r *real) interface{} {
	if o.class == 'l' {
		return r.list()
	}
	return r.move(o.class, o.p)
}

func (o oper) step(s state) (state, interface{}) {
	if o.class == 'l' {
		return s, s.list()
	}
	n, ok := s.move(o.class, o.p)
	return n, ok
}

var moves []oper

func sequences() {
	depth := 5
	if c.Thorough {
		depth = 7
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(moves)
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = len(moves)
	}
	const chunk = 1000
	c.Each("sequences", (n+chunk-1)/chunk, func(w, k int) {
		for i := k * chunk; i < n && i < (k+1)*chunk; i++ {
			ix := vlib.Unrank(i, radix)
			desc := func(d int) string {
				s := ""
				for _, x := range ix[:d+1] {
					s += moves[x].String() + " "
				}
				return s
			}
			if i%chunk == 0 {
				c.Set(w, desc(depth-1))
			}
			r := newReal()
			var s state
			for d, x := range ix {
				o := moves[x]
				var want interface{}
				s, want = o.step(s)
				if got := o.do(r); got != want {
					c.Fail(desc(d), "the last move's success is %v, must be %v", got, want)
				}
				// prefixes were listed before by other sequences, the whole is listed here
				if d == depth-1 || i%97 == 0 {
					if got, want := r.list(), s.list(); got != want {
						c.Fail(desc(d), "the list is %s, must be %s", got, want)
					}
				}
				c.Transition(1)
			}
			c.Distinct(fmt.Sprint(s))
			c.Eval(1)
			c.Trace(1)
		}
	})
	// every prefix is listed
	short := 3
	for d := 1; d <= short; d++ {
		vlib.Product(radix[:d], func(ix []int) {
			r := newReal()
			var s state
			for _, x := range ix {
				s, _ = moves[x].step(s)
				moves[x].do(r)
				if got, want := r.list(), s.list(); got != want {
					c.Fail(fmt.Sprint(ix), "the list is %s, must be %s", got, want)
				}
			}
			c.Eval(1)
		})
	}
}

// many: stores that grow to many peers, listed at every size, and then moved one by one to the other class.
func many() {
	limit := 1100
	if c.Thorough {
		limit = 5000
	}
	c.Each("many", 4, func(w, pat int) {
		s := p2p.VerifNewStore()
		var peers []*p2p.Peer
		desc := ""
		look := func() {
			seen := map[uint64]int{}
			for _, e := range s.Entries() {
				seen[e.ID]++
				if int(e.ID) > len(peers) || e.Address.IP != uint32(e.ID) || e.Address.Port != 100 {
					c.Fail(desc, "entry %d with address %d:%d is nobody's", e.ID, e.Address.IP, e.Address.Port)
				}
			}
			for i := range peers {
				if seen[uint64(i+1)] != 1 {
					c.Fail(desc, "peer %d is listed %d times", i+1, seen[uint64(i+1)])
				}
			}
			c.Eval(1)
			c.Transition(1)
			c.Distinct(desc)
		}
		white := func(i int) bool { return []bool{false, true, i%2 == 0, i%7 == 0}[pat] }
		put := func(i int, white bool) {
			f := s.ToGrey
			if white {
				f = s.ToWhite
			}
			if err := f(peers[i]); err != nil {
				c.Fail(desc, "peer %d is not added: %v", i+1, err)
			}
			if f(peers[i]) == nil {
				c.Fail(desc, "peer %d is added twice", i+1)
			}
		}
		near := func(n int) bool { return n <= 300 || n%125 < 3 || (n+3)&(n+3-8) == 0 || n%64 < 2 }
		for i := 0; i < limit; i++ {
			p := p2p.NewPeer(zap.NewNop().Sugar(), nil, p2p.NetworkAddress{IP: uint32(i + 1), Port: 100}, i%2 == 0)
			p.SetID(uint64(i + 1))
			peers = append(peers, p)
			desc = fmt.Sprintf("pattern %d, %d peers", pat, i+1)
			c.Set(w, desc)
			put(i, white(i))
			if near(i + 1) {
				look()
			}
		}
		for i := range peers {
			desc = fmt.Sprintf("pattern %d, %d peers, the first %d moved", pat, limit, i+1)
			c.Set(w, desc)
			put(i, !white(i))
			if i%50 == 0 || i == limit-1 {
				look()
			}
		}
		c.Trace(1)
	})
}

func scenario(name string, init []oper, lists [][]oper) vsched.Scenario {
	type made struct {
		name string
		o    oper
	}
	return vsched.Scenario{Name: name, Setup: func() ([]func(t *vsched.T), func(h []vsched.Call) string) {
		r := newReal()
		var s0 state
		for _, o := range init {
			o.do(r)
			s0, _ = o.step(s0)
		}
		by := map[string]oper{}
		var bodies []func(t *vsched.T)
		for _, l := range lists {
			var ms []made
			for _, o := range l {
				ms = append(ms, made{o.String(), o})
				by[o.String()] = o
			}
			bodies = append(bodies, func(t *vsched.T) {
				for _, m := range ms {
					m := m
					t.Do(m.name, func() interface{} { return m.o.do(r) })
				}
			})
		}
		return bodies, func(h []vsched.Call) string {
			last := r.list()
			// a probe of the classes: moving each to where it is must fail
			var probe [5]bool
			for k, p := range []int{0, 2, 3} {
				probe[k] = r.move('w', p)
			}
			ok := vsched.Linear(s0, h, func(s state, x vsched.Call) (state, bool) {
				n, out := by[x.Name].step(s)
				return n, out == x.Out
			}, func(s state) bool {
				if s.list() != last {
					return false
				}
				for k, p := range []int{0, 2, 3} {
					if (s.class[p] != 'w') != probe[k] {
						return false
					}
				}
				return true
			})
			if !ok {
				return "no sequential order explains the results and the final list " + last
			}
			return ""
		}
	}}
}

func concurrent() {
	ops := append([]oper{{'l', 0}}, moves...)
	// small alphabet for longer threads: the colliding identity, one other
	var small []oper
	for _, o := range ops {
		if o.class == 'l' || o.p == 0 || o.p == 1 || o.p == 2 && o.class == 'w' {
			small = append(small, o)
		}
	}
	inits := [][]oper{nil, {{'w', 0}, {'g', 2}}, {{'g', 1}, {'w', 2}}}
	var jobs []vsched.Scenario
	add := func(init []oper, lists ...[]oper) {
		jobs = append(jobs, scenario(fmt.Sprintf("after %v: %v", init, lists), init, lists))
	}
	pairs := func(al []oper) (out [][]oper) {
		for _, a := range al {
			for _, b := range al {
				out = append(out, []oper{a, b})
			}
		}
		return
	}
	for _, init := range inits {
		for i, a := range ops {
			for j, b := range ops {
				add(init, []oper{a}, []oper{b})
				for k, d := range ops {
					if i <= j && j <= k {
						add(init, []oper{a}, []oper{b}, []oper{d})
					}
				}
			}
		}
		ps := pairs(small)
		for i, a := range ps {
			for _, b := range ps[i:] {
				add(init, a, b)
			}
		}
		for i, a := range ps {
			for j, x := range small {
				for _, y := range small[j:] {
					if !c.Thorough && i%3 != j%3 {
						continue
					}
					add(init, a, []oper{x}, []oper{y})
				}
			}
		}
		if c.Thorough {
			for _, a := range ps {
				for _, x := range small {
					for _, b := range ps {
						add(init, []oper{a[0], a[1], x}, b)
					}
				}
			}
			for i, a := range small {
				for j, b := range small[i:] {
					for k, d := range small[i+j:] {
						for _, e := range small[i+j+k:] {
							add(init, []oper{a}, []oper{b}, []oper{d}, []oper{e})
						}
					}
				}
			}
		}
	}
	c.Cov("programs", len(jobs))
	c.Each("schedules", len(jobs), func(w, i int) {
		sc := jobs[i]
		c.Set(w, sc.Name)
		st, fail := vsched.Explore(sc, c.Expired, func(s string) {
			c.Distinct(sc.Name + s)
			c.Sample(sc.Name + ": " + s)
		})
		if fail != "" {
			c.Fail(sc.Name, "%s", fail)
		}
		if !st.Complete {
			c.Cap("schedules of " + sc.Name)
		}
		c.Eval(st.Schedules)
		c.Transition(st.Steps)
		c.Trace(st.Schedules)
	})
}

func TestVerif(t *testing.T) {
	c = vlib.New("C26")
	for p := range names {
		moves = append(moves, oper{'w', p}, oper{'g', p})
	}
	if vsched.Race {
		concurrent()
		c.Cov("race detector", true)
	} else {
		sequences()
		many()
	}
	c.Done()
}
