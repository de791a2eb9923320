//go:build go1.21

package c25

import (
	"fmt"
	"time"

	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/vdelay"
)

// Schedules: two honest peers, and a connection's handler that stops for a while at a point, an operation on a lock of the
// node, while everything else goes on.

type delayed struct {
	s          *setting
	ns, limits [2]int
	shake      int // the step at which the second peer introduces itself
	delays     map[vdelay.At]time.Duration
	all        bool // operations while another lock is held are points, too
}

func (x delayed) String() string {
	return fmt.Sprintf("%s: two peers %v ahead, %v hashes at a time, the second from step %d, handlers wait at %v", x.s.name, x.ns, x.limits, x.shake, x.delays)
}

const pause = 40 * time.Second

// play returns the numbers of points of both handlers.
func (x delayed) play(w, i int) (points [2]int) {
	ctl := vdelay.New(x.delays)
	if x.all {
		ctl.All()
	}
	s := x.s
	bubble(w, i, s, x.String, func(nw *nodew.World) {
		full := s.chain(len(s.offers))
		var rs []*remote
		for k := 0; k < 2; k++ {
			k := k
			rs = append(rs, newRemote(s, x.ns[k], x.limits[k], nw.Connect()))
			rs[k].p.Conn.OnUse(func() { ctl.Enter(k) })
			time.Sleep(500 * time.Millisecond)
		}
		quiet := 0
		for step := 0; quiet < int(2*pause/(4*time.Second))+2 && step < 400; step++ {
			quiet++
			for k, r := range rs {
				if step == x.shake*k {
					r.shake()
					quiet = 0
				}
				r.look(nil)
				if r.p.Closed() {
					nw.Fail("the node closes the connection of honest peer %d", k)
				}
				if len(r.pending) > 0 {
					f := r.pending[0]
					r.pending = r.pending[1:]
					r.honest(f)
					quiet = 0
				}
				time.Sleep(100 * time.Millisecond) // one after the other
			}
			nodew.Settle()
			c.Transition(1)
		}
		ctl.Stop()
		for k := range rs {
			points[k] = ctl.Count(k)
		}
		c.Outcome(fmt.Sprintf("waits=%d blocks=%d", ctl.Hits(), len(own(nw, full))-len(s.base)))
		entered(nw, s, own(nw, full), rs...)
		longest := 0
		for round := 0; round < 3; round++ {
			for k, r := range rs {
				if round == 2 {
					// one more block: nobody is stuck
					if longest++; longest > len(s.offers) {
						longest = len(s.offers)
					}
					r.grow(longest)
				} else if x.ns[k] > longest {
					longest = x.ns[k]
				}
				r.timed()
				nodew.Settle()
				r.look(own(nw, full))
				if r.p.Closed() {
					nw.Fail("the node closes the connection of honest peer %d", k)
				}
				r.sync("after a timed sync", nil)
				if n := len(own(nw, full)); round > 0 && n < len(s.base)+longest {
					nw.Fail("the node's chain has %d blocks instead of %d after a timed sync of peer %d", n, len(s.base)+longest, k)
				}
			}
		}
	})
	return
}

func delays() {
	some := newSetting(5, 40, 0, nil)
	txs := newSetting(3, 40, 5000, func(i int) int { return i % 4 })
	flat := newSetting(0, 400, 0, nil)
	var xs []delayed
	for _, s := range []*setting{some, txs} {
		for _, ns := range [][2]int{{3, 3}, {2, 4}, {4, 2}} {
			for _, limits := range [][2]int{{1000, 1000}, {3, 3}} {
				for shake := 0; shake < 6; shake++ {
					xs = append(xs, delayed{s, ns, limits, shake, nil, c.Thorough})
				}
			}
		}
	}
	for _, ns := range [][2]int{{129, 129}, {131, 130}, {128, 131}} {
		for shake := 0; shake < 6; shake++ {
			xs = append(xs, delayed{flat, ns, [2]int{1000, 1000}, shake, nil, false})
		}
	}
	type job struct {
		x int
		d map[vdelay.At]time.Duration
	}
	points := make([][2]int, len(xs))
	c.Each("no waiting", len(xs), func(w, i int) { points[i] = xs[i].play(w, i) })
	var jobs []job
	for i := range xs {
		for who := 0; who < 2; who++ {
			for n := 0; n < points[i][who]; n++ {
				jobs = append(jobs, job{i, map[vdelay.At]time.Duration{{who, n}: pause}})
			}
		}
	}
	c.Cov("points", points)
	c.Cov("schedules with one wait", len(jobs))
	n := len(xs)
	c.Each("one wait", len(jobs), func(w, i int) {
		x := xs[jobs[i].x]
		x.delays = jobs[i].d
		x.play(w, n+i)
	})
}
