//go:build go1.21

package c24

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vdelay"
)

// Schedules: the handler of a message waits at a point, an operation on a lock of the node, while other things happen.
// Whatever it says must then be so at one moment: before them, between them or after them.

type waits struct {
	s      *setting
	prefix []ev
	e      ev
	others []ev
	at     int // the point; -1: nowhere
}

func (x waits) String() string {
	return fmt.Sprintf("%s: %v; then %v waits at point %d for %v", x.s.name, x.prefix, x.e, x.at, x.others)
}

const pause = 20 * time.Second

func (x waits) play(w, i int) (points int) {
	s := x.s
	c.Set(w, x.String())
	delays := map[vdelay.At]time.Duration{}
	if x.at >= 0 {
		delays[vdelay.At{Who: x.e.conn, N: x.at}] = pause
	}
	ctl := vdelay.New(delays)
	ctl.All()
	ctl.Stop()
	bc, _ := s.h.NewChain()
	for k, h := range s.points {
		if err := bc.Checkpoints.AddCheckpoint(k, h); err != nil {
			panic(err)
		}
	}
	left := nodew.Bubble(T, func() {
		nw := nodew.New(c, w, i, bc, x.String)
		nw.Start()
		m := model{left: map[uint64]bool{}}
		for k := 0; k < 3; k++ {
			k := k
			p := nw.Connect()
			p.Conn.OnUse(func() { ctl.Enter(k) })
			m.conns = append(m.conns, connState{open: true})
		}
		nodew.Settle()
		act := func(e ev) {
			switch e.kind {
			case "grow":
				o := s.grow[m.grown]
				if err := bc.AddBlock(txm.Block(o.B), o.Raw); err != nil {
					panic(fmt.Sprint("c24: ", err))
				}
			case "close":
				nw.Peers[e.conn].Close()
			default:
				nw.Peers[e.conn].Send(kinds[e.kind].make(s, &m, e.conn))
			}
		}
		for _, e := range x.prefix {
			n, want := m.step(s, e)
			act(e)
			nodew.Settle()
			look(nw, s, &m, &n, e, want)
			m = n
		}
		// the states the node goes through, with the event at every place among the others
		type outcome struct {
			hs, ts, rc [3]int
			closed     [3]bool
		}
		allowed := map[outcome]bool{}
		chains := map[string]bool{}   // what may be announced
		locators := map[string]bool{} // what may be asked for
		lists := map[string]bool{}    // the peers that may be listed
		var finals []model            // the states in the end
		for place := 0; place <= len(x.others); place++ {
			n := m
			var o outcome
			seq := append(append(append([]ev{}, x.others[:place]...), x.e), x.others[place:]...)
			for _, e := range seq {
				chains[pair(n.chain(s))] = true
				locators[string(nodew.Hashes(n.chain(s).Sparse()...))] = true
				lists[peerList(&n)] = true
				if e.kind != "grow" && !n.conns[e.conn].open {
					continue
				}
				var want expect
				if e == x.e {
					_, h, t := kinds[e.kind].top(s, &m)
					n.fix = &announcement{h, t}
				}
				n, want = n.step(s, e)
				if e.kind != "grow" {
					o.hs[e.conn] += want.handshakes
					o.ts[e.conn] += want.syncs
					if want.chain {
						o.rc[e.conn]++
					}
				}
			}
			chains[pair(n.chain(s))] = true
			locators[string(nodew.Hashes(n.chain(s).Sparse()...))] = true
			lists[peerList(&n)] = true
			for k := range n.conns {
				o.closed[k] = n.conns[k].ended
			}
			allowed[o] = true
			finals = append(finals, n)
		}
		ctl.Start()
		act(x.e)
		time.Sleep(1500 * time.Millisecond)
		for _, e := range x.others {
			act(e)
			if e.kind == "grow" {
				m.grown++
			}
			time.Sleep(1500 * time.Millisecond)
		}
		time.Sleep(pause)
		nodew.Settle()
		ctl.Stop()
		points = ctl.Count(x.e.conn)
		var o outcome
		for k, p := range nw.Peers {
			for _, f := range p.Recv() {
				var v []interface{}
				ok := false
				switch {
				case f.Cmd == nodew.Handshake && f.Return == 0 && f.Flags&2 != 0:
					o.hs[k]++
					v, ok = nodew.Decode("HandshakeResponse", f.Payload)
				case f.Cmd == nodew.TimedSync && f.Return == 0 && f.Flags&2 != 0:
					o.ts[k]++
					v, ok = nodew.Decode("TimedSyncResponse", f.Payload)
				case f.Cmd == nodew.RequestChain && f.Return == 0 && f.Flags&2 == 0:
					o.rc[k]++
					v, ok := nodew.Decode("NotificationRequestChain", f.Payload)
					if !ok || !locators[string(nodew.B(v[0]))] {
						nw.Fail("the chain request is not the locator of a chain the node had")
					}
					continue
				}
				if !ok {
					nw.Fail("connection %d gets %s", k, f)
				}
				a := nodew.L(v[1])
				if !chains[fmt.Sprintf("%d %x", nodew.U(a[0]), nodew.B(a[1]))] {
					nw.Fail("the node announces height %d and top %x, which it never had together", nodew.U(a[0]), nodew.B(a[1]))
				}
				got := nodew.Peers(nodew.B(v[2]))
				sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
				if !lists[fmt.Sprintf("%x", got)] {
					nw.Fail("the node lists peers %x", got)
				}
			}
			if p.Rest() != 0 {
				nw.Fail("connection %d gets a part of a message", k)
			}
			o.closed[k] = p.Closed()
		}
		if !allowed[o] {
			nw.Fail("answers to handshakes, timed syncs, chain requests and closed connections are %v, must be of %v", o, allowed)
		}
		c.Outcome(fmt.Sprintf("wait %v: %v", ctl.Hits() > 0, o))
		c.Transition(len(x.prefix) + 1 + len(x.others))
		// in the end the state is one of those
		ch := bc.Height()
		if int(ch) != len(finals[0].chain(s)) {
			nw.Fail("the node's chain has %d blocks", ch)
		}
		for k, p := range nw.Peers {
			if p.Closed() || !finals[0].conns[k].shook {
				continue
			}
			p.Send(kinds["timed-top"].make(s, &finals[0], k))
			nodew.Settle()
			fs := p.Recv()
			if len(fs) == 0 || fs[0].Cmd != nodew.TimedSync || p.Closed() {
				nw.Fail("connection %d: no answer to a later timed sync but %v", k, fs)
			}
			v, ok := nodew.Decode("TimedSyncResponse", fs[0].Payload)
			if !ok {
				nw.Fail("the timed sync answer cannot be read: %x", fs[0].Payload)
			}
			announced(nw, nodew.L(v[1]), finals[0].chain(s))
			peers(nw, nodew.B(v[2]), &finals[0])
			if len(fs) > 1 {
				nw.Fail("connection %d gets %v after a timed sync", k, fs[1:])
			}
		}
		nw.Stop()
	})
	if left != "" {
		c.Fail(x.String(), "something is left behind after the node stopped: %s", left)
	}
	c.Eval(1)
	c.Trace(1)
	c.Distinct(x.String())
	return
}

func pair(ch chainm.Chain) string {
	return fmt.Sprintf("%d %x", len(ch), bytes.Join([][]byte{nodew.Hashes(ch.Top())}, nil))
}

func peerList(m *model) string {
	var l []uint64
	for k := range m.left {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return fmt.Sprintf("%x", l)
}

func delays() {
	var xs []waits
	prefixes := [][]ev{
		{{0, "shake-top"}, {1, "shake-top"}},
		{{0, "shake-top"}, {1, "shake-top"}, {2, "shake-noid"}},
		{{1, "shake-top"}},
		{{1, "shake-ahead"}},
		{},
	}
	acts := []string{"shake-top", "shake-next", "shake-ahead", "shake-below", "shake-low", "timed-top", "timed-next", "timed-ahead", "timed-low"}
	others := []string{"grow", "1:shake-top", "1:shake-next", "1:shake-ahead", "1:timed-top", "1:timed-next", "1:close", "2:shake-top", "2:close"}
	at := func(n string) ev {
		if i := strings.IndexByte(n, ':'); i > 0 {
			return ev{int(n[0] - '0'), n[i+1:]}
		}
		return ev{0, n}
	}
	var lists [][]ev
	for _, a := range others {
		lists = append(lists, []ev{at(a)})
		for _, b := range others {
			if c.Thorough || a == "grow" || b == "grow" {
				lists = append(lists, []ev{at(a), at(b)})
			}
		}
	}
	for i, s := range []*setting{newSetting(5, 0), newSetting(13, 500), newSetting(0, 0)} {
		if i == 2 && !c.Thorough {
			break
		}
		for _, p := range prefixes {
			m := model{left: map[uint64]bool{}, conns: []connState{{open: true}, {open: true}, {open: true}}}
			for _, e := range p {
				m, _ = m.step(s, e)
			}
			for _, a := range acts {
				shook := m.conns[0].shook
				if strings.HasPrefix(a, "timed") != shook {
					continue
				}
				for _, l := range lists {
					ok := true
					n := m
					for _, e := range l {
						if e.kind == "grow" {
							continue
						}
						if st := n.conns[e.conn]; !st.open || strings.HasPrefix(e.kind, "timed") && !st.shook {
							ok = false
							break
						}
						n, _ = n.step(s, e)
					}
					if ok {
						xs = append(xs, waits{s, p, ev{0, a}, l, -1})
					}
				}
			}
		}
	}
	points := make([]int, len(xs))
	c.Each("no waiting", len(xs), func(w, i int) { points[i] = xs[i].play(w, i) })
	var jobs []waits
	for i, x := range xs {
		for n := 0; n < points[i]; n++ {
			x.at = n
			jobs = append(jobs, x)
		}
	}
	c.Cov("schedules with one wait", len(jobs))
	c.Each("one wait", len(jobs), func(w, i int) { jobs[i].play(w, len(xs)+i) })
	c.Sample(fmt.Sprint(jobs[len(jobs)/2]))
}
