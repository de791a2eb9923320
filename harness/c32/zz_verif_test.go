//go:build go1.21

package c32

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/cmd"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vnet"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsignal"
)

const addr = "127.0.0.1:32447"

// The main network, as published.
var (
	network = unhex("d6482c89bc2d5b81aa9abdf1d7317dc3")
	genesis = chainm.Hash(unhex("3125b79e4a42f8d4d2fc4dffea8442e185ebda940ecd4d3b449056a4ea0efea4"))
)

func unhex(s string) []byte {
	var b []byte
	for ; len(s) > 1; s = s[2:] {
		var x byte
		if _, err := fmt.Sscanf(s[:2], "%02x", &x); err != nil {
			panic(err)
		}
		b = append(b, x)
	}
	return b
}

var c *vlib.Ctx

const patience = 90 * time.Second

type conn struct {
	p      *nodew.Peer
	must   bool // is to be served: nothing open or wrong was sent
	shaken bool
}

type event struct {
	name string
	do   func(w *nodew.World, k *conn) *conn
}

func hello(id uint64, height uint32, top chainm.Hash) nodew.Frame {
	return nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(network, 4, id), nodew.SyncData(height, top)))
}

func announced(w *nodew.World, v kvm.L, what string) {
	if len(v) != 2 || nodew.U(v[0]) != 1 || !bytes.Equal(nodew.B(v[1]), genesis[:]) {
		w.Fail("%s: announced height and top %x, must be 1 and the genesis block", what, v)
	}
}

func await(w *nodew.World, p *nodew.Peer, what string, ok func(f nodew.Frame) bool) nodew.Frame {
	t := time.Now()
	for {
		for _, f := range p.Recv() {
			if ok(f) {
				return f
			}
		}
		if p.Closed() {
			w.Fail("%s: the connection is closed", what)
		}
		if time.Since(t) > patience {
			w.Fail("%s: no answer in %v", what, patience)
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
}

// probe sees that the daemon serves a new connection, for the main network.
func probe(w *nodew.World, what string) {
	p := w.Connect()
	p.Send(hello(1<<40+uint64(len(w.Peers)), 1, genesis))
	f := await(w, p, what+": handshake", func(f nodew.Frame) bool { return f.Cmd == nodew.Handshake && f.Flags&2 != 0 })
	v, ok := nodew.Decode("HandshakeResponse", f.Payload)
	if !ok {
		w.Fail("%s: malformed handshake answer", what)
	}
	if !bytes.Equal(nodew.B(nodew.L(v[0])[0]), network) {
		w.Fail("%s: the daemon is of network %x", what, nodew.B(nodew.L(v[0])[0]))
	}
	announced(w, nodew.L(v[1]), what)
	p.Send(nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, genesis))))
	f = await(w, p, what+": timed sync", func(f nodew.Frame) bool { return f.Cmd == nodew.TimedSync && f.Flags&2 != 0 })
	if v, ok = nodew.Decode("TimedSyncResponse", f.Payload); !ok {
		w.Fail("%s: malformed timed sync answer", what)
	}
	announced(w, nodew.L(v[1]), what)
	// a chain that begins with the genesis block of the main network is taken for one of the same network
	p.Send(nodew.Notify(nodew.RequestChain, nodew.Encode("NotificationRequestChain", nodew.Hashes(chainm.Hash{5}, genesis))))
	p.Send(nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, genesis))))
	await(w, p, what+": timed sync after a chain request", func(f nodew.Frame) bool { return f.Cmd == nodew.TimedSync && f.Flags&2 != 0 })
	p.Send(nodew.Notify(nodew.RequestChain, nodew.Encode("NotificationRequestChain", nodew.Hashes(genesis, chainm.Hash{5}))))
	for t := time.Now(); !p.Closed(); {
		if time.Since(t) > patience {
			w.Fail("%s: a chain that begins with another genesis block is not refused", what)
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
	p.Close()
}

func events() (out []event) {
	add := func(name string, do func(w *nodew.World, k *conn) *conn) { out = append(out, event{name, do}) }
	send := func(name string, f func(w *nodew.World) nodew.Frame, open bool) {
		add(name, func(w *nodew.World, k *conn) *conn {
			if k == nil {
				k = &conn{p: w.Connect(), must: true}
			}
			k.p.Send(f(w))
			if open || k.shaken && strings.HasPrefix(name, "handshake") {
				k.must = false
			}
			k.shaken = k.shaken || strings.HasPrefix(name, "handshake")
			return k
		})
	}
	add("connect", func(w *nodew.World, k *conn) *conn { return &conn{p: w.Connect(), must: true} })
	send("handshake", func(w *nodew.World) nodew.Frame { return hello(uint64(len(w.Peers)), 1, genesis) }, false)
	send("handshake of one ahead", func(w *nodew.World) nodew.Frame {
		return hello(uint64(len(w.Peers)), 1000000, chainm.Hash{1, 2, 3})
	}, false)
	send("handshake of another network", func(w *nodew.World) nodew.Frame {
		x := append([]byte{}, network...)
		x[15]++
		return nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(x, 4, 3), nodew.SyncData(1, genesis)))
	}, true)
	send("timed sync", func(w *nodew.World) nodew.Frame {
		return nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, genesis)))
	}, false)
	send("chain answer", func(w *nodew.World) nodew.Frame {
		return nodew.Notify(nodew.ChainEntry, nodew.Encode("NotificationResponseChainEntry", uint64(0), uint64(3), nodew.Hashes(genesis, chainm.Hash{1}, chainm.Hash{2})))
	}, true)
	send("blocks nobody can read", func(w *nodew.World) nodew.Frame {
		return nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, kvm.L{kvm.L{[]byte{1, 2, 3}, nil}}, uint64(3), nil))
	}, true)
	raw := func(name string, b []byte) {
		add(name, func(w *nodew.World, k *conn) *conn {
			if k == nil {
				k = &conn{p: w.Connect()}
			}
			_, _ = k.p.Conn.Write(b)
			k.must = false
			return k
		})
	}
	raw("half a frame", hello(9, 1, genesis).Bytes()[:40])
	raw("garbage", bytes.Repeat([]byte{0xab}, 40))
	add("stops reading", func(w *nodew.World, k *conn) *conn {
		if k == nil {
			k = &conn{p: w.Connect()}
		}
		k.p.Conn.Limit(10)
		k.must = false
		return k
	})
	add("close", func(w *nodew.World, k *conn) *conn {
		if k != nil {
			k.p.Close()
		}
		return nil
	})
	add("wait", func(w *nodew.World, k *conn) *conn { time.Sleep(6100 * time.Millisecond); return k })
	return
}

const (
	endSoon  = iota // interrupted at once
	endTick         // a little later
	endProbe        // served somebody else before
	endTwice        // interrupted again and again
)

var endNames = []string{"interrupted", "interrupted after a second", "probed, interrupted", "interrupted three times"}

func daemon(t *testing.T, desc func() string, f func(w *nodew.World), end int) {
	c.Eval(1)
	c.Trace(1)
	c.Guard(0, desc(), func() {
		vsignal.ResetAll()
		os.Args = []string{"krbd"}
		returned := false
		w := nodew.Wrap(c, addr, func() error {
			cmd.Execute()
			returned = true
			return nil
		}, func() {
			if !vsignal.Send(os.Interrupt) {
				c.Fail(desc(), "nobody waits for the interrupt")
			}
			if end == endTwice {
				for k := 0; k < 2; k++ {
					time.Sleep(10 * time.Millisecond)
					if !returned && !vsignal.Send(os.Interrupt) {
						c.Fail(desc(), "the second interrupt kills the daemon while it stops")
					}
				}
			}
		}, desc)
		_ = nodew.Bubble(t, func() {
			w.Start()
			f(w)
			switch end {
			case endTick:
				time.Sleep(time.Second)
			case endProbe:
				probe(w, "probe")
			}
			w.Stop()
		})
		if vnet.ListenerAt(addr) != nil {
			c.Fail(desc(), "still listening")
		}
	})
}

func sequence(t *testing.T, evs []event, seq []int, end int) {
	desc := func() string {
		var l []string
		for _, x := range seq {
			l = append(l, evs[x].name)
		}
		return fmt.Sprintf("%s; %s", strings.Join(l, ", "), endNames[end])
	}
	daemon(t, desc, func(w *nodew.World) {
		var k *conn
		for i, x := range seq {
			k = evs[x].do(w, k)
			if i+1 < len(seq) || end != endSoon {
				synctest.Wait()
			}
			c.Transition(1)
		}
		if end == endProbe {
			nodew.Settle()
			if k != nil && k.must && k.p.Closed() {
				w.Fail("a connection that did nothing wrong was closed")
			}
		}
	}, end)
	c.Distinct(fmt.Sprint(seq, end))
}

func TestVerif(t *testing.T) {
	c = vlib.New("C32")
	home, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	os.Setenv("HOME", home)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = null, null
	evs := events()
	daemon(t, func() string { return "nobody connects" }, func(w *nodew.World) {}, endSoon)
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for d := 1; d <= depth; d++ {
		n := 1
		for k := 0; k < d; k++ {
			n *= len(evs)
		}
		for i := 0; i < n; i++ {
			seq := make([]int, d)
			for k, q := 0, i; k < d; k, q = k+1, q/len(evs) {
				seq[d-1-k] = q % len(evs)
			}
			for end := range endNames {
				if c.Expired() {
					c.Cap("time")
					c.Done()
				}
				sequence(t, evs, seq, end)
			}
		}
	}
	// the moment of the interrupt, while a peer goes through its exchange
	step := 500 * time.Millisecond
	if c.Thorough {
		step = 50 * time.Millisecond
	}
	for at := time.Duration(0); at <= 15*time.Second; at += step {
		at := at
		daemon(t, func() string { return fmt.Sprint("an exchange interrupted after ", at) }, func(w *nodew.World) {
			begin := time.Now()
			until := func(d time.Duration) bool {
				if d > at {
					d = at
				}
				if x := d - time.Since(begin); x > 0 {
					time.Sleep(x)
				}
				return d < at
			}
			for k, x := range []int{0, 2, 5, 6, 1, 4, 7, 0, 4} {
				if !until(time.Duration(k) * 1600 * time.Millisecond) {
					return
				}
				var kk *conn
				if n := len(w.Peers); n > 0 {
					kk = &conn{p: w.Peers[n-1]}
				}
				evs[x].do(w, kk)
			}
			until(at)
		}, endSoon)
		c.Distinct(fmt.Sprint("at ", at))
	}
	// long lives: idle for days, with a peer that keeps in touch or without
	days := 2
	if c.Thorough {
		days = 40
	}
	for _, talk := range []bool{false, true} {
		talk := talk
		daemon(t, func() string { return fmt.Sprintf("%d days; a peer keeps in touch: %v", days, talk) }, func(w *nodew.World) {
			var p *nodew.Peer
			if talk {
				p = w.Connect()
				p.Send(hello(8, 1, genesis))
				await(w, p, "handshake", func(f nodew.Frame) bool { return f.Cmd == nodew.Handshake && f.Flags&2 != 0 })
			}
			for h := 0; h < days*24; h++ {
				time.Sleep(time.Hour)
				synctest.Wait()
				if w.Returned() {
					w.Fail("the daemon stopped by itself after %d hours", h+1)
				}
				if talk {
					p.Send(nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, genesis))))
					await(w, p, fmt.Sprint("timed sync after hours: ", h+1), func(f nodew.Frame) bool { return f.Cmd == nodew.TimedSync && f.Flags&2 != 0 })
				}
			}
		}, endProbe)
		c.Distinct(fmt.Sprint("long ", talk))
	}
	// many connections that end in the same way, one after another or at the same time
	many := 300
	if c.Thorough {
		many = 5000
	}
	for x := range evs {
		for _, together := range []bool{false, true} {
			x, together := x, together
			if evs[x].name == "wait" {
				continue
			}
			daemon(t, func() string {
				return fmt.Sprintf("%d connections: handshake, %s, reset; at the same time: %v", many, evs[x].name, together)
			}, func(w *nodew.World) {
				var ps []*nodew.Peer
				for k := 0; k < many; k++ {
					p := w.Connect()
					if k%2 == 0 {
						p.Send(hello(uint64(k+10), 1, genesis))
					}
					if x > 0 {
						evs[x].do(w, &conn{p: p})
					}
					if !together {
						synctest.Wait()
						p.Recv()
						p.Conn.Abort()
						p.Gone = true
						synctest.Wait()
					}
					ps = append(ps, p)
					if len(ps) > 20 && !together {
						time.Sleep(time.Second)
						ps, w.Peers = nil, nil
					}
				}
				nodew.Settle()
				for _, p := range ps {
					p.Conn.Abort()
				}
				nodew.Settle()
			}, endProbe)
			c.Transition(many)
			c.Distinct(fmt.Sprint("many ", x, together))
		}
	}
	if l, err := os.ReadDir(home); err != nil || len(l) > 0 {
		c.Fail("all runs", "the daemon wrote %v to the home directory", filepath.Join(home, fmt.Sprint(l)))
	}
	c.Litter("all runs")
	c.Sample("handshake of one ahead, half a frame, timed sync; interrupted three times")
	c.Done()
}
