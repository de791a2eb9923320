//go:build go1.21

package c27

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vnet"
)

var (
	c  *vlib.Ctx
	nt = config.TestNet()
	T  *testing.T
)

const patience = 90 * time.Second // virtual

// setting is a chain and a block that follows.
type setting struct {
	h      *chainm.History
	base   chainm.Chain
	height uint32 // number of blocks
	next   []*chainm.Offer
	bad    *chainm.Offer
}

func newSetting(top uint32, n int) *setting {
	s := &setting{h: chainm.NewHistory(top, n, chainm.Patterns[0])}
	if n >= int(top) {
		s.base = s.h.ChainOf()
	} else { // only the last blocks are there
		s.base = chainm.Chain{chainm.Hash(s.h.Model.Top.Hash)}
	}
	s.height = top + 1
	m := s.h.Model.Clone()
	for k := 0; k < 2; k++ {
		d := m.NewDraft(m.Top)
		o, nm := d.Make(fmt.Sprint(k))
		if o.Bad {
			panic("c27: offer")
		}
		s.next = append(s.next, o)
		m = nm
	}
	d := s.h.Model.NewDraft(s.h.Model.Top)
	d.B.Base.Unlock++
	s.bad, _ = d.Make("bad")
	return s
}

var small *setting

// ---- messages

func shake(s *setting, id uint64, known bool) nodew.Frame {
	sync := nodew.SyncData(s.height, s.base.Top())
	if !known {
		sync = nodew.SyncData(s.height+2, s.next[1].ID)
	}
	return nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(nt.NetworkID[:], nt.P2PCurrentVersion, id), sync))
}

func wrongNetwork(s *setting) nodew.Frame {
	x := append([]byte{}, nt.NetworkID[:]...)
	x[3] ^= 0x40
	return nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(x, nt.P2PCurrentVersion, 5), nodew.SyncData(1, s.base.Top())))
}

func timed(s *setting) nodew.Frame {
	return nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(s.height, s.base.Top())))
}

func entry(start, total uint64, l ...chainm.Hash) nodew.Frame {
	return nodew.Notify(nodew.ChainEntry, nodew.Encode("NotificationResponseChainEntry", start, total, nodew.Hashes(l...)))
}

func honestEntry(s *setting) nodew.Frame {
	return entry(uint64(len(s.base)-1), uint64(len(s.base)+2), s.base.Top(), s.next[0].ID, s.next[1].ID)
}

func objects(height int, blocks ...[]byte) nodew.Frame {
	l := kvm.L{}
	for _, b := range blocks {
		l = append(l, kvm.L{b, nil})
	}
	return nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, l, uint64(height), nil))
}

func head(sig, size uint64, cmd uint32) []byte {
	b := nodew.Frame{Cmd: cmd, Return: 1, Flags: 1}.Bytes()
	binary.LittleEndian.PutUint64(b, sig)
	binary.LittleEndian.PutUint64(b[8:], size)
	return b
}

const levin = 0x0101010101012101

// ---- events on a connection

// what is known of a connection
type state int

const (
	fresh   state = iota // before the handshake
	shaken               // must answer
	unclear              // may answer, may be closed
	stuck                // in the middle of a frame, or the node's writing waits
	ending               // the node must close it
)

type conn struct {
	p     *nodew.Peer
	st    state
	rest  []byte // of the frame begun
	times int    // handshakes
	deaf  bool   // the remote does not read
}

type event struct {
	name string
	do   func(w *nodew.World, k *conn)
}

// to sends a message whose effect is open.
func to(f func() nodew.Frame) func(w *nodew.World, k *conn) {
	return func(w *nodew.World, k *conn) {
		k.p.Send(f())
		if k.st != stuck && k.st != ending {
			k.st = unclear
		}
	}
}

// refused is a message after which the node must close.
func refused(f func() nodew.Frame) func(w *nodew.World, k *conn) {
	return func(w *nodew.World, k *conn) {
		k.p.Send(f())
		if k.st == fresh || k.st == shaken {
			k.st = ending
		}
	}
}

func broken(b []byte) func(w *nodew.World, k *conn) {
	return func(w *nodew.World, k *conn) {
		_, _ = k.p.Conn.Write(b)
		if k.st == fresh || k.st == shaken {
			k.st = ending
		}
	}
}

func events(deep bool) (out []event) {
	s := small
	add := func(name string, do func(w *nodew.World, k *conn)) { out = append(out, event{name, do}) }
	add("handshake", func(w *nodew.World, k *conn) {
		k.p.Send(shake(s, uint64(len(w.Peers)), true))
		k.times++
		switch {
		case k.st == fresh:
			k.st = shaken
		case k.st == shaken:
			k.st = unclear // C24 decides
		}
	})
	add("handshake of one ahead", func(w *nodew.World, k *conn) {
		k.p.Send(shake(s, uint64(len(w.Peers)), false))
		k.times++
		switch {
		case k.st == fresh:
			k.st = shaken
		case k.st == shaken:
			k.st = unclear
		}
	})
	add("timed sync", func(w *nodew.World, k *conn) { k.p.Send(timed(s)) })
	add("chain answer", to(func() nodew.Frame { return honestEntry(s) }))
	add("blocks", to(func() nodew.Frame {
		return objects(len(s.base)+2, s.next[0].B.Bytes(), s.next[1].B.Bytes())
	}))
	add("an invalid block", to(func() nodew.Frame { return objects(len(s.base)+2, s.bad.B.Bytes()) }))
	add("wrong network", refused(func() nodew.Frame { return wrongNetwork(s) }))
	add("empty chain answer", refused(func() nodew.Frame { return entry(0, 1) }))
	add("chain request of nothing", refused(func() nodew.Frame {
		return nodew.Notify(nodew.RequestChain, nodew.Encode("NotificationRequestChain", []byte{}))
	}))
	add("chain request", to(func() nodew.Frame {
		return nodew.Notify(nodew.RequestChain, nodew.Encode("NotificationRequestChain", nodew.Hashes(s.base.Sparse()...)))
	}))
	add("malformed payload", to(func() nodew.Frame { return nodew.Command(nodew.Handshake, []byte{1, 17, 1, 1}) }))
	add("unknown command", to(func() nodew.Frame { return nodew.Command(4242, nil) }))
	hs := shake(s, 77, true).Bytes()
	cuts := []int{1, 33, 40}
	if deep {
		cuts = []int{1, 8, 20, 32, 33, 34, 40, len(hs) - 1}
	}
	for _, n := range cuts {
		n := n
		add(fmt.Sprintf("%d bytes of a frame", n), func(w *nodew.World, k *conn) {
			_, _ = k.p.Conn.Write(hs[:n])
			if k.st == fresh || k.st == shaken {
				k.st = stuck
				k.rest = hs[n:]
			} else {
				k.st = orStuck(k.st)
				k.rest = nil
			}
		})
	}
	add("the rest of the frame", func(w *nodew.World, k *conn) {
		if k.rest != nil {
			_, _ = k.p.Conn.Write(k.rest)
			k.rest = nil
			k.st = unclear
			if k.deaf {
				k.st = stuck
			}
		}
	})
	add("wrong signature", broken(head(levin^1<<40, 0, 1001)))
	add("garbage", broken(bytes.Repeat([]byte{0xfe}, 33)))
	add("too big", broken(head(levin, 100000001, 1001)))
	add("huge", broken(head(levin, 1<<64-1, 1001)))
	end := func(f func(k *conn)) func(w *nodew.World, k *conn) {
		return func(w *nodew.World, k *conn) {
			f(k)
			k.st = ending
			k.p.Gone = true
		}
	}
	add("close", end(func(k *conn) { k.p.Close() }))
	add("reset", end(func(k *conn) { k.p.Conn.Abort() }))
	add("half close", func(w *nodew.World, k *conn) {
		_ = k.p.Conn.CloseWrite()
		if k.st != stuck || k.p.Conn.Unread() == 0 {
			k.st = halfEnd(k)
		}
	})
	add("stops reading", func(w *nodew.World, k *conn) {
		k.p.Conn.Limit(10)
		k.deaf = true
		k.st = orStuck(k.st)
	})
	add("writes fail", func(w *nodew.World, k *conn) {
		k.p.Conn.Cut(17, os.NewSyscallError("write", syscall.EPIPE))
		if k.st != stuck && k.st != ending {
			k.st = unclear
		}
	})
	add("wait", func(w *nodew.World, k *conn) { time.Sleep(6100 * time.Millisecond) })
	return
}

func orStuck(s state) state {
	if s == ending {
		return s
	}
	return stuck
}

// halfEnd: after the remote's last byte the node must end, unless its writing waits.
func halfEnd(k *conn) state {
	if k.st == stuck {
		return stuck
	}
	return ending
}

// ---- obligations

func closing(w *nodew.World, k *conn, what string) {
	t := time.Now()
	for !k.p.Closed() {
		if time.Since(t) > patience {
			w.Fail("%s: the connection is still open after %v", what, patience)
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
}

// answered waits for the answer to a command.
func answered(w *nodew.World, p *nodew.Peer, cmd uint32, what string) {
	t := time.Now()
	for {
		for _, f := range p.Recv() {
			if f.Cmd == cmd && f.Flags&2 != 0 {
				return
			}
		}
		if p.Closed() {
			w.Fail("%s: the connection is closed", what)
		}
		if time.Since(t) > patience {
			w.Fail("%s: no answer in %v", what, patience)
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
}

// probe sees that the node serves a new connection.
func probe(w *nodew.World, s *setting, what string) {
	p := w.Connect()
	p.Send(shake(s, 1<<40+uint64(len(w.Peers)), true))
	answered(w, p, nodew.Handshake, what+": handshake of a new connection")
	p.Send(timed(s))
	answered(w, p, nodew.TimedSync, what+": timed sync of a new connection")
	p.Close()
	synctest.Wait()
	closing(w, &conn{p: p}, what+": a new connection, closed by the peer")
}

func owed(w *nodew.World, s *setting, ks []*conn, what string) {
	for i, k := range ks {
		ctx := fmt.Sprintf("%s: connection %d", what, i)
		switch k.st {
		case ending:
			closing(w, k, ctx)
		case shaken:
			k.p.Recv()
			k.p.Send(timed(s))
			answered(w, k.p, nodew.TimedSync, ctx)
		}
	}
}

func bubble(w, i int, s *setting, desc func() string, f func(nw *nodew.World)) {
	c.Set(w, desc())
	bc, _ := s.h.NewChain()
	left := nodew.Bubble(T, func() {
		nw := nodew.New(c, w, i, bc, desc)
		f(nw)
	})
	if left != "" {
		c.Fail(desc(), "something is left behind after the node stopped: %s", left)
	}
	c.Litter(desc())
	c.Eval(1)
	c.Trace(1)
	c.Distinct(desc())
}

// ---- 1. sequences of events on one connection, then on the next one

// end of a sequence
const (
	endNow   = iota // told to stop at once
	endSoon         // half a second later
	endTick         // at the moment the node wakes
	endLate         // after it has settled
	endProbe        // what is owed is seen and another connection served before
	nEnds
)

func sequence(w, i int, evs []event, seq []int, gap, end int) {
	desc := func() string {
		var t []string
		for _, e := range seq {
			t = append(t, evs[e].name)
		}
		return fmt.Sprintf("%s; gap %d; end %d", strings.Join(t, ", "), gap, end)
	}
	s := small
	bubble(w, i, s, desc, func(nw *nodew.World) {
		nw.Start()
		var ks []*conn
		for _, e := range seq {
			if len(ks) == 0 || ks[len(ks)-1].st == ending {
				ks = append(ks, &conn{p: nw.Connect()})
			}
			evs[e].do(nw, ks[len(ks)-1])
			switch gap {
			case 1:
				time.Sleep(1500 * time.Millisecond)
				synctest.Wait()
			case 2:
				nodew.Settle()
			}
			c.Transition(1)
		}
		switch end {
		case endSoon:
			time.Sleep(500 * time.Millisecond)
		case endTick:
			time.Sleep(time.Second)
		case endLate:
			nodew.Settle()
		case endProbe:
			owed(nw, s, ks, "before")
			probe(nw, s, "probe")
			owed(nw, s, ks, "after")
		}
		nw.Stop()
		for _, k := range ks {
			c.Outcome(fmt.Sprintf("ended in state %d", k.st))
		}
	})
}

// ---- 2. two connections, events interleaved

func interleaved(w, i int, evs []event, a, b []int, order int) {
	desc := func() string {
		n := func(l []int) string {
			var t []string
			for _, e := range l {
				t = append(t, evs[e].name)
			}
			return strings.Join(t, ", ")
		}
		return fmt.Sprintf("one connection: %s; another: %s; order %b", n(a), n(b), order)
	}
	s := small
	bubble(w, i, s, desc, func(nw *nodew.World) {
		nw.Start()
		ks := []*conn{{p: nw.Connect()}, {p: nw.Connect()}}
		l := [2][]int{a, b}
		for step := 0; len(l[0])+len(l[1]) > 0; step++ {
			k := order >> uint(step) & 1
			if len(l[k]) == 0 {
				k = 1 - k
			}
			if ks[k].st != ending {
				evs[l[k][0]].do(nw, ks[k])
				nodew.Settle()
			}
			l[k] = l[k][1:]
			c.Transition(1)
		}
		owed(nw, s, ks, "before")
		probe(nw, s, "probe")
		owed(nw, s, ks, "after")
		nw.Stop()
	})
}

// ---- 3. accepting fails

type failure struct {
	name string
	err  error
}

type slow struct{}

func (slow) Error() string   { return "slow" }
func (slow) Timeout() bool   { return true }
func (slow) Temporary() bool { return true }

var failures = []failure{
	{"EMFILE", os.NewSyscallError("accept4", syscall.EMFILE)},
	{"ENFILE", os.NewSyscallError("accept4", syscall.ENFILE)},
	{"ECONNABORTED", os.NewSyscallError("accept4", syscall.ECONNABORTED)},
	{"ENOBUFS", os.NewSyscallError("accept4", syscall.ENOBUFS)},
	{"ENOMEM", os.NewSyscallError("accept4", syscall.ENOMEM)},
	{"EPROTO", os.NewSyscallError("accept4", syscall.EPROTO)},
	{"EPERM", os.NewSyscallError("accept4", syscall.EPERM)},
	{"ENETDOWN", os.NewSyscallError("accept4", syscall.ENETDOWN)},
	{"EINTR", os.NewSyscallError("accept4", syscall.EINTR)},
	{"deadline", os.ErrDeadlineExceeded},
	{"timeout", slow{}},
	{"other", errors.New("other")},
}

// accepting: between connections so many accepts fail; -1 in the list is a connection made.
func accepting(w, i int, l []int, end int) {
	desc := func() string {
		var t []string
		for _, x := range l {
			if x < 0 {
				t = append(t, "connection")
			} else {
				t = append(t, failures[x].name)
			}
		}
		if len(t) > 30 {
			t = append(t[:30], fmt.Sprintf("... %d", len(l)))
		}
		return fmt.Sprintf("accepting: %s; end %d", strings.Join(t, ", "), end)
	}
	s := small
	bubble(w, i, s, desc, func(nw *nodew.World) {
		nw.Start()
		var ps []*nodew.Peer
		for _, x := range l {
			if x < 0 {
				p := nw.Connect()
				p.Send(shake(s, uint64(len(nw.Peers)), true))
				ps = append(ps, p)
			} else {
				vnet.ListenerAt(nw.Addr).Fail(failures[x].err)
			}
			c.Transition(1)
		}
		switch end {
		case endSoon:
			time.Sleep(500 * time.Millisecond)
		case endTick:
			time.Sleep(time.Second)
		case endProbe:
			// each failure may cost a few seconds
			time.Sleep(time.Duration(len(l)) * 10 * time.Second)
			synctest.Wait()
			for k, p := range ps {
				answered(nw, p, nodew.Handshake, fmt.Sprint("connection ", k))
			}
			probe(nw, s, "probe")
		}
		nw.Stop()
	})
}

// ---- 4. the moment of stopping

func moment(w, i int, script string, at time.Duration) {
	desc := func() string { return fmt.Sprintf("%s; stopped after %v", script, at) }
	s := small
	bubble(w, i, s, desc, func(nw *nodew.World) {
		begin := time.Now()
		nw.Start()
		until := func(d time.Duration) bool {
			if d > at {
				d = at
			}
			if x := d - time.Since(begin); x > 0 {
				time.Sleep(x)
			}
			return d < at
		}
		f := func() {
			ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
			var p *nodew.Peer
			switch script {
			case "nobody":
				until(at)
				return
			case "many":
				for k := 0; k < 12; k++ {
					if !until(ms(500 * k)) {
						return
					}
					p := nw.Connect()
					p.Send(shake(s, uint64(k+1), k%2 == 0))
				}
				until(at)
				return
			}
			if !until(ms(300)) {
				return
			}
			p = nw.Connect()
			if script == "silent" {
				until(at)
				return
			}
			if script == "slow" {
				b := shake(s, 4, true).Bytes()
				for k := range b {
					if !until(ms(300 + 100*k)) {
						return
					}
					_, _ = p.Conn.Write(b[k : k+1])
				}
			} else {
				p.Send(shake(s, 4, false))
			}
			if script == "unread" {
				p.Conn.Limit(40)
			}
			if !until(ms(3000)) {
				return
			}
			p.Send(honestEntry(s))
			if !until(ms(5200)) {
				return
			}
			p.Send(objects(len(s.base)+2, s.next[0].B.Bytes(), s.next[1].B.Bytes()))
			if !until(ms(8700)) {
				return
			}
			p.Send(timed(s))
			if !until(ms(11000)) {
				return
			}
			p.Close()
			until(at)
		}
		f()
		nw.Stop()
		c.Transition(1)
	})
}

// ---- 5. handlers are gone when their connections are

var profMu sync.Mutex

func goroutines(label string) int {
	profMu.Lock()
	defer profMu.Unlock()
	var b bytes.Buffer
	if err := pprof.Lookup("goroutine").WriteTo(&b, 1); err != nil {
		panic(err)
	}
	n, last := 0, 0
	for _, l := range strings.Split(b.String(), "\n") {
		if i := strings.Index(l, " @"); i > 0 && l[0] >= '0' && l[0] <= '9' {
			last, _ = strconv.Atoi(l[:i])
		}
		if strings.HasPrefix(l, "# labels:") && strings.Contains(l, strconv.Quote(label)) {
			n += last
		}
	}
	return n
}

func handlers(w, i int, evs []event, seq []int) {
	desc := func() string {
		var t []string
		for _, e := range seq {
			t = append(t, evs[e].name)
		}
		return "handlers after " + strings.Join(t, ", ")
	}
	s := small
	label := fmt.Sprintf("world-%d", i)
	bubble(w, i, s, desc, func(nw *nodew.World) {
		done := make(chan struct{})
		pprof.Do(context.Background(), pprof.Labels("verif", label), func(context.Context) {
			nw.Start()
			close(done)
		})
		<-done
		nodew.Settle()
		before := goroutines(label)
		if before == 0 {
			panic("c27: the node's goroutines cannot be counted")
		}
		const n = 8
		for k := 0; k < n; k++ {
			x := &conn{p: nw.Connect()}
			for _, e := range seq {
				if x.st == ending {
					break
				}
				evs[e].do(nw, x)
				nodew.Settle()
			}
			if x.st != ending {
				x.p.Close()
				synctest.Wait()
			}
			closing(nw, x, "ended connection")
		}
		nodew.Settle()
		nodew.Settle()
		if after := goroutines(label); after >= before+n {
			nw.Fail("%d connections have ended and %d goroutines of the node more are left", n, after-before)
		}
		c.Transition(1)
		nw.Stop()
	})
}

// ---- 6. any message in any state

// the states a connection is brought to
var prepared = []string{"fresh", "shaken", "chain asked for", "blocks asked for"}

func prepare(nw *nodew.World, s *setting, st int, entries nodew.Frame) *nodew.Peer {
	p := nw.Connect()
	if st > 0 {
		p.Send(shake(s, 9, st == 1))
		nodew.Settle()
	}
	if st == 3 {
		p.Send(entries)
		nodew.Settle()
	}
	got := p.Recv()
	if len(got) != st {
		nw.Fail("the exchange does not reach the state %q: %v", prepared[st], got)
	}
	return p
}

type message struct {
	name string
	b    []byte
}

func messages() (out []message) {
	ids := map[string]uint32{
		"HandshakeRequest": nodew.Handshake, "HandshakeResponse": nodew.Handshake, "TimedSyncRequest": nodew.TimedSync, "TimedSyncResponse": nodew.TimedSync,
		"PingRequest": nodew.Ping, "PingResponse": nodew.Ping, "NotificationTxPool": nodew.TxPool, "NotificationNewBlock": nodew.NewBlock,
		"NotificationNewTransactions": nodew.NewTxs, "NotificationRequestGetObjects": nodew.GetObjects, "NotificationResponseGetObjects": nodew.Objects,
		"NotificationRequestChain": nodew.RequestChain, "NotificationResponseChainEntry": nodew.ChainEntry, "NotificationNewLiteBlock": nodew.NewLite,
	}
	add := func(name string, f nodew.Frame) { out = append(out, message{name, f.Bytes()}) }
	frames := func(name string, id uint32, b []byte) {
		if id < 2000 {
			add(name, nodew.Command(id, b))
			add(name+" as an answer", nodew.Answer(id, b))
		} else {
			add(name, nodew.Notify(id, b))
		}
	}
	all := []uint32{}
	for _, id := range []uint32{nodew.Handshake, nodew.TimedSync, nodew.Ping, nodew.NewBlock, nodew.NewTxs, nodew.GetObjects, nodew.Objects, 2005, nodew.RequestChain, nodew.ChainEntry, nodew.TxPool, nodew.NewLite, 0, 1000, 1004, 2000, 2010, 1<<32 - 1} {
		all = append(all, id)
	}
	for _, m := range kvm.Msgs {
		id, ok := ids[m.Name]
		if !ok {
			continue
		}
		vs := kvm.Alphabet(m.T, 0)
		// values that matter here: known and unknown hashes, blocks that can be read
		step := 1
		max := 600
		if c.Thorough {
			max = 4000
		}
		if len(vs) > max {
			step = len(vs)/max + 1
		}
		for i := 0; i < len(vs); i += step {
			frames(fmt.Sprintf("%s %s", m.Name, kvm.Show(vs[i])), id, ref.KVEncode(m.T, vs[i]))
		}
		// under every other number
		b := ref.KVEncode(m.T, vs[len(vs)/2])
		for _, x := range all {
			for _, ret := range []byte{0, 1, 255} {
				for _, fl := range []uint32{0, 1, 2, 3} {
					add(fmt.Sprintf("%s as %d return=%d flags=%d", m.Name, x, ret, fl), nodew.Frame{Cmd: x, Return: ret, Flags: fl, Payload: b})
				}
			}
		}
	}
	s := small
	// every byte of the messages that are acted on
	for _, x := range []struct {
		name string
		f    nodew.Frame
	}{
		{"handshake", shake(s, 9, false)},
		{"timed sync", timed(s)},
		{"chain answer", honestEntry(s)},
		{"blocks", objects(len(s.base)+2, s.next[0].B.Bytes(), s.next[1].B.Bytes())},
		{"chain request", nodew.Notify(nodew.RequestChain, nodew.Encode("NotificationRequestChain", nodew.Hashes(s.base.Sparse()...)))},
	} {
		for i := range x.f.Payload {
			vals := []byte{0, 0xff, x.f.Payload[i] ^ 1, x.f.Payload[i] ^ 0x80}
			if c.Thorough {
				vals = append(vals, x.f.Payload[i]^2, x.f.Payload[i]^4, x.f.Payload[i]^0x10, 3, 0xfc, 10, 12)
			}
			for _, v := range vals {
				f := x.f
				f.Payload = append([]byte{}, f.Payload...)
				f.Payload[i] = v
				add(fmt.Sprintf("%s with byte %d = %d", x.name, i, v), f)
			}
			f := x.f
			f.Payload = f.Payload[:i]
			add(fmt.Sprintf("%s of %d bytes", x.name, i), f)
		}
	}
	for _, n := range []uint64{0, 1, 2, 1 << 16, 1<<32 - 1} {
		for _, m := range []uint64{0, 1, 1 << 16, 1<<32 - 1} {
			for _, l := range [][]chainm.Hash{{s.base[0]}, {s.base.Top(), s.next[0].ID}, {s.next[0].ID}, append([]chainm.Hash{}, s.base...)} {
				add(fmt.Sprintf("chain answer start=%d total=%d %d hashes", n, m, len(l)), entry(n, m, l...))
			}
			add(fmt.Sprintf("blocks height=%d", n), objects(int(n), s.next[0].B.Bytes()))
		}
	}
	return
}

func anyMessage(w, i int, st int, m message) {
	desc := func() string { return fmt.Sprintf("%s: %s", prepared[st], m.name) }
	s := small
	bubble(w, i, s, desc, func(nw *nodew.World) {
		nw.Start()
		p := prepare(nw, s, st, honestEntry(s))
		_, _ = p.Conn.Write(m.b)
		nodew.Settle()
		nodew.Settle()
		c.Outcome(fmt.Sprintf("message: closed=%v", p.Closed()))
		probe(nw, s, "after it")
		p.Close()
		synctest.Wait()
		closing(nw, &conn{p: p}, "closed by the peer")
		nw.Stop()
		c.Transition(1)
	})
}

// ---- 7. any block

type weird struct {
	name string
	b    []byte
	id   chainm.Hash
	txs  [][]byte
}

func weirdBlocks(s *setting) (out []weird) {
	m := s.h.Model.Clone()
	d := m.NewDraft(m.Top)
	d.Txs = append(d.Txs, chainm.Tx(1, 1, 1, 1000000000000, []byte{1, 2, 3}))
	b, raw := d.Finish()
	good := b.Bytes()
	try := func(name string, x []byte, txs [][]byte) {
		y, _, v := ref.DecodeBlock(x)
		if v != ref.CodecAccept {
			return // such a block has no name it could be asked for by
		}
		out = append(out, weird{name, x, y.ID(), txs})
	}
	try("plain", good, raw)
	for i := range good {
		vals := []byte{good[i] ^ 1, 0xff}
		if c.Thorough {
			vals = append(vals, 0, 0x7f, good[i]^0x80, good[i]+1, good[i]<<1)
		}
		for _, v := range vals {
			x := append([]byte{}, good...)
			x[i] = v
			try(fmt.Sprintf("byte %d = %d", i, v), x, raw)
		}
	}
	for i := range raw[0] {
		vals := []byte{raw[0][i] ^ 1, 0xff}
		if c.Thorough {
			vals = append(vals, 0, 0x7f, raw[0][i]^0x80, raw[0][i]+1, raw[0][i]<<1)
		}
		for _, v := range vals {
			x := append([]byte{}, raw[0]...)
			x[i] = v
			d2 := *d
			d2.Raw = [][]byte{x}
			d2.List = []ref.Hash{ref.Keccak(x)}
			b2, _ := d2.Finish()
			try(fmt.Sprintf("transaction's byte %d = %d", i, v), b2.Bytes(), [][]byte{x})
		}
	}
	for _, l := range [][][]byte{nil, {}, {{}}, {raw[0], raw[0]}, {nil, raw[0]}, {raw[0], {}}, {raw[0][:1]}, {raw[0][:len(raw[0])-1]}, {append(append([]byte{}, raw[0]...), 0)}, make([][]byte, 200)} {
		try(fmt.Sprintf("%d transactions sent", len(l)), good, l)
	}
	for name, f := range map[string]func(b *ref.Block){
		"no inputs":  func(b *ref.Block) { b.Base.Ins = nil },
		"no outputs": func(b *ref.Block) { b.Base.Outs = nil },
		"two inputs": func(b *ref.Block) { b.Base.Ins = append(b.Base.Ins[:1:1], b.Base.Ins[0]) },
		"key input": func(b *ref.Block) {
			b.Base.Ins = chainm.Tx(2, 1, 1, 1, nil).Ins
			b.Base.Sigs = chainm.Tx(2, 1, 1, 1, nil).Sigs
		},
		"far index":  func(b *ref.Block) { b.Base.Ins = []ref.TxIn{txm.Coinbase(1<<32 - 1)} },
		"index 0":    func(b *ref.Block) { b.Base.Ins = []ref.TxIn{txm.Coinbase(0)} },
		"unlock 0":   func(b *ref.Block) { b.Base.Unlock = 0 },
		"unlock max": func(b *ref.Block) { b.Base.Unlock = 1<<64 - 1 },
		"outputs overflow": func(b *ref.Block) {
			b.Base.Outs = append(b.Base.Outs, ref.TxOut{Amount: 1<<64 - 1, Key: chainm.Keys[0].Pub})
		},
		"empty extra":         func(b *ref.Block) { b.Base.Extra = nil },
		"extra cut":           func(b *ref.Block) { b.Base.Extra = []byte{1} },
		"extra nonce cut":     func(b *ref.Block) { b.Base.Extra = []byte{2, 200, 1} },
		"extra merge cut":     func(b *ref.Block) { b.Base.Extra = []byte{3, 33} },
		"extra padding":       func(b *ref.Block) { b.Base.Extra = make([]byte, 300) },
		"timestamp 0":         func(b *ref.Block) { b.TS = 0 },
		"timestamp max":       func(b *ref.Block) { b.TS = 1<<64 - 1 },
		"many transactions":   func(b *ref.Block) { b.Hashes = make([]ref.Hash, 1000) },
		"no transactions":     func(b *ref.Block) { b.Hashes = nil },
		"transaction twice":   func(b *ref.Block) { b.Hashes = append(b.Hashes[:1:1], b.Hashes[0]) },
		"coinbase signatures": func(b *ref.Block) { b.Base.Version = 1 },
	} {
		for _, major := range []byte{0, 1, 2, 3, 4, 5, 6, 255} {
			x := *b
			x.Base.Ins = append([]ref.TxIn{}, b.Base.Ins...)
			f(&x)
			x.Major = major
			if (major == 2 || major == 3) && x.Parent == nil {
				x.Parent = &ref.Parent{Major: 1, TxCount: 1}
				x.Parent.Tx = ref.Tx{Version: 1, Ins: []ref.TxIn{txm.Coinbase(7)}, Extra: []byte{3, 33}}
			}
			var bs []byte
			if p := vlib.Try(func() { bs = x.Bytes() }); p != "" {
				continue
			}
			try(fmt.Sprintf("%s, version %d", name, major), bs, raw)
		}
	}
	return
}

func anyBlock(w, i int, s *setting, x weird, zone bool) {
	desc := func() string { return fmt.Sprintf("%d blocks, zone %v: a block with %s", len(s.base), zone, x.name) }
	bubble(w, i, s, desc, func(nw *nodew.World) {
		if zone {
			if err := nw.BC.Checkpoints.AddCheckpoint(s.h.Model.Top.Index+1000, ref.Keccak([]byte("point"))); err != nil {
				panic(err)
			}
		}
		nw.Start()
		height := s.h.Model.Top.Index + 1
		p := nw.Connect()
		p.Send(shake(s, 9, false))
		nodew.Settle()
		p.Send(entry(uint64(height-1), uint64(height+1), s.base.Top(), x.id))
		nodew.Settle()
		if got := p.Recv(); len(got) != 3 {
			nw.Fail("the exchange does not reach the request for blocks: %v", got)
		}
		var txs interface{}
		if x.txs != nil {
			l := kvm.L{}
			for _, t := range x.txs {
				l = append(l, append([]byte{}, t...))
			}
			txs = l
		}
		p.Send(nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, kvm.L{kvm.L{x.b, txs}}, uint64(height+1), nil)))
		nodew.Settle()
		nodew.Settle()
		c.Outcome(fmt.Sprintf("block: added=%v closed=%v", nw.BC.TopBlock().Index() == height, p.Closed()))
		probe(nw, s, "after it")
		nw.Stop()
		c.Transition(1)
	})
}

// ---- 8. starting and stopping

func starting(w, i int, kind string) {
	desc := func() string { return "starting: " + kind }
	s := small
	run := func(nw *nodew.World) (err error, ok bool) {
		done := make(chan struct{})
		go func() {
			err = nw.Node.Run(nw.Ctx)
			close(done)
		}()
		t := time.NewTimer(patience)
		defer t.Stop()
		select {
		case <-done:
			return err, true
		case <-t.C:
			return nil, false
		}
	}
	bubble(w, i, s, desc, func(nw *nodew.World) {
		switch kind {
		case "already told to stop":
			nw.Cancel()
			if err, ok := run(nw); !ok || err != nil {
				nw.Fail("returned %v, error %v", ok, err)
			}
			if vnet.ListenerAt(nw.Addr) != nil {
				nw.Fail("it listens")
			}
		case "address in use":
			nw.Start()
			bc, _ := s.h.NewChain()
			other := nodew.New(c, w, i, bc, desc)
			if err, ok := run(other); !ok || err == nil {
				other.Fail("returned %v, error %v", ok, err)
			}
			other.Cancel()
			probe(nw, s, "the first node")
			nw.Stop()
		case "address free again":
			nw.Start()
			probe(nw, s, "the first node")
			nw.Stop()
			bc, _ := s.h.NewChain()
			other := nodew.New(c, w, i, bc, desc)
			other.Start()
			probe(other, s, "the second node")
			other.Stop()
		case "malformed address":
			nw.Node.Config.BindAddr = "10.0.0.1"
			if err, ok := run(nw); !ok || err == nil {
				nw.Fail("returned %v, error %v", ok, err)
			}
			nw.Cancel()
		}
		c.Transition(1)
	})
}

func TestVerif(t *testing.T) {
	c = vlib.New("C27")
	T = t
	small = newSetting(5, 5)
	n := 0
	each := func(name string, k int, f func(w, i int)) {
		c.Cov(name, k)
		base := n
		c.Each(name, k, func(w, i int) { f(w, base+i) })
		n += k
	}
	// 8, 3, 4, 5: small
	kinds := []string{"already told to stop", "address in use", "address free again", "malformed address"}
	{
		base := n
		each("starting and stopping", len(kinds), func(w, i int) { starting(w, i, kinds[i-base]) })
	}
	{
		var ls [][]int
		F := len(failures)
		for a := 0; a < F; a++ {
			ls = append(ls, []int{a}, []int{a, -1}, []int{-1, a}, []int{-1, a, -1})
			for b := 0; b < F; b++ {
				ls = append(ls, []int{a, b, -1}, []int{a, -1, b, -1})
				if c.Thorough {
					for d := 0; d < F; d++ {
						ls = append(ls, []int{a, b, d, -1}, []int{-1, a, b, -1, d})
					}
				}
			}
			for _, k := range []int{3, 4, 5, 6, 7, 8, 10, 12, 16, 32, 64, 100} {
				l := make([]int, k)
				for j := range l {
					l[j] = a
				}
				ls = append(ls, append(l, -1))
			}
		}
		ends := []int{endNow, endSoon, endTick, endProbe}
		base := n
		each("failing accepts", len(ls)*len(ends), func(w, i int) { i -= base; accepting(w, i+base, ls[i/len(ends)], ends[i%len(ends)]) })
	}
	{
		scripts := []string{"nobody", "silent", "slow", "plain", "unread", "many"}
		step := 100 * time.Millisecond
		if c.Thorough {
			step = 20 * time.Millisecond
		}
		k := int(16*time.Second/step) + 1
		base := n
		each("moments of stopping", len(scripts)*k, func(w, i int) { i -= base; moment(w, i+base, scripts[i/k], time.Duration(i%k)*step) })
	}
	few, deep := events(false), events(true)
	{
		base := n
		var ls [][]int
		for a := range deep {
			ls = append(ls, []int{a})
		}
		for a := range few {
			if c.Thorough {
				for b := range deep {
					ls = append(ls, []int{a, b})
				}
			}
		}
		evs := deep
		each("handlers counted", len(ls), func(w, i int) { handlers(w, i, evs, ls[i-base]) })
	}
	// 1
	{
		E := len(few)
		var jobs [][3]int // sequence, gap, end
		depth := 3
		if c.Thorough {
			depth = 4
		}
		start := 0
		for l, k := 1, E; l <= depth; l, k = l+1, k*E {
			for q := 0; q < k; q++ {
				for gap := 0; gap < 3; gap++ {
					for end := 0; end < nEnds; end++ {
						if l == 4 && end != endProbe && end != q/E/E%4 {
							continue
						}
						jobs = append(jobs, [3]int{q + l<<32, gap, end})
					}
				}
			}
			start += k
		}
		base := n
		each("sequences of events", len(jobs), func(w, i int) {
			j := jobs[i-base]
			q, l := j[0]&(1<<32-1), j[0]>>32
			seq := make([]int, l)
			for k := range seq {
				seq[k] = q % E
				q /= E
			}
			sequence(w, i, few, seq, j[1], j[2])
		})
	}
	// 2
	{
		E := len(few)
		D := len(deep)
		base := n
		each("pairs on two connections", E*D*2, func(w, i int) {
			q := i - base
			interleaved(w, i, mixed(few, deep), []int{q % E}, []int{E + q/E%D}, q/E/D)
		})
		if c.Thorough {
			base := n
			each("two and two on two connections", E*E*E*E, func(w, i int) {
				q := i - base
				interleaved(w, i, few, []int{q % E, q / E % E}, []int{q / E / E % E, q / E / E / E}, []int{10, 6, 12, 5}[q%4])
			})
		} else {
			base := n
			each("two and one on two connections", E*E*E, func(w, i int) {
				q := i - base
				interleaved(w, i, few, []int{q % E, q / E % E}, []int{q / E / E % E}, []int{1, 2, 4}[q%3])
			})
		}
	}
	// 6
	{
		ms := messages()
		base := n
		each("messages in each state", len(ms)*len(prepared), func(w, i int) { q := i - base; anyMessage(w, i, q%len(prepared), ms[q/len(prepared)]) })
		c.Sample(ms[len(ms)/2].name)
	}
	// 7
	{
		type job struct {
			s    *setting
			x    weird
			zone bool
		}
		var jobs []job
		for _, top := range []uint32{5, 60010, 216020, 266020, 700130} {
			s := newSetting(top, 130)
			for _, x := range weirdBlocks(s) {
				jobs = append(jobs, job{s, x, false}, job{s, x, true})
			}
		}
		base := n
		each("weird blocks", len(jobs), func(w, i int) { j := jobs[i-base]; anyBlock(w, i, j.s, j.x, j.zone) })
	}
	c.Done()
}

func mixed(a, b []event) []event { return append(append([]event{}, a...), b...) }
