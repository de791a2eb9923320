//go:build go1.21

package c24

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var (
	c   *vlib.Ctx
	net = config.TestNet()
	T   *testing.T
)

// setting is a chain the node has at the beginning and blocks it gets later.
type setting struct {
	name   string
	h      *chainm.History
	chain  chainm.Chain
	grow   []*chainm.Offer
	points map[uint32]chainm.Hash
}

func newSetting(top uint32, point uint32) *setting {
	s := &setting{name: fmt.Sprintf("top %d", top), h: chainm.NewHistory(top, int(top), chainm.Patterns[0])}
	s.chain = s.h.ChainOf()
	if point > 0 {
		s.points = map[uint32]chainm.Hash{point: ref.Keccak([]byte("point"))}
		s.name += fmt.Sprintf(", checkpoint at %d", point)
	}
	m := s.h.Model
	if point > 0 {
		m = m.Clone()
		m.Points[point] = s.points[point]
	}
	for k := 0; k < 4; k++ {
		o, n := m.NewDraft(m.Top).Make(fmt.Sprint("next ", k))
		if o.Bad {
			panic("c24: offer")
		}
		s.grow = append(s.grow, o)
		m = n
	}
	return s
}

// the model of the node
type connState struct {
	open, ended bool
	id          uint64
	shook       bool
	syncing     bool
}

type model struct {
	conns []connState
	grown int
	left  map[uint64]bool // identities of connections that ended
	fix   *announcement   // what the event announces if it was made before
}

type announcement struct {
	height uint32
	hash   chainm.Hash
}

func (m model) clone() model {
	n := model{append([]connState{}, m.conns...), m.grown, map[uint64]bool{}, nil}
	for k := range m.left {
		n.left[k] = true
	}
	return n
}

// ev is an event: something a peer does, or the chain growing.
type ev struct {
	conn int
	kind string
}

func (e ev) String() string { return fmt.Sprintf("%d:%s", e.conn, e.kind) }

// expect is what the node must do after an event.
type expect struct {
	handshakes, syncs int // answers
	maySync           bool
	chain             bool
	closed            bool
	mayClose          bool
}

const (
	idA = 0x1122334455667788
	idB = 1<<64 - 1
)

func ids(k int) uint64 { return []uint64{idA, idB, idA}[k] }

// kinds of messages; the payload is made for the chain as it is
type kind struct {
	name string
	id   func(conn int) uint64
	make func(s *setting, m *model, conn int) nodew.Frame
	// what it announces
	handshake, timed, bad, wrongNet bool
	top                             func(s *setting, m *model) (known bool, height uint32, hash chainm.Hash)
}

func (m *model) chain(s *setting) chainm.Chain {
	ch := s.chain
	for _, o := range s.grow[:m.grown] {
		ch = append(ch[:len(ch):len(ch)], o.ID)
	}
	return ch
}

var unknown = chainm.Hash(ref.Keccak([]byte("unknown")))

var tops = map[string]func(s *setting, m *model) (bool, uint32, chainm.Hash){
	"top": func(s *setting, m *model) (bool, uint32, chainm.Hash) {
		ch := m.chain(s)
		return true, uint32(len(ch)), ch.Top()
	},
	"genesis": func(s *setting, m *model) (bool, uint32, chainm.Hash) { return true, 1, s.chain[0] },
	"below": func(s *setting, m *model) (bool, uint32, chainm.Hash) {
		ch := m.chain(s)
		k := len(ch) - 2
		if k < 0 {
			k = 0
		}
		return true, uint32(k + 1), ch[k]
	},
	"ahead": func(s *setting, m *model) (bool, uint32, chainm.Hash) {
		return false, uint32(len(m.chain(s)) + 5), unknown
	},
	"next": func(s *setting, m *model) (bool, uint32, chainm.Hash) {
		if m.grown == len(s.grow) {
			return false, uint32(len(m.chain(s)) + 1), unknown
		}
		return false, uint32(len(m.chain(s)) + 1), s.grow[m.grown].ID
	},
	"fork": func(s *setting, m *model) (bool, uint32, chainm.Hash) { return false, uint32(len(m.chain(s))), unknown },
	"low":  func(s *setting, m *model) (bool, uint32, chainm.Hash) { return false, 1, unknown },
	"max":  func(s *setting, m *model) (bool, uint32, chainm.Hash) { return false, 1<<32 - 1, unknown },
	"zero": func(s *setting, m *model) (bool, uint32, chainm.Hash) { return false, 0, chainm.Hash{} },
}

var kinds = map[string]*kind{}

func shake(net []byte, version byte, id uint64, height uint32, top chainm.Hash) []byte {
	return nodew.Encode("HandshakeRequest", nodew.NodeData(net, version, id), nodew.SyncData(height, top))
}

func init() {
	myNet := func() []byte { return append([]byte{}, net.NetworkID[:]...) }
	for t, f := range tops {
		f := f
		kinds["shake-"+t] = &kind{handshake: true, top: f, id: ids, make: func(s *setting, m *model, conn int) nodew.Frame {
			_, h, x := f(s, m)
			return nodew.Command(nodew.Handshake, shake(myNet(), net.P2PCurrentVersion, ids(conn), h, x))
		}}
		kinds["timed-"+t] = &kind{timed: true, top: f, make: func(s *setting, m *model, conn int) nodew.Frame {
			_, h, x := f(s, m)
			return nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(h, x)))
		}}
	}
	kinds["shake-noid"] = &kind{handshake: true, top: tops["top"], id: func(int) uint64 { return 0 }, make: func(s *setting, m *model, conn int) nodew.Frame {
		_, h, x := tops["top"](s, m)
		return nodew.Command(nodew.Handshake, shake(myNet(), net.P2PCurrentVersion, 0, h, x))
	}}
	nets := map[string][]byte{"zero": make([]byte, 16), "ones": bytes.Repeat([]byte{0xff}, 16)}
	for i := 0; i < 16; i++ {
		b := myNet()
		b[i] ^= 1
		nets[fmt.Sprint("byte", i)] = b
	}
	for n, b := range nets {
		b := b
		kinds["shake-net-"+n] = &kind{handshake: true, wrongNet: true, make: func(s *setting, m *model, conn int) nodew.Frame {
			_, h, x := tops["top"](s, m)
			return nodew.Command(nodew.Handshake, shake(b, net.P2PCurrentVersion, ids(conn), h, x))
		}}
	}
	good := shake(myNet(), net.P2PCurrentVersion, idA, 1, unknown)
	long := func(b []byte, from, to string) []byte { return bytes.Replace(b, []byte(from), []byte(to), 1) }
	bad := map[string][]byte{
		"empty": {}, "cut": good[:len(good)-1], "half": good[:len(good)/2], "header": good[:9],
		"type":  long(good, "version\x08", "version\x0b"),
		"short": long(good, "network_id\x0a\x40", "network_id\x0a\x3c"),
		"sign":  append([]byte{2}, good[1:]...),
	}
	for n, b := range bad {
		b := b
		if _, v := ref.KVDecode(msgType, b); v != ref.KVReject {
			panic("c24: " + n + " is not malformed")
		}
		kinds["shake-bad-"+n] = &kind{bad: true, make: func(s *setting, m *model, conn int) nodew.Frame { return nodew.Command(nodew.Handshake, b) }}
	}
	// fields are missing: whatever is made of that, there is no network named
	for n, drop := range map[string][]string{"nonode": {"node_data"}, "nonet": {"node_data.network_id"}, "nothing": {"node_data", "payload_data"}, "bare": {"node_data.network_id", "node_data.version", "node_data.local_time", "node_data.my_port"}} {
		drop := drop
		kinds["shake-bad-"+n] = &kind{bad: true, make: func(s *setting, m *model, conn int) nodew.Frame {
			_, h, x := tops["top"](s, m)
			return nodew.Command(nodew.Handshake, nodew.Without("HandshakeRequest", drop, nodew.NodeData(myNet(), net.P2PCurrentVersion, ids(conn)), nodew.SyncData(h, x)))
		}}
	}
	kinds["ping"] = &kind{make: func(s *setting, m *model, conn int) nodew.Frame {
		return nodew.Command(nodew.Ping, nodew.Encode("PingRequest"))
	}}
	kinds["unknown"] = &kind{make: func(s *setting, m *model, conn int) nodew.Frame {
		return nodew.Command(1099, nodew.Encode("PingRequest"))
	}}
	kinds["notify"] = &kind{make: func(s *setting, m *model, conn int) nodew.Frame {
		return nodew.Notify(nodew.NewTxs, nodew.Encode("NotificationNewTransactions", uint64(0), unknown[:]))
	}}
	for n, k := range kinds {
		k.name = n
	}
}

var msgType = func() ref.KVType {
	f := func(name string, t ref.KVType) ref.KVField { return ref.KVField{Name: name, T: t} }
	k := func(x ref.KVKind, n int) ref.KVType { return ref.KVType{Kind: x, N: n} }
	obj := func(fs ...ref.KVField) ref.KVType { return ref.KVType{Kind: ref.KObj, Fields: fs} }
	return obj(
		f("node_data", obj(f("network_id", k(ref.KFixed, 16)), f("version", k(ref.KU8, 0)), f("peer_id", k(ref.KU64, 0)), f("local_time", k(ref.KU64, 0)), f("my_port", k(ref.KU32, 0)))),
		f("payload_data", obj(f("current_height", k(ref.KU32, 0)), f("top_id", k(ref.KFixed, 32)))))
}()

// step is the model: the state after an event and what must be seen.
func (m *model) step(s *setting, e ev) (model, expect) {
	n := m.clone()
	if e.kind == "grow" {
		n.grown++
		return n, expect{}
	}
	k := kinds[e.kind]
	st := &n.conns[e.conn]
	if e.kind == "close" {
		n.end(e.conn)
		return n, expect{closed: true}
	}
	look := func(x *expect, initial bool) (deep bool) {
		if st.syncing {
			return false
		}
		known, height, _ := k.top(s, m)
		if m.fix != nil {
			height, known = m.fix.height, false
			for _, h := range m.chain(s) {
				known = known || h == m.fix.hash
			}
		}
		if known {
			return false
		}
		own := uint32(len(m.chain(s)))
		if height < own && own-height > 10 && m.zone(s, height) {
			return true
		}
		st.syncing = true
		x.chain = true
		return false
	}
	var x expect
	switch {
	case k.wrongNet, k.handshake && st.id != 0:
		x.closed = true
		n.end(e.conn)
	case k.handshake:
		st.id = k.id(e.conn)
		if look(&x, true) {
			x.closed = true
			n.end(e.conn)
			break
		}
		st.shook = true
		x.handshakes = 1
	case k.timed && !st.shook:
		x.maySync = true
	case k.timed:
		if look(&x, false) {
			x.closed = true
			n.end(e.conn)
			break
		}
		x.syncs = 1
	case k.bad:
		x.mayClose = true
	}
	return n, x
}

func (m *model) zone(s *setting, h uint32) bool {
	for p := range s.points {
		if h <= p {
			return true
		}
	}
	return false
}

func (m *model) end(conn int) {
	st := &m.conns[conn]
	st.open, st.ended = false, true
	if st.id != 0 {
		m.left[st.id] = true
	}
}

// run plays a sequence against a real node.
func run(w, i int, s *setting, conns int, seq []ev) {
	at := 0
	desc := func() string {
		var t []string
		for _, e := range seq[:at+1] {
			t = append(t, e.String())
		}
		return s.name + ": " + strings.Join(t, " ")
	}
	at = len(seq) - 1
	c.Set(w, desc())
	at = 0
	bc, _ := s.h.NewChain()
	for k, h := range s.points {
		if err := bc.Checkpoints.AddCheckpoint(k, h); err != nil {
			panic(err)
		}
	}
	left := nodew.Bubble(T, func() {
		nw := nodew.New(c, w, i, bc, desc)
		nw.Start()
		m := model{left: map[uint64]bool{}}
		for k := 0; k < conns; k++ {
			nw.Connect()
			m.conns = append(m.conns, connState{open: true})
		}
		nodew.Settle()
		for k, e := range seq {
			at = k
			if e.kind != "grow" && !m.conns[e.conn].open {
				break
			}
			n, x := m.step(s, e)
			switch e.kind {
			case "grow":
				o := s.grow[m.grown]
				if err := bc.AddBlock(txm.Block(o.B), o.Raw); err != nil {
					panic(fmt.Sprint("c24: ", err))
				}
			case "close":
				nw.Peers[e.conn].Close()
			default:
				nw.Peers[e.conn].Send(kinds[e.kind].make(s, &m, e.conn))
			}
			nodew.Settle()
			stop := look(nw, s, &m, &n, e, x)
			m = n
			c.Transition(1)
			c.Distinct(fmt.Sprintf("%s %+v", s.name, m))
			if stop {
				break
			}
		}
		nw.Stop()
	})
	if left != "" {
		c.Fail(desc(), "something is left behind after the node stopped: %s", left)
	}
	c.Eval(1)
	c.Trace(1)
}

// look compares what the node did with what it must do.
func look(nw *nodew.World, s *setting, before, m *model, e ev, x expect) (stop bool) {
	for k, p := range nw.Peers {
		var want expect
		if k == e.conn {
			want = x
		}
		ch := m.chain(s)
		var hs, ts, rc int
		for _, f := range p.Recv() {
			switch {
			case f.Cmd == nodew.Handshake && f.Return == 0 && f.Flags&2 != 0:
				hs++
				v, ok := nodew.Decode("HandshakeResponse", f.Payload)
				if !ok {
					nw.Fail("the handshake answer cannot be read: %x", f.Payload)
				}
				nd := nodew.L(v[0])
				if !bytes.Equal(nodew.B(nd[0]), net.NetworkID[:]) || nodew.U(nd[1]) != uint64(net.P2PCurrentVersion) {
					nw.Fail("the handshake answer announces network %x and version %d", nodew.B(nd[0]), nodew.U(nd[1]))
				}
				timeOK(nw, nodew.U(nd[3]))
				announced(nw, nodew.L(v[1]), ch)
				peers(nw, nodew.B(v[2]), before)
			case f.Cmd == nodew.TimedSync && f.Return == 0 && f.Flags&2 != 0:
				ts++
				v, ok := nodew.Decode("TimedSyncResponse", f.Payload)
				if !ok {
					nw.Fail("the timed sync answer cannot be read: %x", f.Payload)
				}
				timeOK(nw, nodew.U(v[0]))
				announced(nw, nodew.L(v[1]), ch)
				peers(nw, nodew.B(v[2]), before)
			case f.Cmd == nodew.RequestChain && f.Return == 0 && f.Flags&2 == 0:
				rc++
				v, ok := nodew.Decode("NotificationRequestChain", f.Payload)
				if !ok || !bytes.Equal(nodew.B(v[0]), nodew.Hashes(ch.Sparse()...)) {
					nw.Fail("the chain request is not the locator of the chain")
				}
			default:
				nw.Fail("connection %d gets %s", k, f)
			}
		}
		wantRC := 0
		if want.chain {
			wantRC = 1
		}
		if hs != want.handshakes || rc != wantRC || ts != want.syncs && !(want.maySync && ts == 1) {
			nw.Fail("connection %d gets %d handshake answers, %d timed sync answers, %d chain requests; must be %d, %d, %d", k, hs, ts, rc, want.handshakes, want.syncs, wantRC)
		}
		if p.Rest() != 0 {
			nw.Fail("connection %d gets a part of a message", k)
		}
		closed := p.Closed()
		if closed != m.conns[k].ended {
			if closed && want.mayClose {
				stop = true
				continue
			}
			nw.Fail("connection %d is closed by the node: %v; must be %v", k, closed, m.conns[k].ended)
		}
		if k == e.conn {
			c.Outcome(fmt.Sprintf("handshakes=%d syncs=%d requests=%d closed=%v", hs, ts, rc, closed))
		}
	}
	return
}

func timeOK(nw *nodew.World, t uint64) {
	now := uint64(time.Now().Unix())
	if t > now || t+10 < now {
		nw.Fail("the node announces time %d at %d", t, now)
	}
}

func announced(nw *nodew.World, v []interface{}, ch chainm.Chain) {
	if nodew.U(v[0]) != uint64(len(ch)) || !bytes.Equal(nodew.B(v[1]), nodew.Hashes(ch.Top())) {
		nw.Fail("the node announces height %d and top %x, must be %d and %x", nodew.U(v[0]), nodew.B(v[1]), len(ch), ch.Top())
	}
}

func peers(nw *nodew.World, b []byte, m *model) {
	got := nodew.Peers(b)
	var want []uint64
	for k := range m.left {
		want = append(want, k)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if fmt.Sprint(got) != fmt.Sprint(want) || len(b) != 24*len(want) {
		nw.Fail("the node lists peers %x, must be %x", got, want)
	}
}

// walk lists the sequences that the model does not end earlier.
func walk(s *setting, conns, depth int, evs []ev) (out [][]ev) {
	var rec func(m model, seq []ev)
	rec = func(m model, seq []ev) {
		any := false
		if len(seq) < depth {
			for _, e := range evs {
				if e.kind == "grow" && m.grown == len(s.grow) || e.kind != "grow" && !m.conns[e.conn].open {
					continue
				}
				any = true
				n, _ := m.step(s, e)
				rec(n, append(seq[:len(seq):len(seq)], e))
			}
		}
		if !any && len(seq) > 0 {
			out = append(out, seq)
		}
	}
	m := model{left: map[uint64]bool{}}
	for k := 0; k < conns; k++ {
		m.conns = append(m.conns, connState{open: true})
	}
	rec(m, nil)
	return
}

func TestVerif(t *testing.T) {
	c = vlib.New("C24")
	T = t
	if os.Getenv("VERIF_PHASE") == "c24-delays" {
		delays()
		c.Done()
		return
	}
	settings := []*setting{newSetting(0, 0), newSetting(1, 0), newSetting(5, 0), newSetting(13, 0), newSetting(13, 500), newSetting(30, 12)}
	var all []string
	for n := range kinds {
		all = append(all, n)
	}
	sort.Strings(all)
	type job struct {
		s     *setting
		conns int
		seq   []ev
	}
	var jobs []job
	add := func(s *setting, conns, depth int, names ...string) {
		var evs []ev
		for _, n := range names {
			if n == "grow" {
				evs = append(evs, ev{0, n})
				continue
			}
			for k := 0; k < conns; k++ {
				evs = append(evs, ev{k, n})
			}
		}
		for _, seq := range walk(s, conns, depth, evs) {
			jobs = append(jobs, job{s, conns, seq})
		}
	}
	core := []string{"shake-top", "shake-ahead", "shake-noid", "timed-top", "timed-ahead", "shake-bad-cut", "shake-bad-nonode", "shake-net-byte3", "notify", "grow", "close"}
	two := []string{"shake-top", "shake-net-byte3", "shake-bad-nonode", "shake-ahead", "timed-top", "timed-next", "grow", "close"}
	for i, s := range settings {
		add(s, 1, 2, append(all, "grow", "close")...)
		d := 4
		if i == 2 || c.Thorough {
			d = 5
		}
		if c.Thorough && i == 2 {
			d = 6
		}
		add(s, 1, d, core...)
		d = 3
		if i == 1 || i == 4 {
			d = 4
		}
		if c.Thorough {
			d++
		}
		add(s, 2, d, two...)
		add(s, 3, d, "shake-top", "shake-ahead", "timed-top", "close")
	}
	c.Cov("sequences", len(jobs))
	c.Each("sequences", len(jobs), func(w, i int) {
		run(w, i, jobs[i].s, jobs[i].conns, jobs[i].seq)
	})
	c.Sample(fmt.Sprint(jobs[len(jobs)/2].seq))
	c.Done()
}
