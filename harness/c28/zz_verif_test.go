//go:build go1.21

package c28

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vnet"
)

var (
	c  *vlib.Ctx
	nw = config.TestNet()
	T  *testing.T
)

const idA = 0x1122334455667788

// answer is what the remote does after it is connected to.
type answer struct {
	network int // 0: this network, 1..16: a byte changed, 17: zero
	version byte
	id      uint64
	top     int // index into tops
	cmd     uint32
	ret     byte
	flags   uint32
	code    int32

	payload []byte // instead of the encoded one
	name    string // of it
	split   int    // the answer arrives in two parts
	cut     int    // -1: whole; otherwise so many bytes arrive
	end     string // then: "", "close", "reset"
	first   []byte // before the answer
	wcut    int    // the node's write fails after so many bytes; -1: not
	known   string // identity of the answer known before: "", "white", "grey"
	then    []string
}

func (a answer) String() string {
	s := fmt.Sprintf("network=%d version=%d id=%x top=%d cmd=%d ret=%d flags=%d code=%d", a.network, a.version, a.id, a.top, a.cmd, a.ret, a.flags, a.code)
	if a.payload != nil {
		s += " payload=" + a.name
	}
	if a.split > 0 {
		s += fmt.Sprint(" split=", a.split)
	}
	if a.cut >= 0 {
		s += fmt.Sprint(" cut=", a.cut)
	}
	if a.end != "" {
		s += " end=" + a.end
	}
	if a.first != nil {
		s += fmt.Sprintf(" first=%d bytes", len(a.first))
	}
	if a.wcut >= 0 {
		s += fmt.Sprint(" write fails at ", a.wcut)
	}
	if a.known != "" {
		s += " known=" + a.known
	}
	if len(a.then) > 0 {
		s += " then " + strings.Join(a.then, " ")
	}
	return s
}

type setting struct {
	name  string
	h     *chainm.History
	chain chainm.Chain
	point uint32
}

func newSetting(top, point uint32) *setting {
	s := &setting{name: fmt.Sprintf("top %d point %d", top, point), h: chainm.NewHistory(top, int(top), chainm.Patterns[0]), point: point}
	s.chain = s.h.ChainOf()
	return s
}

var unknown = chainm.Hash(ref.Keccak([]byte("unknown")))

const nTops = 7

func (s *setting) top(i int) (known bool, height uint32, h chainm.Hash) {
	n := uint32(len(s.chain))
	switch i {
	case 0:
		return true, n, s.chain.Top()
	case 1:
		return true, 1, s.chain[0]
	case 2:
		return false, n + 1, unknown
	case 3:
		return false, n, unknown
	case 4:
		return false, 1<<32 - 1, unknown
	case 5:
		return false, 1, unknown
	}
	return false, 0, chainm.Hash{}
}

func plain() answer {
	return answer{version: nw.P2PCurrentVersion, id: idA, cmd: nodew.Handshake, flags: 2, code: 1, cut: -1, wcut: -1}
}

func (a answer) bytes(s *setting) []byte {
	_, h, x := s.top(a.top)
	p := a.payload
	if p == nil {
		id := append([]byte{}, nw.NetworkID[:]...)
		switch {
		case a.network == 17:
			id = make([]byte, 16)
		case a.network > 0:
			id[a.network-1] ^= 0x80
		}
		p = nodew.Encode("HandshakeResponse", nodew.NodeData(id, a.version, a.id), nodew.SyncData(h, x), []byte{})
	}
	return append(append([]byte{}, a.first...), nodew.Frame{Cmd: a.cmd, Return: a.ret, Flags: a.flags, Code: a.code, Payload: p}.Bytes()...)
}

// good says whether the answer is one to go on with.
func (a answer) good(s *setting, size int) bool {
	return a.network == 0 && a.version >= nw.P2PMinimumVersion && a.id != 0 && a.cmd == nodew.Handshake && a.flags&2 != 0 &&
		a.payload == nil && (a.cut < 0 || a.cut >= size) && a.first == nil && a.wcut < 0 && a.known != "white" && !s.deep(a.top)
}

func (s *setting) deep(top int) bool {
	known, h, _ := s.top(top)
	n := uint32(len(s.chain))
	return !known && h < n && n-h > 10 && s.point > 0 && s.point >= h
}

type entry struct {
	id   uint64
	port uint32
}

func entries(n *p2p.Node) (out []entry) {
	for _, e := range p2p.VerifStoreOf(n).Entries() {
		out = append(out, entry{e.ID, e.Address.Port})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

func run(w, i int, s *setting, a answer) {
	desc := func() string { return s.name + ": " + a.String() }
	c.Set(w, desc())
	bc, _ := s.h.NewChain()
	if s.point > 0 {
		if err := bc.Checkpoints.AddCheckpoint(s.point, [32]byte{1}); err != nil {
			panic(err)
		}
	}
	left := nodew.Bubble(T, func() {
		world := nodew.New(c, w, i, bc, desc)
		n := world.Node
		p2p.VerifStart(n, world.Ctx)
		store := p2p.VerifStoreOf(n)
		mk := func(id uint64, port uint32) *p2p.Peer {
			p := p2p.NewPeer(nodew.Logger.Sugar(), nil, p2p.NetworkAddress{IP: 5, Port: port}, true)
			p.SetID(id)
			return p
		}
		if err := store.ToGrey(mk(55, 5)); err != nil {
			panic(err)
		}
		before := []entry{{55, 5}}
		if a.known != "" {
			f := store.ToWhite
			if a.known == "grey" {
				f = store.ToGrey
			}
			if err := f(mk(a.id, 6)); err != nil {
				panic(err)
			}
			before = append(before, entry{a.id, 6})
		}
		addr, _ := vnet.ResolveTCPAddr("tcp", world.Addr)
		l, err := vnet.ListenTCP("tcp", addr)
		if err != nil {
			panic(err)
		}
		if a.wcut >= 0 {
			l.OnConnect = func(k *vnet.TCPConn) { k.Cut(a.wcut, syscall.ECONNRESET) }
		}
		done := make(chan struct{})
		go func() {
			p2p.VerifSyncWithAddr(n, world.Addr)
			close(done)
		}()
		returned := func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}
		synctest.Wait()
		if l.Waiting() != 1 {
			world.Fail("%d connections are made instead of one", l.Waiting())
		}
		conn, err := l.AcceptTCP()
		if err != nil {
			panic(err)
		}
		p := &nodew.Peer{W: world, Conn: conn}
		nodew.Settle()
		sent := p.Recv()
		if a.wcut < 0 {
			if len(sent) != 1 || p.Rest() != 0 || sent[0].Cmd != nodew.Handshake || sent[0].Return == 0 || sent[0].Flags != 1 {
				world.Fail("the node sends %v and %d more bytes, must send one handshake", sent, p.Rest())
			}
			v, ok := nodew.Decode("HandshakeRequest", sent[0].Payload)
			if !ok {
				world.Fail("the handshake cannot be read: %x", sent[0].Payload)
			}
			nd, sd := nodew.L(v[0]), nodew.L(v[1])
			if !bytes.Equal(nodew.B(nd[0]), nw.NetworkID[:]) || nodew.U(nd[1]) != uint64(nw.P2PCurrentVersion) || nodew.U(sd[0]) != uint64(len(s.chain)) || !bytes.Equal(nodew.B(sd[1]), nodew.Hashes(s.chain.Top())) {
				world.Fail("the handshake announces network %x, version %d, height %d, top %x", nodew.B(nd[0]), nodew.U(nd[1]), nodew.U(sd[0]), nodew.B(sd[1]))
			}
		} else if len(sent) > 0 {
			world.Fail("the node sends again after a failed write")
		}
		if a.wcut < 0 && (p.Closed() || returned()) {
			world.Fail("the node does not wait for the answer")
		}
		b := a.bytes(s)
		size := len(b)
		if a.cut >= 0 && a.cut < size {
			b = b[:a.cut]
		}
		if a.split > 0 && a.split < len(b) {
			_, _ = conn.Write(b[:a.split])
			nodew.Settle()
			if e := fmt.Sprint(entries(n)); e != fmt.Sprint(before) || p.Closed() {
				world.Fail("after a part of the answer the peer list is %s and the connection closed: %v", e, p.Closed())
			}
			b = b[a.split:]
		}
		if len(b) > 0 {
			_, _ = conn.Write(b)
		}
		if a.end != "" {
			nodew.Settle()
			a.finish(conn)
		}
		nodew.Settle()
		good := a.good(s, size)
		after := before
		if good {
			after = []entry{{55, 5}, {a.id, uint32(addr.Port)}}
			if a.id < 55 {
				after[0], after[1] = after[1], after[0]
			}
		}
		list := func() {
			got := entries(n)
			if fmt.Sprint(got) != fmt.Sprint(after) {
				world.Fail("the peer list is %v, must be %v", got, after)
			}
		}
		list()
		known, _, _ := s.top(a.top)
		silent := a.cut >= 0 && a.cut < size && a.end == "" && a.wcut < 0 // the node still waits
		gone := !silent && (!good || a.end != "")
		if p.Closed() != gone && (a.end == "" || !p.Closed()) || returned() != gone {
			world.Fail("the connection is closed: %v, its handler returned: %v; must be %v", p.Closed(), returned(), gone)
		}
		got := p.Recv()
		if want := good && !known && a.end == ""; len(got) > 1 || (len(got) == 1) != want && a.end == "" || len(got) == 1 && got[0].Cmd != nodew.RequestChain || len(got) == 1 && !(good && !known) {
			world.Fail("after the answer the node sends %v; must send a chain request: %v", got, want)
		}
		if len(got) == 1 {
			v, ok := nodew.Decode("NotificationRequestChain", got[0].Payload)
			if !ok || !bytes.Equal(nodew.B(v[0]), nodew.Hashes(s.chain.Sparse()...)) {
				world.Fail("the chain request is not the locator of the chain")
			}
		}
		c.Outcome(fmt.Sprintf("good=%v closed=%v requests=%d", good, p.Closed(), len(got)))
		// in use: the peer is in the white list, so it can't be added there again
		if good {
			probe := store.ToWhite(mk(a.id, 7)) == nil
			if probe == (a.end == "") {
				world.Fail("the peer is in the list of trusted peers: %v, must be %v", !probe, a.end == "")
			}
			if probe {
				after = []entry{{55, 5}, {a.id, 7}}
				if a.id < 55 {
					after[0], after[1] = after[1], after[0]
				}
			}
		}
		for _, ev := range a.then {
			if gone {
				break
			}
			end := true
			switch ev {
			case "timed":
				_, h, x := s.top(a.top)
				p.Send(nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(h, x))))
				end = false
			case "shake":
				_, h, x := s.top(0)
				p.Send(nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(nw.NetworkID[:], nw.P2PCurrentVersion, 99), nodew.SyncData(h, x))))
			case "answer":
				// a second answer is not asked for; nothing must come of it
				p.Send(nodew.Answer(nodew.Handshake, nodew.Encode("HandshakeResponse", nodew.NodeData(nw.NetworkID[:], nw.P2PCurrentVersion, 77), nodew.SyncData(1, s.chain[0]), []byte{})))
				nodew.Settle()
				list()
				if r := p.Recv(); len(r) > 0 {
					world.Fail("after a second answer the node sends %v", r)
				}
				end = p.Closed()
				if end {
					gone = true
				}
				continue
			case "close":
				_ = conn.Close()
			case "reset":
				conn.Abort()
			case "garbage":
				_, _ = conn.Write(bytes.Repeat([]byte("garbage!"), 8))
			case "stop":
				world.Cancel()
			}
			nodew.Settle()
			list()
			for _, f := range p.Recv() {
				if ev != "timed" || f.Cmd != nodew.TimedSync || f.Flags&2 == 0 {
					world.Fail("after %s the node sends %s", ev, f)
				}
			}
			if p.Closed() != end || returned() != end {
				world.Fail("after %s the connection is closed: %v, its handler returned: %v; must be %v", ev, p.Closed(), returned(), end)
			}
			gone = end
		}
		world.Cancel()
		nodew.Settle()
		if !p.Closed() || !returned() {
			world.Fail("after the node was told to stop the connection is closed: %v, its handler returned: %v", p.Closed(), returned())
		}
		list()
		_ = l.Close()
	})
	if left != "" {
		c.Fail(desc(), "something is left behind: %s", left)
	}
	c.Eval(1)
	c.Trace(1)
	c.Transition(2 + len(a.then))
	c.Distinct(desc())
}

func (a answer) finish(conn *vnet.TCPConn) {
	switch a.end {
	case "close":
		_ = conn.Close()
	case "reset":
		conn.Abort()
	}
}

// dial: addresses where no peer answers.
func dial(w, i int, s *setting, how string) {
	desc := func() string { return "connecting to " + how }
	c.Set(w, desc())
	bc, _ := s.h.NewChain()
	left := nodew.Bubble(T, func() {
		world := nodew.New(c, w, i, bc, desc)
		n := world.Node
		p2p.VerifStart(n, world.Ctx)
		addr := world.Addr
		switch how {
		case "a closed port":
		case "a silent address", "a silent address, stopped meanwhile":
			vnet.Hole(addr, true)
			defer vnet.Hole(addr, false)
		default:
			addr = how
		}
		t := time.Now()
		done := make(chan struct{})
		go func() {
			p2p.VerifSyncWithAddr(n, addr)
			close(done)
		}()
		if strings.HasSuffix(how, "meanwhile") {
			time.Sleep(time.Millisecond)
			world.Cancel()
			t = time.Now()
		}
		<-done
		if d := time.Since(t); d > time.Minute {
			world.Fail("gives up after %s", d)
		}
		if e := entries(n); len(e) > 0 {
			world.Fail("the peer list is %v", e)
		}
		world.Cancel()
	})
	if left != "" {
		c.Fail(desc(), "something is left behind: %s", left)
	}
	c.Eval(1)
}

// some are answers of peers that are connected to one after another, or at once.
var some = []struct {
	name string
	good bool
	drop []string
	on   func(a *answer)
}{
	{"good", true, nil, func(a *answer) {}},
	{"good, ahead", true, nil, func(a *answer) { a.top = 2 }},
	{"other network", false, nil, func(a *answer) { a.network = 3 }},
	{"old version", false, nil, func(a *answer) { a.version = nw.P2PMinimumVersion - 1 }},
	{"no identity", false, nil, func(a *answer) { a.id = 0 }},
	{"nothing about the node", false, []string{"node_data"}, func(a *answer) {}},
	{"no network named", false, []string{"node_data.network_id"}, func(a *answer) {}},
	{"no version given", false, []string{"node_data.version"}, func(a *answer) {}},
	{"nothing", false, []string{"node_data", "payload_data", "local_peerlist"}, func(a *answer) {}},
	{"request", false, nil, func(a *answer) { a.flags = 1 }},
}

// several connections of one node: each is judged by its own answer alone.
func several(w, i int, s *setting, word []int, atOnce bool) {
	desc := func() string {
		d := s.name + ": "
		if atOnce {
			d += "at once: "
		}
		for _, k := range word {
			d += some[k].name + "; "
		}
		return d
	}
	c.Set(w, desc())
	bc, _ := s.h.NewChain()
	left := nodew.Bubble(T, func() {
		world := nodew.New(c, w, i, bc, desc)
		n := world.Node
		p2p.VerifStart(n, world.Ctx)
		addr, _ := vnet.ResolveTCPAddr("tcp", world.Addr)
		l, err := vnet.ListenTCP("tcp", addr)
		if err != nil {
			panic(err)
		}
		var after []entry
		var peers []*nodew.Peer
		var returned []chan struct{}
		connect := func() {
			done := make(chan struct{})
			go func() {
				p2p.VerifSyncWithAddr(n, world.Addr)
				close(done)
			}()
			synctest.Wait()
			conn, err := l.AcceptTCP()
			if err != nil {
				panic(err)
			}
			p := &nodew.Peer{W: world, Conn: conn}
			nodew.Settle()
			if sent := p.Recv(); len(sent) != 1 || sent[0].Cmd != nodew.Handshake {
				world.Fail("the node sends %v, must send one handshake", sent)
			}
			peers, returned = append(peers, p), append(returned, done)
		}
		if atOnce {
			for range word {
				connect()
			}
		}
		for k, x := range word {
			if !atOnce {
				connect()
			}
			p := peers[k]
			a := plain()
			a.id = uint64(100 + k)
			some[x].on(&a)
			if some[x].drop != nil {
				_, h, top := s.top(a.top)
				a.payload = nodew.Without("HandshakeResponse", some[x].drop, nodew.NodeData(nw.NetworkID[:], a.version, a.id), nodew.SyncData(h, top), []byte{})
			}
			_, _ = p.Conn.Write(a.bytes(s))
			nodew.Settle()
			good := some[x].good
			if good {
				after = append(after, entry{a.id, uint32(addr.Port)})
			}
			if got := entries(n); fmt.Sprint(got) != fmt.Sprint(after) {
				world.Fail("after answer %d the peer list is %v, must be %v", k, got, after)
			}
			for j, q := range peers {
				open := j > k || some[word[j]].good
				back := false
				select {
				case <-returned[j]:
					back = true
				default:
				}
				if q.Closed() == open || back == open {
					world.Fail("after answer %d connection %d is closed: %v, its handler returned: %v; must be %v", k, j, q.Closed(), back, !open)
				}
			}
			got := p.Recv()
			if known, _, _ := s.top(a.top); len(got) > 1 || (len(got) == 1) != (good && !known) || len(got) == 1 && got[0].Cmd != nodew.RequestChain {
				world.Fail("after answer %d the node sends %v", k, got)
			}
		}
		world.Cancel()
		nodew.Settle()
		for j, q := range peers {
			select {
			case <-returned[j]:
			default:
				world.Fail("the handler of connection %d is left when the node is told to stop", j)
			}
			if !q.Closed() {
				world.Fail("connection %d is left when the node is told to stop", j)
			}
		}
		_ = l.Close()
	})
	if left != "" {
		c.Fail(desc(), "something is left behind: %s", left)
	}
	c.Eval(1)
	c.Trace(1)
	c.Transition(len(word))
	c.Distinct(desc())
}

func TestVerif(t *testing.T) {
	c = vlib.New("C28")
	T = t
	settings := []*setting{newSetting(0, 0), newSetting(5, 0), newSetting(14, 100), newSetting(14, 0)}
	type job struct {
		s *setting
		a answer
	}
	var jobs []job
	add := func(s *setting, a answer) { jobs = append(jobs, job{s, a}) }
	min := nw.P2PMinimumVersion
	step := 7
	if c.Thorough {
		step = 1
	}
	idsAll := []uint64{0, 1, idA, 1<<64 - 1}
	for _, s := range settings {
		// the product of the fields
		for _, network := range []int{0, 1, 16, 17} {
			for _, version := range []byte{0, min - 1, min, min + 1, 255} {
				for _, id := range idsAll {
					for top := 0; top < nTops; top++ {
						for _, cmd := range []uint32{nodew.Handshake, nodew.TimedSync, nodew.Ping, nodew.RequestChain, 0} {
							for _, flags := range []uint32{0, 1, 2, 3} {
								if cmd == 0 && flags != 2 {
									continue
								}
								a := plain()
								a.network, a.version, a.id, a.top, a.cmd, a.flags = network, version, id, top, cmd, flags
								add(s, a)
							}
						}
					}
				}
			}
		}
		for v := 0; v < 256; v++ {
			a := plain()
			a.version = byte(v)
			add(s, a)
			a.top = 2
			add(s, a)
		}
		for k := 0; k < 18; k++ {
			a := plain()
			a.network = k
			add(s, a)
		}
		for _, known := range []string{"white", "grey"} {
			for top := 0; top < nTops; top++ {
				for _, v := range []byte{min - 1, min} {
					for _, network := range []int{0, 1, 16, 17} {
						for _, flags := range []uint32{1, 2} {
							a := plain()
							a.known, a.top, a.version, a.network, a.flags = known, top, v, network, flags
							add(s, a)
						}
					}
				}
			}
		}
		// ways a good or a bad answer arrives
		for _, top := range []int{0, 2} {
			a := plain()
			a.top = top
			size := len(a.bytes(s))
			for k := 0; k <= size; k++ {
				if k > 0 && k < size {
					x := a
					x.split = k
					add(s, x)
				}
				for _, end := range []string{"", "close", "reset"} {
					x := a
					x.cut, x.end = k, end
					add(s, x)
				}
				{
					for j := k + 1; j <= size; j += step {
						for _, end := range []string{"", "close", "reset"} {
							x := a
							x.cut, x.end, x.split = j, end, k
							add(s, x)
						}
					}
				}
			}
			request := 33 + len(nodew.Encode("HandshakeRequest", nodew.NodeData(nw.NetworkID[:], min, 5), nodew.SyncData(1, unknown)))
			for k := 0; k < request; k++ {
				x := a
				x.wcut = k
				add(s, x)
			}
			// something before the answer
			for n, first := range map[string]nodew.Frame{
				"notification":   nodew.Notify(nodew.NewTxs, nodew.Encode("NotificationNewTransactions", uint64(0), unknown[:])),
				"other answer":   nodew.Answer(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, unknown))),
				"other command":  nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(1, unknown))),
				"shake":          nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(nw.NetworkID[:], min, 5), nodew.SyncData(1, unknown))),
				"wrong network":  nodew.Answer(nodew.Handshake, nodew.Encode("HandshakeResponse", nodew.NodeData(make([]byte, 16), min, 5), nodew.SyncData(1, unknown), []byte{})),
				"empty response": nodew.Answer(nodew.Handshake, nil),
			} {
				_ = n
				x := a
				x.first = first.Bytes()
				add(s, x)
			}
			// the life of the connection
			evs := []string{"timed", "shake", "answer", "close", "reset", "garbage", "stop"}
			for _, e1 := range evs {
				for _, e2 := range evs {
					for _, e3 := range evs {
						x := a
						x.then = []string{e1, e2, e3}
						add(s, x)
						if c.Thorough {
							for _, e4 := range evs {
								x := x
								x.then = []string{e1, e2, e3, e4}
								add(s, x)
							}
						}
					}
				}
			}
		}
		// malformed answers: every byte of the payload's structure changed in a way that makes it malformed
		good := plain().bytes(s)[33:]
		bad := func(name string, p []byte) {
			if _, ok := nodew.Decode("HandshakeResponse", p); ok {
				return
			}
			if !nodew.Malformed("HandshakeResponse", p) {
				return // left open by the format
			}
			a := plain()
			a.payload, a.name = p, name
			add(s, a)
		}
		bad("empty", []byte{})
		for k := range good {
			bad(fmt.Sprint("cut at ", k), append([]byte{}, good[:k]...))
			vals := []byte{0, 1, good[k] ^ 1, good[k] ^ 4, good[k] + 1, good[k] - 1, 255}
			if c.Thorough {
				vals = make([]byte, 256)
				for i := range vals {
					vals[i] = byte(i)
				}
			}
			for _, v := range vals {
				if v == good[k] {
					continue
				}
				p := append([]byte{}, good...)
				p[k] = v
				bad(fmt.Sprintf("byte %d is %d", k, v), p)
			}
		}
	}
	c.Cov("connections", len(jobs))
	c.Each("answers", len(jobs), func(w, i int) { run(w, i, jobs[i].s, jobs[i].a) })
	hows := []string{"a closed port", "a silent address", "a silent address, stopped meanwhile", "", "nowhere", "1.2.3.4", "1.2.3.4:99999", "1.2.3.4:-1", "no.such.name:5", ":::", "[::1]:4000", "1.2.3.4:x"}
	c.Each("addresses", len(hows), func(w, i int) { dial(w, len(jobs)+i, settings[0], hows[i]) })
	depth := 3
	if c.Thorough {
		depth = 4
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = len(some)
	}
	words := vlib.Size(radix)
	c.Each("several connections", 4*words, func(w, i int) {
		several(w, len(jobs)+len(hows)+i, settings[i%2], vlib.Unrank(i/4, radix), i/2%2 == 1)
	})
	c.Sample(jobs[100].a.String())
	c.Done()
}
