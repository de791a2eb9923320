//go:build go1.21

package c25

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var (
	c  *vlib.Ctx
	nt = config.TestNet()
	T  *testing.T
)

const batch = 128

// setting: the node's chain and the blocks that follow.
type setting struct {
	name   string
	h      *chainm.History
	base   chainm.Chain
	offers []*chainm.Offer
	bad    map[int]*chainm.Offer // an invalid block in place of an offer
	point  uint32
}

func newSetting(top uint32, n int, point uint32, txs func(i int) int) *setting {
	s := &setting{name: fmt.Sprintf("top %d", top), h: chainm.NewHistory(top, int(top), chainm.Patterns[0]), bad: map[int]*chainm.Offer{}, point: point}
	if point > 0 {
		s.name += fmt.Sprintf(" checkpoint %d", point)
	}
	s.base = s.h.ChainOf()
	m := s.h.Model.Clone()
	if point > 0 {
		m.Points[point] = ref.Keccak([]byte("point"))
	}
	for k := 0; k < n; k++ {
		if k < 12 {
			d := m.NewDraft(m.Top)
			if txs != nil {
				d.Txs = append(d.Txs, chainm.Tx(9, 1, 1, 1000000000000, nil))
			}
			d.B.Base.Unlock++ // never acceptable
			o, _ := d.Make("invalid")
			if !o.Bad {
				panic("c25: the invalid block is valid")
			}
			s.bad[k] = o
		}
		d := m.NewDraft(m.Top)
		if txs != nil {
			for t := 0; t < txs(k); t++ {
				d.Txs = append(d.Txs, chainm.Tx(byte(1+k*3+t), 1, 1, 1000000000000, nil))
			}
		}
		b, raw := d.Finish()
		why, info, _ := m.Judge(b, raw)
		if why != "" {
			panic("c25: offer: " + why)
		}
		s.offers = append(s.offers, &chainm.Offer{Name: fmt.Sprint(k), B: b, Raw: raw, ID: b.ID(), Index: d.Index})
		m.Push(info)
	}
	return s
}

func (s *setting) chain(n int) chainm.Chain {
	ch := s.base[:len(s.base):len(s.base)]
	for _, o := range s.offers[:n] {
		ch = append(ch, o.ID)
	}
	return ch
}

// upTo is the chain that ends with the first of some hashes.
func (s *setting) upTo(l []chainm.Hash) chainm.Chain {
	full := s.chain(len(s.offers))
	for i, h := range full {
		if len(l) > 0 && h == l[0] {
			return full[:i+1]
		}
	}
	return nil
}

func (s *setting) start() *cryptonote.BlockChain {
	bc, _ := s.h.NewChain()
	if s.point > 0 {
		if err := bc.Checkpoints.AddCheckpoint(s.point, ref.Keccak([]byte("point"))); err != nil {
			panic(err)
		}
	}
	return bc
}

// remote is a peer with the chain of the first n offers.
type remote struct {
	s     *setting
	n     int
	limit int // of hashes in a chain answer
	p     *nodew.Peer

	chain     chainm.Chain
	listed    map[chainm.Hash]bool
	asked     []chainm.Hash
	pending   []nodew.Frame // requests not answered yet
	requests  int           // chain requests seen
	last      uint32        // index of the last block listed
	by        map[chainm.Hash]*chainm.Offer
	badListed int // the offer replaced in a list; -1
}

func newRemote(s *setting, n, limit int, p *nodew.Peer) *remote {
	r := &remote{s: s, n: n, limit: limit, p: p, listed: map[chainm.Hash]bool{}, by: map[chainm.Hash]*chainm.Offer{}, badListed: -1}
	r.chain = s.chain(n)
	for _, o := range s.offers {
		r.by[o.ID] = o
	}
	for _, o := range s.bad {
		r.by[o.ID] = o
	}
	return r
}

func (r *remote) grow(n int) {
	r.n = n
	r.chain = r.s.chain(n)
}

func (r *remote) shake() {
	r.p.Send(nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(nt.NetworkID[:], nt.P2PCurrentVersion, uint64(len(r.p.W.Peers))), nodew.SyncData(uint32(len(r.chain)), r.chain.Top()))))
}

func (r *remote) timed() {
	r.p.Send(nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(uint32(len(r.chain)), r.chain.Top()))))
}

// look takes in what the node sent; own is the node's chain, or nil if it may be any.
func (r *remote) look(own chainm.Chain) {
	w := r.p.W
	for _, f := range r.p.Recv() {
		switch {
		case f.Cmd == nodew.Handshake || f.Cmd == nodew.TimedSync:
			if f.Flags&2 == 0 {
				w.Fail("the node sends %s", f)
			}
		case f.Cmd == nodew.RequestChain:
			v, ok := nodew.Decode("NotificationRequestChain", f.Payload)
			if own == nil && ok {
				own = r.s.upTo(nodew.Split(nodew.B(v[0])))
			}
			if !ok || own == nil || !bytes.Equal(nodew.B(v[0]), nodew.Hashes(own.Sparse()...)) {
				w.Fail("the chain request is not the locator of the chain of %d blocks", len(own))
			}
			r.requests++
			r.pending = append(r.pending, f)
		case f.Cmd == nodew.GetObjects:
			v, ok := nodew.Decode("NotificationRequestGetObjects", f.Payload)
			if !ok {
				w.Fail("the request for blocks cannot be read: %x", f.Payload)
			}
			l := nodew.Split(nodew.B(v[1]))
			if len(l) > batch || len(l) == 0 || len(nodew.B(v[0])) != 0 {
				w.Fail("%d blocks and %d bytes of transactions are asked for at once", len(l), len(nodew.B(v[0])))
			}
			for _, h := range l {
				if !r.listed[h] {
					w.Fail("the node asks for a block not listed by the peer")
				}
			}
			r.asked = append(r.asked, l...)
			r.pending = append(r.pending, f)
		default:
			w.Fail("the node sends %s", f)
		}
	}
	if r.p.Rest() != 0 {
		w.Fail("the node sends a part of a message")
	}
}

// entry is the honest chain answer.
func (r *remote) entry(f nodew.Frame) (start, total uint32, list []chainm.Hash) {
	v, _ := nodew.Decode("NotificationRequestChain", f.Payload)
	at := map[chainm.Hash]int{}
	for i, h := range r.chain {
		at[h] = i
	}
	for _, h := range nodew.Split(nodew.B(v[0])) {
		if i, ok := at[h]; ok {
			end := i + r.limit
			if end > len(r.chain) {
				end = len(r.chain)
			}
			return uint32(i), uint32(len(r.chain)), append([]chainm.Hash{}, r.chain[i:end]...)
		}
	}
	panic("c25: no common block")
}

func (r *remote) sendEntry(start, total uint32, list []chainm.Hash) {
	for _, h := range list {
		r.listed[h] = true
	}
	r.last = start + uint32(len(list)) - 1
	r.p.Send(nodew.Notify(nodew.ChainEntry, nodew.Encode("NotificationResponseChainEntry", uint64(start), uint64(total), nodew.Hashes(list...))))
}

// final says if the last block listed has been asked for.
func (r *remote) final() bool {
	return len(r.asked) > 0 && int(r.last) < len(r.chain) && r.asked[len(r.asked)-1] == r.chain[r.last]
}

// object is a block in an answer.
type object struct {
	block []byte
	txs   [][]byte
}

func objectOf(o *chainm.Offer) object { return object{o.B.Bytes(), o.Raw} }

func (r *remote) objects(f nodew.Frame) (out []object, ids []chainm.Hash) {
	v, _ := nodew.Decode("NotificationRequestGetObjects", f.Payload)
	for _, h := range nodew.Split(nodew.B(v[1])) {
		if o := r.by[h]; o != nil {
			out = append(out, objectOf(o))
			ids = append(ids, h)
		}
	}
	return
}

func (r *remote) sendObjects(l []object, height uint32, missed ...chainm.Hash) {
	bs := kvm.L{}
	for _, o := range l {
		var txs interface{}
		if o.txs != nil {
			t := kvm.L{}
			for _, x := range o.txs {
				t = append(t, x)
			}
			txs = t
		}
		bs = append(bs, kvm.L{o.block, txs})
	}
	var m interface{}
	if len(missed) > 0 {
		m = nodew.Hashes(missed...)
	}
	r.p.Send(nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, bs, uint64(height), m)))
}

// honest answers a request.
func (r *remote) honest(f nodew.Frame) {
	if f.Cmd == nodew.RequestChain {
		r.sendEntry(r.entry(f))
		return
	}
	l, _ := r.objects(f)
	r.sendObjects(l, uint32(len(r.chain)))
}

// own reads the node's chain and checks that it is a beginning of the longest remote's.
func own(w *nodew.World, full chainm.Chain) chainm.Chain {
	n := int(w.BC.Height())
	if n > len(full) {
		w.Fail("the node's chain has %d blocks", n)
	}
	if top := chainm.Hash(*w.BC.TopBlock().Hash()); top != full[n-1] {
		w.Fail("the node's chain of %d blocks ends in another block", n)
	}
	return full[:n]
}

// entered checks that blocks new in the chain were asked for.
func entered(w *nodew.World, s *setting, ch chainm.Chain, rs ...*remote) {
	for _, h := range ch[len(s.base):] {
		ok := false
		for _, r := range rs {
			for _, a := range r.asked {
				ok = ok || a == h
			}
		}
		if !ok {
			w.Fail("a block entered the chain that was not asked for")
		}
	}
}

// result of a deviation
type result int

const (
	closes result = iota // the node must close
	goes                 // the node must go on, the honest rest completes
	open                 // either; only what enters the chain is judged
)

type action struct {
	name string
	at   uint32 // the request it is for; 0: any
	do   func(r *remote, f nodew.Frame) result
}

// ---- deviations

func reply(r *remote, f nodew.Frame, res result) result {
	r.honest(f)
	return res
}

func mutate(b []byte, i int) []byte {
	x := append([]byte{}, b...)
	x[i] ^= 1
	return x
}

var foreign = chainm.Hash(ref.Keccak([]byte("foreign")))

func pick(n, which int) int { return [3]int{0, n / 2, n - 1}[which] }

func entryActions() (out []action) {
	add := func(name string, do func(r *remote, f nodew.Frame) result) {
		out = append(out, action{"entry " + name, nodew.RequestChain, do})
	}
	add("empty", func(r *remote, f nodew.Frame) result {
		s, t, _ := r.entry(f)
		r.sendEntry(s, t, nil)
		return closes
	})
	add("unknown first", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		l[0] = foreign
		r.sendEntry(s, t, l)
		return closes
	})
	add("one unknown", func(r *remote, f nodew.Frame) result {
		r.sendEntry(0, uint32(len(r.chain)), []chainm.Hash{foreign})
		return closes
	})
	add("without the known one", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		r.sendEntry(s+1, t, l[1:])
		return closes
	})
	for i, total := range []func(s, last uint32) uint32{
		func(s, last uint32) uint32 { return 0 },
		func(s, last uint32) uint32 { return s },
		func(s, last uint32) uint32 { return last - 1 },
	} {
		total := total
		add(fmt.Sprint("low height ", i), func(r *remote, f nodew.Frame) result {
			s, _, l := r.entry(f)
			t := total(s, s+uint32(len(l))-1)
			r.sendEntry(s, t, l)
			if t < r.last {
				return closes
			}
			return open
		})
	}
	add("start far above", func(r *remote, f nodew.Frame) result {
		_, t, l := r.entry(f)
		r.sendEntry(t+1000, t, l)
		return closes
	})
	for i, start := range []func(n uint32) uint32{ // the heights of the list run over the largest height there is
		func(n uint32) uint32 { return ^uint32(0) },
		func(n uint32) uint32 { return -n + 1 },
		func(n uint32) uint32 { return -n/2 - 1 },
	} {
		start := start
		add(fmt.Sprint("start at the highest heights ", i), func(r *remote, f nodew.Frame) result {
			_, t, l := r.entry(f)
			if len(l) < 2 {
				return reply(r, f, goes)
			}
			r.sendEntry(start(uint32(len(l))), t, l)
			return closes
		})
	}
	add("start off by one", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		r.sendEntry(s+1, t, l)
		return open
	})
	add("height much more", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		r.sendEntry(s, t+1000, l)
		return open
	})
	add("height one less", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		r.sendEntry(s, t-1, l)
		return open
	})
	add("only the known one", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		r.sendEntry(s, t, l[:1])
		return open
	})
	add("only the known one, height one less", func(r *remote, f nodew.Frame) result {
		s, _, l := r.entry(f)
		r.sendEntry(s, s, l[:1])
		return closes
	})
	add("only genesis, height zero", func(r *remote, f nodew.Frame) result {
		r.sendEntry(0, 0, r.chain[:1])
		return closes
	})
	add("from genesis", func(r *remote, f nodew.Frame) result {
		_, t, _ := r.entry(f)
		n := len(r.chain)
		if n > r.limit+len(r.s.base) {
			n = r.limit + len(r.s.base)
		}
		r.sendEntry(0, t, append([]chainm.Hash{}, r.chain[:n]...))
		return open
	})
	for k := 0; k < 3; k++ {
		k := k
		add(fmt.Sprint("foreign hash ", k), func(r *remote, f nodew.Frame) result {
			s, t, l := r.entry(f)
			if len(l) < 2 {
				return reply(r, f, goes)
			}
			l[1+pick(len(l)-1, k)] = foreign
			r.sendEntry(s, t, l)
			return open // what comes next is incomplete
		})
		add(fmt.Sprint("invalid block listed ", k), func(r *remote, f nodew.Frame) result {
			s, t, l := r.entry(f)
			if len(l) < 2 {
				return reply(r, f, goes)
			}
			i := 1 + pick(len(l)-1, k)
			o := r.s.bad[int(s)+i-len(r.s.base)]
			if o == nil {
				return reply(r, f, goes)
			}
			l[i] = o.ID
			r.sendEntry(s, t, l)
			return open
		})
		add(fmt.Sprint("block left out ", k), func(r *remote, f nodew.Frame) result {
			s, t, l := r.entry(f)
			if len(l) < 3 {
				return reply(r, f, goes)
			}
			i := 1 + pick(len(l)-2, k)
			l = append(l[:i], l[i+1:]...)
			r.sendEntry(s, t, l)
			return open
		})
		add(fmt.Sprint("block listed twice ", k), func(r *remote, f nodew.Frame) result {
			s, t, l := r.entry(f)
			i := pick(len(l), k)
			l = append(l[:i+1], l[i:]...)
			r.sendEntry(s, t, l)
			return open
		})
	}
	add("reversed", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		for i, j := 1, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		r.sendEntry(s, t, l)
		return open
	})
	add("twice", func(r *remote, f nodew.Frame) result {
		r.honest(f)
		r.honest(f)
		return open
	})
	add("blocks instead", func(r *remote, f nodew.Frame) result {
		i := len(own(r.p.W, r.s.chain(len(r.s.offers)))) - len(r.s.base)
		if i >= len(r.s.offers) {
			i = 0
		}
		r.sendObjects([]object{objectOf(r.s.offers[i])}, uint32(len(r.chain)))
		return closes
	})
	add("malformed", func(r *remote, f nodew.Frame) result {
		s, t, l := r.entry(f)
		b := nodew.Encode("NotificationResponseChainEntry", uint64(s), uint64(t), nodew.Hashes(l...))
		r.p.Send(nodew.Notify(nodew.ChainEntry, b[:len(b)-1]))
		return open
	})
	add("none", func(r *remote, f nodew.Frame) result { return open })
	return
}

func objectActions() (out []action) {
	add := func(name string, do func(r *remote, f nodew.Frame, l []object, height uint32) result) {
		out = append(out, action{"objects " + name, nodew.GetObjects, func(r *remote, f nodew.Frame) result {
			l, _ := r.objects(f)
			if len(l) == 0 { // only unknown blocks were asked for
				return reply(r, f, open)
			}
			return do(r, f, l, uint32(len(r.chain)))
		}})
	}
	add("empty", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendObjects(nil, h)
		return closes
	})
	add("all missed", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		v, _ := nodew.Decode("NotificationRequestGetObjects", f.Payload)
		r.sendObjects(nil, h, nodew.Split(nodew.B(v[1]))...)
		return closes
	})
	for k := 0; k < 3; k++ {
		k := k
		add(fmt.Sprint("one left out ", k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			i := pick(len(l), k)
			r.sendObjects(append(append([]object{}, l[:i]...), l[i+1:]...), h)
			return closes
		})
		add(fmt.Sprint("one missed ", k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			i := pick(len(l), k)
			v, _ := nodew.Decode("NotificationRequestGetObjects", f.Payload)
			r.sendObjects(append(append([]object{}, l[:i]...), l[i+1:]...), h, nodew.Split(nodew.B(v[1]))[i])
			return closes
		})
		add(fmt.Sprint("one twice ", k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			i := pick(len(l), k)
			r.sendObjects(append(l[:i+1:i+1], l[i:]...), h)
			return closes
		})
		add(fmt.Sprint("one instead of another ", k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			if len(l) < 2 {
				return reply(r, f, goes)
			}
			i := pick(len(l), k)
			x := append([]object{}, l...)
			x[i] = l[(i+1)%len(l)]
			r.sendObjects(x, h)
			return closes
		})
		add(fmt.Sprint("swapped ", k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			if len(l) < 2 {
				return reply(r, f, goes)
			}
			i := pick(len(l)-1, k)
			x := append([]object{}, l...)
			x[i], x[i+1] = x[i+1], x[i]
			r.sendObjects(x, h)
			return closes
		})
		for n, o := range map[string]func(r *remote, l []object) (object, bool){
			"next":    func(r *remote, l []object) (object, bool) { return after(r, r.s.offers) },
			"invalid": func(r *remote, l []object) (object, bool) { x := r.s.bad[0]; return objectOf(x), true },
			"genesis": func(r *remote, l []object) (object, bool) {
				b, err := r.p.W.BC.GenesisBlock()
				if err != nil {
					panic(err)
				}
				return object{b.Serialize(), nil}, true
			},
			"empty bytes": func(r *remote, l []object) (object, bool) { return object{[]byte{}, nil}, true },
			"garbage":     func(r *remote, l []object) (object, bool) { return object{bytes.Repeat([]byte{0xff}, 50), nil}, true },
		} {
			o := o
			add(fmt.Sprintf("%s put in %d", n, k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
				x, ok := o(r, l)
				if !ok {
					return reply(r, f, goes)
				}
				i := []int{0, len(l) / 2, len(l)}[k]
				r.sendObjects(append(append(append([]object{}, l[:i]...), x), l[i:]...), h)
				return closes
			})
			add(fmt.Sprintf("%s instead %d", n, k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
				x, ok := o(r, l)
				if !ok {
					return reply(r, f, goes)
				}
				i := pick(len(l), k)
				y := append([]object{}, l...)
				y[i] = x
				r.sendObjects(y, h)
				return closes
			})
		}
		change := func(name string, g func(x *object) bool) {
			add(fmt.Sprintf("%s %d", name, k), func(r *remote, f nodew.Frame, l []object, h uint32) result {
				y := append([]object{}, l...)
				if !g(&y[pick(len(l), k)]) {
					return reply(r, f, goes)
				}
				r.sendObjects(y, h)
				return closes
			})
		}
		for _, cut := range []int{1, 2, 33, 100} {
			cut := cut
			change(fmt.Sprint("cut by ", cut), func(x *object) bool { x.block = x.block[:len(x.block)-cut]; return true })
			change(fmt.Sprint("byte changed at ", cut), func(x *object) bool { x.block = mutate(x.block, cut); return true })
		}
		change("transaction added", func(x *object) bool { x.txs = append(x.txs[:len(x.txs):len(x.txs)], []byte{1, 2, 3}); return true })
		change("empty transaction added", func(x *object) bool { x.txs = append(x.txs[:len(x.txs):len(x.txs)], []byte{}); return true })
		change("transaction left out", func(x *object) bool {
			if len(x.txs) == 0 {
				return false
			}
			x.txs = x.txs[1:]
			return true
		})
		change("transactions left out", func(x *object) bool {
			if len(x.txs) == 0 {
				return false
			}
			x.txs = nil
			return true
		})
		for _, at := range []int{0, 3, -1} {
			at := at
			change(fmt.Sprint("transaction changed at ", at), func(x *object) bool {
				if len(x.txs) == 0 {
					return false
				}
				i := at
				if i < 0 {
					i += len(x.txs[0])
				}
				x.txs = append([][]byte{mutate(x.txs[0], i)}, x.txs[1:]...)
				return true
			})
			change(fmt.Sprint("transaction cut at ", at), func(x *object) bool {
				if len(x.txs) == 0 {
					return false
				}
				i := at
				if i < 0 {
					i += len(x.txs[0])
				}
				x.txs = append([][]byte{x.txs[0][:i]}, x.txs[1:]...)
				return true
			})
		}
		change("transaction twice", func(x *object) bool {
			if len(x.txs) < 2 {
				return false
			}
			x.txs = append([][]byte{x.txs[1]}, x.txs[1:]...)
			return true
		})
	}
	for i, low := range []func(last uint32) uint32{func(uint32) uint32 { return 0 }, func(l uint32) uint32 { return l - 1 }, func(l uint32) uint32 { return l / 2 }} {
		low := low
		add(fmt.Sprint("low height ", i), func(r *remote, f nodew.Frame, l []object, h uint32) result {
			x := low(r.last)
			r.sendObjects(l, x)
			if x < r.last || x == r.last && r.final() {
				return closes
			}
			return open
		})
	}
	add("height of the last block", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendObjects(l, r.last)
		if r.final() {
			return closes
		}
		return open
	})
	add("height much more", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendObjects(l, h+1000)
		return open
	})
	add("bytes after a block", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		y := append([]object{}, l...)
		y[0].block = append(y[0].block[:len(y[0].block):len(y[0].block)], 7)
		r.sendObjects(y, h)
		return open
	})
	add("twice", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendObjects(l, h)
		r.sendObjects(l, h)
		return closes
	})
	add("an entry instead", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendEntry(uint32(len(r.s.base)-1), h, r.chain[len(r.s.base)-1:])
		return open
	})
	add("an entry with nothing more instead", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		k := len(own(r.p.W, r.s.chain(len(r.s.offers)))) - 1
		all := r.final()
		r.sendEntry(uint32(k), uint32(k+1), r.chain[k:k+1])
		if all {
			return closes
		}
		return open
	})
	add("an empty entry instead", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.sendEntry(0, h, nil)
		return closes
	})
	add("malformed", func(r *remote, f nodew.Frame, l []object, h uint32) result {
		r.p.Send(nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, kvm.L{kvm.L{[]byte{1}, nil}}, uint64(h), nil)[:20]))
		return open
	})
	add("none", func(r *remote, f nodew.Frame, l []object, h uint32) result { return open })
	return
}

// after is the first block the remote was not asked for.
func after(r *remote, l []*chainm.Offer) (object, bool) {
	asked := map[chainm.Hash]bool{}
	for _, h := range r.asked {
		asked[h] = true
	}
	for _, o := range l {
		if !asked[o.ID] {
			return objectOf(o), true
		}
	}
	return object{}, false
}

// messages that may come at any time and change nothing
func idleActions() (out []action) {
	add := func(name string, f func(r *remote) nodew.Frame) {
		out = append(out, action{"with " + name, 0, func(r *remote, q nodew.Frame) result {
			r.p.Send(f(r))
			return reply(r, q, goes)
		}})
	}
	nextBlock := func(r *remote) object {
		ch := own(r.p.W, r.s.chain(len(r.s.offers)))
		i := len(ch) - len(r.s.base)
		if i >= len(r.s.offers) {
			i = 0
		}
		return objectOf(r.s.offers[i])
	}
	add("timed sync", func(r *remote) nodew.Frame {
		return nodew.Command(nodew.TimedSync, nodew.Encode("TimedSyncRequest", nodew.SyncData(uint32(len(r.chain)), r.chain.Top())))
	})
	add("ping", func(r *remote) nodew.Frame { return nodew.Command(nodew.Ping, nodew.Encode("PingRequest")) })
	add("a new block", func(r *remote) nodew.Frame {
		o := nextBlock(r)
		return nodew.Notify(nodew.NewBlock, nodew.Encode("NotificationNewBlock", kvm.L{o.block, nil}, uint64(len(r.chain)), uint64(1)))
	})
	add("a new lite block", func(r *remote) nodew.Frame {
		return nodew.Notify(nodew.NewLite, nodew.Encode("NotificationNewLiteBlock", uint64(len(r.chain)), uint64(1), nextBlock(r).block))
	})
	add("new transactions", func(r *remote) nodew.Frame {
		return nodew.Notify(nodew.NewTxs, nodew.Encode("NotificationNewTransactions", uint64(0), foreign[:]))
	})
	add("unknown notification", func(r *remote) nodew.Frame { return nodew.Notify(2099, nodew.Encode("PingRequest")) })
	add("unknown command", func(r *remote) nodew.Frame { return nodew.Command(1099, nodew.Encode("PingRequest")) })
	add("a request for blocks", func(r *remote) nodew.Frame {
		return nodew.Notify(nodew.GetObjects, nodew.Encode("NotificationRequestGetObjects", []byte{}, nodew.Hashes(r.s.base[0])))
	})
	return
}

// ---- honest runs

// sync answers everything honestly until the node is quiet; growth[k] is what the remote's chain has grown to before the
// k-th answer.
func (r *remote) sync(ctx string, growth map[int]int) {
	w := r.p.W
	full := r.s.chain(len(r.s.offers))
	for k := 0; ; k++ {
		if k > 3*len(full)+20 {
			w.Fail("%s: the synchronization does not end", ctx)
		}
		if g, ok := growth[k]; ok {
			r.grow(g)
		}
		if r.p.Closed() {
			w.Fail("%s: the node closes the connection of an honest peer", ctx)
		}
		if len(r.pending) == 0 {
			return
		}
		if len(r.pending) > 1 {
			w.Fail("%s: the node has %d requests at a time", ctx, len(r.pending))
		}
		f := r.pending[0]
		r.pending = nil
		r.honest(f)
		nodew.Settle()
		r.look(own(w, full))
		c.Transition(1)
	}
}

func equal(w *nodew.World, r *remote, ctx string) {
	full := r.s.chain(len(r.s.offers))
	if ch := own(w, full); len(ch) != len(r.chain) {
		w.Fail("%s: the node's chain has %d blocks, the peer's %d", ctx, len(ch), len(r.chain))
	}
}

func askedOnce(w *nodew.World, r *remote, ctx string, want []chainm.Hash) {
	if len(r.asked) != len(want) {
		w.Fail("%s: %d blocks are asked for instead of %d", ctx, len(r.asked), len(want))
	}
	for i, h := range want {
		if r.asked[i] != h {
			w.Fail("%s: the %d-th block asked for is another one", ctx, i)
		}
	}
}

func bubble(w, i int, s *setting, desc func() string, f func(nw *nodew.World)) {
	c.Set(w, desc())
	bc := s.start()
	left := nodew.Bubble(T, func() {
		nw := nodew.New(c, w, i, bc, desc)
		nw.Start()
		f(nw)
		nw.Stop()
	})
	if left != "" {
		c.Fail(desc(), "something is left behind after the node stopped: %s", left)
	}
	c.Eval(1)
	c.Trace(1)
	c.Distinct(desc())
}

func honestRun(w, i int, s *setting, missing, limit int, growth map[int]int) {
	desc := func() string {
		return fmt.Sprintf("%s: honest peer %d ahead, %d hashes at a time, growth %v", s.name, missing, limit, growth)
	}
	bubble(w, i, s, desc, func(nw *nodew.World) {
		r := newRemote(s, missing, limit, nw.Connect())
		r.shake()
		nodew.Settle()
		full := s.chain(len(s.offers))
		r.look(own(nw, full))
		if (len(r.pending) > 0) != (missing > 0) {
			nw.Fail("%d requests after the handshake", len(r.pending))
		}
		r.sync("first", growth)
		if growth == nil {
			equal(nw, r, "first")
		}
		// the timed sync completes what has grown since
		round := func(ctx string) {
			n := len(r.asked)
			r.timed()
			nodew.Settle()
			r.look(own(nw, full))
			r.sync(ctx, nil)
			equal(nw, r, ctx)
			if growth == nil {
				askedOnce(nw, r, ctx, r.chain[len(s.base):])
			}
			_ = n
		}
		round("second")
		before := r.requests
		round("again")
		if r.requests != before {
			nw.Fail("the node asks for the chain of a peer that it has")
		}
		for _, g := range []int{1, 2} {
			if r.n+g <= len(s.offers) {
				r.grow(r.n + g)
				round(fmt.Sprintf("grown by %d", g))
			}
		}
		askedOnce(nw, r, "in the end", r.chain[len(s.base):])
	})
}

// ---- deviating runs

// script: actions by the number of the answer.
type script struct {
	s              *setting
	missing, limit int
	acts           map[int]action
}

func (x script) String() string {
	var ks []int
	for k := range x.acts {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var t []string
	for _, k := range ks {
		t = append(t, fmt.Sprintf("answer %d: %s", k, x.acts[k].name))
	}
	return fmt.Sprintf("%s: peer %d ahead, %d hashes at a time, %s", x.s.name, x.missing, x.limit, strings.Join(t, ", "))
}

func deviate(w, i int, x script) {
	desc := func() string { return x.String() }
	s := x.s
	bubble(w, i, s, desc, func(nw *nodew.World) {
		r := newRemote(s, x.missing, x.limit, nw.Connect())
		full := s.chain(len(s.offers))
		r.shake()
		nodew.Settle()
		r.look(own(nw, full))
		res := goes
		for k := 0; len(r.pending) > 0 && k < 60 && !r.p.Closed(); k++ {
			f := r.pending[0]
			r.pending = r.pending[1:]
			a, ok := x.acts[k]
			now := goes
			had := len(own(nw, full)) // before anything is sent: the node runs from then on
			if ok && (a.at == 0 || a.at == f.Cmd) {
				now = a.do(r, f)
				c.Outcome(fmt.Sprintf("deviation at %d: %d", f.Cmd, now))
			} else {
				r.honest(f)
			}
			nodew.Settle()
			nodew.Settle()
			nodew.Settle()
			if now == closes {
				// after an answer whose outcome is open the meaning of this one is, too
				if res == goes && !r.p.Closed() {
					nw.Fail("after answer %d the connection is open", k)
				}
			} else if now == open {
				res = open
			}
			r.look(own(nw, full))
			entered(nw, s, own(nw, full), r)
			if now == closes && len(own(nw, full)) > had && strings.HasPrefix(a.name, "entry") {
				nw.Fail("a chain answer adds blocks")
			}
			if now == goes && res == goes && r.p.Closed() {
				nw.Fail("after answer %d the connection is closed", k)
			}
			c.Transition(1)
		}
		if !r.p.Closed() && res == goes {
			equal(nw, r, "in the end")
			askedOnce(nw, r, "in the end", r.chain[len(s.base):])
		}
		c.Outcome(fmt.Sprintf("closed=%v complete=%v", r.p.Closed(), len(own(nw, full)) == len(r.chain)))
		// the node still synchronizes with another one
		q := newRemote(s, len(s.offers), 5, nw.Connect())
		q.shake()
		nodew.Settle()
		q.look(own(nw, full))
		q.sync("an honest peer after it", nil)
		q.timed()
		nodew.Settle()
		q.look(own(nw, full))
		q.sync("an honest peer after it", nil)
		equal(nw, q, "an honest peer after it")
	})
}

// ---- two peers

func together(w, i int, s *setting, ns [2]int, limits [2]int, order int, cutAt int) {
	desc := func() string {
		return fmt.Sprintf("%s: two peers %v ahead, %v hashes at a time, answers in order %b, first one gone at %d", s.name, ns, limits, order, cutAt)
	}
	bubble(w, i, s, desc, func(nw *nodew.World) {
		full := s.chain(len(s.offers))
		var rs []*remote
		for k := 0; k < 2; k++ {
			rs = append(rs, newRemote(s, ns[k], limits[k], nw.Connect()))
		}
		look := func() {
			for k, r := range rs {
				r.look2(full, nw)
				if !r.p.Gone && r.p.Closed() {
					nw.Fail("the node closes the connection of honest peer %d", k)
				}
			}
			entered(nw, s, own(nw, full), rs...)
		}
		shook := [2]bool{}
		for step := 0; step < 200; step++ {
			if step == cutAt {
				rs[0].p.Close()
				nodew.Settle()
			}
			// whose turn: by the bits of the order, then whoever has something to answer
			k := order >> uint(step) & 1
			can := func(k int) bool { return !rs[k].p.Gone && (!shook[k] || len(rs[k].pending) > 0) }
			if !can(k) {
				k = 1 - k
			}
			if !can(k) {
				break
			}
			if !shook[k] {
				shook[k] = true
				rs[k].shake()
			} else {
				f := rs[k].pending[0]
				rs[k].pending = rs[k].pending[1:]
				rs[k].honest(f)
			}
			nodew.Settle()
			nodew.Settle()
			look()
			c.Transition(1)
		}
		longest := 0
		for round := 0; round < 3; round++ {
			for k, r := range rs {
				if r.p.Gone {
					continue
				}
				if ns[k] > longest {
					longest = ns[k]
				}
				r.timed()
				nodew.Settle()
				look()
				r.sync2("after a timed sync", full, nw)
			}
		}
		if n := len(own(nw, full)); n < len(s.base)+longest {
			nw.Fail("the node's chain has %d blocks instead of %d", n, len(s.base)+longest)
		}
	})
}

// look2 is look where the chain may have grown since the request was sent.
func (r *remote) look2(full chainm.Chain, w *nodew.World) { r.look(own(w, full)) }

func (r *remote) sync2(ctx string, full chainm.Chain, w *nodew.World) { r.sync(ctx, nil) }

func TestVerif(t *testing.T) {
	c = vlib.New("C25")
	T = t
	if os.Getenv("VERIF_PHASE") == "c25-delays" {
		delays()
		c.Done()
		return
	}
	total := 400
	if c.Thorough {
		total = 1300
	}
	flat := newSetting(0, total, 0, nil)
	some := newSetting(5, 40, 0, nil)
	txs := newSetting(3, 40, 5000, func(i int) int { return i % 4 })
	many := newSetting(300, 150, 0, nil)
	n := 0
	// 1. honest peers
	type hjob struct {
		s              *setting
		missing, limit int
		growth         map[int]int
	}
	var hs []hjob
	limits := []int{2, 3, 4, 7, 20, 127, 128, 129, 130, 131, 200, 255, 256, 257, 258, 1000}
	for _, s := range []*setting{flat, some, txs, many} {
		var ms []int
		for m := 0; m <= 24 && m+3 <= len(s.offers); m++ {
			ms = append(ms, m)
		}
		for _, k := range []int{128, 256, 384, 512, 1024, 1280} {
			for d := -3; d <= 3; d++ {
				if k+d+3 <= len(s.offers) {
					ms = append(ms, k+d)
				}
			}
		}
		for _, m := range ms {
			for _, l := range limits {
				if m > 30 && l < 20 || m < 20 && l > 20 && l != 1000 {
					continue
				}
				hs = append(hs, hjob{s, m, l, nil})
			}
		}
		for m := 0; m <= 6; m++ {
			for _, l := range []int{2, 3, 5, 1000} {
				for at := 0; at < 6; at++ {
					for _, g := range []int{1, 2, 5} {
						hs = append(hs, hjob{s, m, l, map[int]int{at: m + g}})
						if c.Thorough {
							for at2 := at + 1; at2 < 9; at2++ {
								hs = append(hs, hjob{s, m, l, map[int]int{at: m + g, at2: m + g + 2}})
							}
						}
					}
				}
			}
		}
	}
	c.Each("honest peers", len(hs), func(w, i int) { honestRun(w, i, hs[i].s, hs[i].missing, hs[i].limit, hs[i].growth) })
	n += len(hs)
	c.Cov("honest runs", len(hs))
	// 2. deviations: each at every answer, and each after one that changes nothing
	var all, idle []action
	idle = idleActions()
	all = append(append(append(all, entryActions()...), objectActions()...), idle...)
	var xs []script
	for _, s := range []*setting{some, txs} {
		for _, ml := range [][2]int{{1, 1000}, {2, 1000}, {6, 1000}, {6, 3}, {9, 4}, {5, 2}} {
			rounds := 2
			if ml[1] < 10 {
				rounds = 2 * ((ml[0] + ml[1] - 2) / (ml[1] - 1))
			}
			for k := 0; k < rounds; k++ {
				for _, a := range all {
					want := uint32(nodew.RequestChain)
					if k%2 == 1 {
						want = nodew.GetObjects
					}
					if a.at != 0 && a.at != want {
						continue
					}
					xs = append(xs, script{s, ml[0], ml[1], map[int]action{k: a}})
					for j := 0; j < k; j++ {
						for q, b := range idle {
							if c.Thorough || q%3 == (j+k)%3 {
								xs = append(xs, script{s, ml[0], ml[1], map[int]action{j: b, k: a}})
							}
						}
					}
					// after one whose outcome is open
					for j := 0; j < k; j++ {
						for _, b := range all {
							if b.at == want && j%2 != k%2 || b.at == 0 || b.at != want && b.at != 0 && j%2 == k%2 {
								continue
							}
							if !c.Thorough && (s != some || ml[0] != 6) {
								continue
							}
							if j == k-1 || c.Thorough {
								xs = append(xs, script{s, ml[0], ml[1], map[int]action{j: b, k: a}})
							}
						}
					}
				}
			}
		}
	}
	// second batches
	for _, ml := range [][2]int{{131, 1000}, {130, 129}, {129, 130}} {
		for k := 0; k < 4; k++ {
			for _, a := range all {
				xs = append(xs, script{many, ml[0], ml[1], map[int]action{k: a}})
			}
		}
	}
	c.Cov("deviating runs", len(xs))
	c.Each("deviations", len(xs), func(w, i int) { deviate(w, n+i, xs[i]) })
	n += len(xs)
	// 3. two peers
	type tjob struct {
		s          *setting
		ns, limits [2]int
		order, cut int
	}
	var ts []tjob
	bits := 8
	if c.Thorough {
		bits = 11
	}
	for _, s := range []*setting{some, txs} {
		for _, ns := range [][2]int{{3, 3}, {4, 6}, {6, 4}, {1, 5}} {
			for _, limits := range [][2]int{{1000, 1000}, {3, 1000}, {3, 3}, {2, 4}} {
				for order := 0; order < 1<<uint(bits); order++ {
					ts = append(ts, tjob{s, ns, limits, order, -1})
					if order%4 == 1 || c.Thorough {
						for cut := 1; cut < 7; cut += 2 {
							ts = append(ts, tjob{s, ns, limits, order, cut})
						}
					}
				}
			}
		}
	}
	c.Cov("runs with two peers", len(ts))
	c.Each("two peers", len(ts), func(w, i int) {
		together(w, n+i, ts[i].s, ts[i].ns, ts[i].limits, ts[i].order, ts[i].cut)
	})
	c.Sample(xs[len(xs)/3].String())
	c.Done()
}
