//go:build go1.21

package c36n

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vdisk"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var (
	c  *vlib.Ctx
	nt = config.TestNet()
	T  *testing.T
)

// setting: the node's chain and the blocks that follow.
type setting struct {
	top    uint32
	h      *chainm.History
	base   chainm.Chain
	full   chainm.Chain
	offers map[chainm.Hash]*chainm.Offer
}

func newSetting(top uint32, n int) *setting {
	s := &setting{top: top, h: chainm.NewHistory(top, int(top), chainm.Patterns[0]), offers: map[chainm.Hash]*chainm.Offer{}}
	s.h.Model.Points[top+100000] = ref.Keccak([]byte("point"))
	s.base = s.h.ChainOf()
	s.full = append(chainm.Chain{}, s.base...)
	m := s.h.Model
	for k := 0; k < n; k++ {
		d := m.NewDraft(m.Top)
		for t := 0; t < k%3; t++ {
			d.Txs = append(d.Txs, chainm.Tx(byte(1+k*3+t), 1, 1, 1000000000000, nil))
		}
		o, next := d.Make(fmt.Sprint(k))
		if o.Bad {
			panic("c36n: offer")
		}
		s.offers[o.ID] = o
		s.full = append(s.full, o.ID)
		m = next
	}
	return s
}

// event: what goes wrong at a storage call counted over the life of the storage, or a restart after an answer.
type event struct {
	kind string // write, hash, restart
	at   int
}

func (e event) String() string { return fmt.Sprintf("%s %d", e.kind, e.at) }

// failing is a storage with events.
type failing struct {
	cryptonote.Storage
	d           *vdisk.Disk
	events      []event
	write, hash int
	failures    int
}

func (f *failing) hit(kind string, at int) bool {
	for _, e := range f.events {
		if e.kind == kind && e.at == at {
			f.failures++
			return true
		}
	}
	return false
}

func (f *failing) Init(g *cryptonote.Block) error { return f.d.Init(g) }

func (f *failing) PushBlock(b *cryptonote.Block, i *cryptonote.VerifBlockInfo, t cryptonote.TransactionsDetails) error {
	f.write++
	if f.hit("write", f.write) {
		return vdisk.Err
	}
	return f.Storage.PushBlock(b, i, t)
}

func (f *failing) HashAtIndex(i uint32) (*crypto.Hash, error) {
	f.hash++
	if f.hit("hash", f.hash) {
		return nil, vdisk.Err
	}
	return f.Storage.HashAtIndex(i)
}

// run synchronizes over connections and restarts until the node has all.
type run struct {
	w, i   int
	s      *setting
	limit  int
	events []event
	st     *failing
	trail  []string
	bc     *cryptonote.BlockChain
	answer int
}

func (r *run) desc() string {
	var e []string
	for _, x := range r.events {
		e = append(e, x.String())
	}
	return fmt.Sprintf("top %d, %d ahead, %d hashes at a time, failures: %s; %s", r.s.top, len(r.s.full)-len(r.s.base), r.limit, strings.Join(e, ", "), strings.Join(r.trail, ", "))
}

func (r *run) boot() {
	r.bc = cryptonote.NewBlockChain(config.TestNet(), r.st, chainm.Logger())
	if err := r.bc.Checkpoints.AddCheckpoint(r.s.top+100000, ref.Keccak([]byte("point"))); err != nil {
		panic(err)
	}
	if err := r.bc.Init(); err != nil {
		c.Fail(r.desc(), "the chain does not start: %v", err)
	}
}

func (r *run) own(w *nodew.World) chainm.Chain {
	n := int(r.bc.Height())
	if n > len(r.s.full) || chainm.Hash(*r.bc.TopBlock().Hash()) != r.s.full[n-1] {
		w.Fail("the node's chain of %d blocks ends in another block", n)
	}
	for i := len(r.s.base); i < len(r.s.full); i++ {
		x := crypto.Hash(r.s.full[i])
		if in := r.st.d.Storage.HaveBlock(&x); in != (i < n) || r.bc.HaveBlock(&x) != in {
			w.Fail("the chain has %d blocks; block %d in the storage: %v", n, i, in)
		}
	}
	return r.s.full[:n]
}

// talk serves one connection honestly until the node is quiet or closes it; it says if a restart is due.
func (r *run) talk(w *nodew.World) (restart bool) {
	p := w.Connect()
	full := r.s.full
	p.Send(nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(nt.NetworkID[:], nt.P2PCurrentVersion, uint64(len(w.Peers))), nodew.SyncData(uint32(len(full)), full.Top()))))
	failed := r.st.failures
	for k := 0; ; k++ {
		nodew.Settle()
		if k > 3*len(full)+20 {
			w.Fail("the synchronization does not end")
		}
		ch := r.own(w)
		var req *nodew.Frame
		for _, f := range p.Recv() {
			f := f
			switch f.Cmd {
			case nodew.RequestChain, nodew.GetObjects:
				if req != nil {
					w.Fail("two requests at a time")
				}
				req = &f
			case nodew.Handshake:
			default:
				w.Fail("the node sends %s", f)
			}
		}
		if p.Closed() {
			if r.st.failures == failed {
				w.Fail("the node closes the connection of an honest peer, and nothing failed")
			}
			return false
		}
		if req == nil {
			p.Close()
			nodew.Settle()
			if r.st.failures == failed && len(ch) != len(full) {
				w.Fail("the node has %d of %d blocks and asks no more, and nothing failed", len(ch), len(full))
			}
			return false
		}
		for _, e := range r.events {
			if e.kind == "restart" && e.at == r.answer {
				restart = true
			}
		}
		r.answer++
		if restart {
			return true
		}
		if req.Cmd == nodew.RequestChain {
			v, ok := nodew.Decode("NotificationRequestChain", req.Payload)
			if !ok || !bytes.Equal(nodew.B(v[0]), nodew.Hashes(ch.Sparse()...)) {
				w.Fail("the chain request is not the locator of the chain of %d blocks", len(ch))
			}
			end := len(ch) - 1 + r.limit
			if end > len(full) {
				end = len(full)
			}
			p.Send(nodew.Notify(nodew.ChainEntry, nodew.Encode("NotificationResponseChainEntry", uint64(len(ch)-1), uint64(len(full)), nodew.Hashes(full[len(ch)-1:end]...))))
		} else {
			v, ok := nodew.Decode("NotificationRequestGetObjects", req.Payload)
			if !ok {
				w.Fail("the request for blocks cannot be read")
			}
			bs := kvm.L{}
			for _, h := range nodew.Split(nodew.B(v[1])) {
				o := r.s.offers[h]
				if o == nil {
					w.Fail("the node asks for a block that it has")
				}
				var txs interface{}
				if o.Raw != nil {
					t := kvm.L{}
					for _, x := range o.Raw {
						t = append(t, x)
					}
					txs = t
				}
				bs = append(bs, kvm.L{o.B.Bytes(), txs})
			}
			p.Send(nodew.Notify(nodew.Objects, nodew.Encode("NotificationResponseGetObjects", nil, bs, uint64(len(full)), nil)))
		}
		c.Transition(1)
	}
}

func one(w, i int, s *setting, limit int, events []event) {
	r := &run{w: w, i: i, s: s, limit: limit, events: events}
	_, st := s.h.NewChain()
	d := vdisk.New(st, true)
	r.st = &failing{Storage: d, d: d, events: events}
	c.Set(w, r.desc())
	rounds := 0
	for done := false; !done; {
		r.boot()
		left := nodew.Bubble(T, func() {
			nw := nodew.New(c, w, i, r.bc, r.desc)
			nw.Start()
			for {
				if rounds++; rounds > len(events)+3 {
					nw.Fail("%d connections and the chain is not complete", rounds)
				}
				before := len(r.own(nw))
				failed := r.st.failures
				restart := r.talk(nw)
				r.trail = append(r.trail, fmt.Sprintf("connection %d ends with %d blocks", rounds, len(r.own(nw))))
				if len(r.own(nw)) < before {
					nw.Fail("blocks are lost")
				}
				if restart {
					break
				}
				if r.st.failures == failed {
					if len(r.own(nw)) != len(s.full) {
						nw.Fail("the chain is not complete")
					}
					done = true
					break
				}
			}
			nw.Stop()
		})
		if left != "" {
			c.Fail(r.desc(), "something is left behind after the node stopped: %s", left)
		}
	}
	c.Eval(1)
	c.Trace(1)
	c.Distinct(r.desc())
	c.Sample(r.desc())
	c.Outcome(fmt.Sprintf("%d failures, %d connections", r.st.failures, rounds))
}

func TestVerif(t *testing.T) {
	T = t
	c = vlib.New("C36")
	type job struct {
		s      *setting
		limit  int
		events []event
	}
	var jobs []job
	ahead, hashes := 7, 10
	if c.Thorough {
		ahead, hashes = 11, 14
	}
	for _, top := range []uint32{0, 3, 9} {
		s := newSetting(top, ahead)
		for _, limit := range []int{2, 3, 4, 20} {
			var es []event
			for k := 1; k <= ahead+2; k++ {
				es = append(es, event{"write", k})
			}
			for k := 1; k <= hashes; k++ {
				es = append(es, event{"hash", k})
			}
			for k := 0; k <= 8; k++ {
				es = append(es, event{"restart", k})
			}
			jobs = append(jobs, job{s, limit, nil})
			for i, a := range es {
				jobs = append(jobs, job{s, limit, []event{a}})
				for _, b := range es[i+1:] {
					jobs = append(jobs, job{s, limit, []event{a, b}})
				}
			}
			if c.Thorough || top == 3 && limit < 4 {
				for i, a := range es {
					for j, b := range es[i+1:] {
						for _, x := range es[i+1+j+1:] {
							jobs = append(jobs, job{s, limit, []event{a, b, x}})
						}
					}
				}
			}
		}
	}
	c.Each("failures", len(jobs), func(w, i int) { one(w, i, jobs[i].s, jobs[i].limit, jobs[i].events) })
	c.Done()
}
