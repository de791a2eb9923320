//go:build go1.21

package c20

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

// run is one history of offers.
type run struct {
	w       int
	name    string
	world   *chainm.World
	base    uint32
	nonce   uint32
	trail   []string
	offered []offer // every block offered and kept
	fees    uint64
	long    bool
}

type offer struct {
	b   *ref.Block
	raw [][]byte
}

func (r *run) desc() string { return r.name + ": " + strings.Join(r.trail, ", ") }

func (r *run) fail(f string, a ...interface{}) { c.Fail(r.desc(), f, a...) }

// offer gives a block to the real chain and to the model and compares everything.
func (r *run) offer(b *ref.Block, raw [][]byte) {
	m := r.world.M
	why, info, slack := m.Judge(b, raw)
	if why == "undecided" {
		return
	}
	r.offered = append(r.offered, offer{b, raw})
	err := r.world.BC.AddBlock(txm.Block(b), raw)
	c.Transition(1)
	if (why == "") != (err == nil) {
		r.fail("block accepted: %v (%v); by the rules it is to be %q", err == nil, err, why)
	}
	if why == "" {
		got, ok := cryptonote.VerifInfoAt(r.world.St, info.Index)
		if !ok {
			r.fail("nothing recorded about an accepted block")
		}
		if got.Cum < info.Cum || got.Cum > info.Cum+slack {
			r.fail("total difficulty is %d, not %d to %d (%d before)", got.Cum, info.Cum, info.Cum+slack, m.Top.Cum)
		}
		info.Cum = got.Cum
		m.Push(info)
	}
	r.compare()
}

// compare checks all that can be seen of the chain.
func (r *run) compare() {
	m, bc, st := r.world.M, r.world.BC, r.world.St
	top := bc.TopBlock()
	if top == nil || ref.Hash(*top.Hash()) != m.Top.Hash {
		r.fail("the top is not the last accepted block")
	}
	if top.Index() != m.Top.Index || bc.Height() != m.Top.Index+1 {
		r.fail("height is %d, top's height %d, must be %d", bc.Height(), top.Index(), m.Top.Index+1)
	}
	if ti, err := st.TopIndex(); err != nil || ti != m.Top.Index {
		r.fail("storage's top is %d", ti)
	}
	if tb, err := st.TopBlock(); err != nil || ref.Hash(*tb.Hash()) != m.Top.Hash {
		r.fail("storage's top block is another")
	}
	for _, o := range r.offered {
		id := crypto.Hash(o.b.ID())
		if bc.HaveBlock(&id) != (m.ByHash[ref.Hash(id)] != nil) || st.HaveBlock(&id) != (m.ByHash[ref.Hash(id)] != nil) {
			r.fail("block %x is known: %v, accepted: %v", id[:4], bc.HaveBlock(&id), m.ByHash[ref.Hash(id)] != nil)
		}
		if got := st.GetBlock(&id); (got != nil) != (m.ByHash[ref.Hash(id)] != nil) {
			r.fail("block %x can be fetched: %v", id[:4], got != nil)
		}
	}
	from := uint32(0)
	if r.base > 3 {
		from = r.base - 3
	}
	for i := from; i <= m.Top.Index+2; i++ {
		want := m.ByIndex[i]
		got, ok := cryptonote.VerifInfoAt(st, i)
		h, _ := st.HashAtIndex(i)
		if want == nil {
			if ok || h != nil {
				r.fail("something is recorded at height %d", i)
			}
			continue
		}
		if !ok || h == nil || ref.Hash(*h) != want.Hash {
			r.fail("the block at height %d is missing or another", i)
		}
		b := st.GetBlock(h)
		if b == nil || ref.Hash(*b.Hash()) != want.Hash || b.Index() != i {
			r.fail("the block of height %d cannot be fetched", i)
		}
		if i > 0 && m.ByIndex[i-1] != nil && ref.Hash(b.PreviousBlockHash) != m.ByIndex[i-1].Hash {
			r.fail("the predecessor of height %d is not the block below", i)
		}
		if got.Index != i || ref.Hash(got.Hash) != want.Hash || got.Cum != want.Cum || got.Coins != want.Coins || got.Txs != want.Count || got.Time != want.TS || got.Size != want.Size {
			r.fail("totals at height %d are %+v, must be %+v", i, *got, *want)
		}
	}
	r.sparse()
}

func (r *run) sparse() {
	m := r.world.M
	if r.base > 400 {
		return // the history has a gap
	}
	l, err := r.world.BC.BuildSparseChain()
	if err != nil {
		r.fail("sparse chain: %v", err)
	}
	want := []ref.Hash{m.Top.Hash}
	for i := uint32(1); i < m.Top.Index; i *= 2 {
		want = append(want, m.ByIndex[m.Top.Index-i].Hash)
	}
	if m.Top.Index > 0 {
		want = append(want, m.ByIndex[0].Hash)
	}
	if len(l) != len(want) {
		r.fail("sparse chain of %d, not %d blocks", len(l), len(want))
	}
	for i := range l {
		if ref.Hash(l[i]) != want[i] {
			r.fail("number %d of the sparse chain is another block", i)
		}
	}
}

func (r *run) next(prev *chainm.Info) *chainm.Draft {
	d := r.world.M.NewDraft(prev)
	r.nonce++
	d.B.Nonce = r.nonce
	if r.long && d.B.TS > r.world.M.Now+chainm.FutureOf(d.B.Major) {
		// after a late block: the run goes on with blocks near the median
		med, _ := r.world.M.MedianTime(prev, d.B.Major)
		d.B.TS = med + 100
	}
	return d
}

type letter struct {
	name string
	do   func(r *run)
}

func (r *run) top() *chainm.Info { return r.world.M.Top }

func (r *run) fee() uint64 { return chainm.MinFee(r.top().Index+1, 0) + 17 }

var letters = []letter{
	{"block", func(r *run) { r.offer(r.next(r.top()).Finish()) }},
	{"two transactions", func(r *run) {
		d := r.next(r.top())
		s := byte(r.nonce % 200)
		d.Txs = []ref.Tx{chainm.Tx(s, 2, 2, r.fee(), nil), chainm.Tx(s+1, 1, 3, 2*r.fee(), nil)}
		r.offer(d.Finish())
	}},
	{"bad reward", func(r *run) {
		d := r.next(r.top())
		d.Delta = -1
		r.offer(d.Finish())
	}},
	{"last offer again", func(r *run) {
		if n := len(r.offered); n > 0 {
			r.offer(r.offered[n-1].b, r.offered[n-1].raw)
		}
	}},
	{"competing with the top", func(r *run) {
		if p := r.world.M.ByHash[r.top().Prev]; p != nil {
			r.offer(r.next(p).Finish())
		}
	}},
	{"child of the last offer", func(r *run) {
		n := len(r.offered)
		if n == 0 {
			return
		}
		// built as if the last offer were the top
		m := r.world.M.Clone()
		o := r.offered[n-1]
		id := o.b.ID()
		p := m.ByHash[id]
		if p == nil {
			q := *r.top()
			q.Hash = id
			q.Index = o.b.Base.Ins[0].Index
			q.TS = o.b.TS
			p = &q
		}
		d := r.next(r.top())
		d.B.Prev = id
		d.Index = p.Index + 1
		d.B.Major = chainm.VersionAt(d.Index)
		d.B.Base.Ins = []ref.TxIn{txm.Coinbase(d.Index)}
		d.B.Base.Unlock = uint64(d.Index) + 10
		r.offer(d.Finish())
	}},
	{"late block", func(r *run) {
		d := r.next(r.top())
		d.B.TS = r.world.M.Now + chainm.FutureOf(d.B.Major)
		r.offer(d.Finish())
	}},
	{"early block", func(r *run) {
		d := r.next(r.top())
		med, full := r.world.M.MedianTime(r.top(), d.B.Major)
		d.B.TS = med
		if !full {
			d.B.TS = 1
		}
		r.offer(d.Finish())
	}},
	{"large block", func(r *run) {
		d := r.next(r.top())
		if d.Index < 500000 {
			d.B.Base.Extra = append(append([]byte{}, d.B.Base.Extra...), make([]byte, 20000)...)
		} else {
			ex := make([]byte, 30000)
			d.Txs = []ref.Tx{chainm.Tx(byte(r.nonce%200), 2, 2, chainm.MinFee(d.Index, len(ex)), ex)}
		}
		r.offer(d.Finish())
	}},
	{"transaction with a low fee", func(r *run) {
		d := r.next(r.top())
		d.Txs = []ref.Tx{chainm.Tx(byte(r.nonce%200), 2, 2, r.fee(), nil), chainm.Tx(byte(r.nonce%200)+1, 2, 2, 100, nil)}
		r.offer(d.Finish())
	}},
	{"orphan", func(r *run) {
		d := r.next(r.top())
		d.B.Prev[3] ^= 1
		r.offer(d.Finish())
	}},
	{"fork 3 below", func(r *run) {
		p := r.top()
		for i := 0; i < 3 && p != nil; i++ {
			p = r.world.M.ByHash[p.Prev]
		}
		if p != nil {
			r.offer(r.next(p).Finish())
		}
	}},
	{"first offer again", func(r *run) {
		if len(r.offered) > 0 {
			r.offer(r.offered[0].b, r.offered[0].raw)
		}
	}},
	{"many outputs", func(r *run) {
		d := r.next(r.top())
		d.Split = chainm.Digits
		r.offer(d.Finish())
	}},
}

// probes are offered at every step of a long run: each lies just beyond a limit
// that the blocks before it move.
var probes = []letter{
	{"block a second too early", func(r *run) {
		d := r.next(r.top())
		med, full := r.world.M.MedianTime(r.top(), d.B.Major)
		if full {
			d.B.TS = med - 1
			r.offer(d.Finish())
		}
	}},
	{"block a second too late", func(r *run) {
		d := r.next(r.top())
		d.B.TS = r.world.M.Now + chainm.FutureOf(d.B.Major) + 1
		r.offer(d.Finish())
	}},
	{"reward one too high", func(r *run) {
		d := r.next(r.top())
		d.Delta = 1
		r.offer(d.Finish())
	}},
}

type place struct {
	h     *chainm.History
	name  string
	quick int
	deep  int
}

func TestVerif(t *testing.T) {
	c = vlib.New("C20")
	synctest.Test(t, func(t *testing.T) { body() })
	c.Done()
}

func body() {
	var places []place
	for i, x := range []struct {
		top         uint32
		quick, deep int
	}{{0, 4, 5}, {4, 3, 4}, {98, 3, 4}, {60000 - 2, 3, 4}, {215998, 3, 4}, {265998, 3, 5}, {499998, 3, 4}, {666998, 3, 4}, {699998, 4, 5}, {700118, 3, 4}} {
		n := 200
		if x.top < 60000 {
			n = 400
		}
		p := chainm.Patterns[i%2]
		places = append(places, place{chainm.NewHistory(x.top, n, p), fmt.Sprintf("from top %d", x.top), x.quick, x.deep})
	}
	for i, pl := range places {
		depth := pl.quick
		if c.Thorough {
			depth = pl.deep
		}
		radix := make([]int, depth)
		for k := range radix {
			radix[k] = len(letters)
		}
		_ = i
		c.Each(pl.name, vlib.Size(radix), func(w, i int) {
			word := vlib.Unrank(i, radix)
			top := pl.h.Model.Top.Index
			r := &run{w: w, name: pl.name, base: top, world: pl.h.World(map[uint32]ref.Hash{top + 100000: txm.Fill(4)}), nonce: 100}
			for _, l := range word {
				r.trail = append(r.trail, letters[l].name)
				c.Set(w, r.desc())
				letters[l].do(r)
				c.Distinct(r.desc())
			}
			c.Eval(1)
			c.Trace(1)
			c.Sample(r.desc())
		})
	}
	// long runs of blocks of every kind: the totals stay exact over hundreds of blocks and through every change of rules
	n := 300
	if c.Thorough {
		n = 900
	}
	c.Each("long", 10, func(w, i int) {
		tops := []uint32{0, 59900, 215900, 265900, 499900, 699900, 700000, 0, 666900, 699980}
		h := chainm.NewHistory(tops[i], 400, chainm.Patterns[i%2])
		r := &run{w: w, name: fmt.Sprintf("long run %d from top %d", i, tops[i]), base: tops[i], world: h.World(map[uint32]ref.Hash{tops[i] + 100000: txm.Fill(4)}), nonce: 100, long: true}
		k := 0
		for ; k < n && !c.Expired(); k++ {
			l := letters[[]int{0, 1, 0, 8, 0, 7, 0, 6, 13, 4, 2}[(k*k+k*i)%11]]
			if l.name == "late block" && k%40 != 3 {
				l = letters[0]
			}
			r.trail = []string{fmt.Sprintf("step %d", k), l.name}
			c.Set(w, r.desc())
			if len(r.offered) > 8 {
				r.offered = r.offered[len(r.offered)-8:]
			}
			if k%20 != 0 {
				// only the recent blocks are compared in detail
				if t := r.world.M.Top.Index; t > 8 {
					r.base = t - 5
				}
			} else {
				r.base = tops[i]
			}
			for _, x := range probes {
				r.trail = []string{fmt.Sprintf("step %d", k), x.name}
				c.Set(w, r.desc())
				x.do(r)
			}
			r.trail = []string{fmt.Sprintf("step %d", k), l.name}
			c.Set(w, r.desc())
			l.do(r)
		}
		if k == n && r.top().Index < tops[i]+uint32(n)/2 {
			c.Fail(r.name, "the run is stuck at %d", r.top().Index)
		}
		c.Eval(1)
		c.Trace(1)
	})
}
