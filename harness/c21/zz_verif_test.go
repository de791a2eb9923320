//go:build go1.21

package c21

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

const maxU64 = 1<<64 - 1

// plan of a transaction; every change edits it.
type plan struct {
	index  uint32
	seed   int
	ins    []ref.TxIn
	extra  []byte
	unlock uint64
	fee    func(least, sum uint64) uint64
	split  func(total uint64) []uint64
	post   []func(t *ref.Tx)
}

type change struct {
	name  string
	group int
	on    func(p *plan)
}

const coin = 1000000000000000

func in(amount uint64, image int, ring int) ref.TxIn {
	x := ref.TxIn{Amount: amount, Image: chainm.Image(image)}
	for k := 0; k < ring; k++ {
		x.Offs = append(x.Offs, uint32(k+1))
	}
	return x
}

func newPlan(index uint32, seed int) *plan {
	p := &plan{index: index, seed: seed}
	p.ins = []ref.TxIn{in(coin, seed*64, 3), in(coin, seed*64+1, 3)}
	p.fee = func(least, sum uint64) uint64 { return least }
	p.split = chainm.Digits
	return p
}

func (p *plan) tx() ref.Tx {
	t := ref.Tx{Version: 1, Unlock: p.unlock, Ins: p.ins, Extra: p.extra}
	sum := uint64(0)
	for _, x := range p.ins {
		sum += x.Amount
	}
	fee := p.fee(chainm.MinFee(p.index, len(p.extra)), sum)
	if total := sum - fee; total > 0 {
		for i, a := range p.split(total) {
			t.Outs = append(t.Outs, ref.TxOut{Amount: a, Key: chainm.Keys[i%3].Pub})
		}
	}
	for _, f := range p.post {
		f(&t)
	}
	return txm.WithSigs(t, p.seed)
}

func dustOf(i uint32) uint64 {
	if i < 266000 {
		return 100000000
	}
	return 0
}

func changes() (out []change) {
	add := func(group int, name string, on func(p *plan)) { out = append(out, change{name, group, on}) }
	// 0: number and amounts of inputs
	n := 0
	amounts := func(name string, l ...uint64) {
		add(0, name, func(p *plan) {
			p.ins = nil
			for i, a := range l {
				p.ins = append(p.ins, in(a, p.seed*64+i, 3))
			}
		})
		n++
	}
	amounts("no inputs")
	amounts("one input", coin)
	amounts("three inputs", coin, 1, 7)
	amounts("input of 0", coin, 0)
	amounts("only an input of 0", 0)
	amounts("inputs of 0", 0, 0)
	amounts("inputs of exactly the largest sum", 1<<63, 1<<63-1)
	amounts("inputs overflow by one", 1<<63, 1<<63)
	amounts("inputs overflow to something", maxU64, coin, coin)
	amounts("inputs overflow to zero", maxU64, 1)
	amounts("two inputs overflow to something", maxU64, 2*coin)
	amounts("two inputs overflow to something, the second is large", 2*coin, maxU64)
	amounts("two halves overflow to something", 1<<63, 1<<63+2*coin)
	amounts("four inputs overflow to something", 1<<62, 1<<62, 1<<62, 1<<62+2*coin)
	amounts("one input of the largest amount", maxU64)
	amounts("inputs overflow twice", maxU64, maxU64, coin)
	amounts("inputs overflow and the sum grows", maxU64, 0, 2*coin)
	// 1: ring sizes
	rings := []int{0, 1, 2, 3, 4, 19, 20, 21, 22, 60}
	for _, a := range rings {
		a := a
		add(1, fmt.Sprintf("rings of %d", a), func(p *plan) {
			for i := range p.ins {
				p.ins[i].Offs = in(0, 0, a).Offs
			}
		})
		add(1, fmt.Sprintf("first ring of %d", a), func(p *plan) {
			if len(p.ins) > 0 {
				p.ins[0].Offs = in(0, 0, a).Offs
			}
		})
		add(1, fmt.Sprintf("last ring of %d", a), func(p *plan) {
			if len(p.ins) > 0 {
				p.ins[len(p.ins)-1].Offs = in(0, 0, a).Offs
			}
		})
		add(1, fmt.Sprintf("last ring of %d, first of 1", a), func(p *plan) {
			if k := len(p.ins); k > 0 {
				p.ins[0].Offs = []uint32{5}
				p.ins[k-1].Offs = in(0, 0, a).Offs
			}
		})
	}
	// 2: offsets
	for _, o := range [][]uint32{{0, 1, 1}, {0, 0, 1}, {1, 0, 1}, {1, 1, 0}, {0}, {0, 0}, {1, 1, 1}, {7, 7, 7}, {2, 5, 5, 2}, {1, 2, 0, 4, 5}, {1<<32 - 3, 1, 1}, {1000000, 1, 70000}, {3, 2, 1}} {
		o := o
		add(2, fmt.Sprintf("offsets %v in all", o), func(p *plan) {
			for i := range p.ins {
				p.ins[i].Offs = o
			}
		})
		add(2, fmt.Sprintf("offsets %v in the last", o), func(p *plan) {
			if k := len(p.ins); k > 0 {
				p.ins[k-1].Offs = o
			}
		})
	}
	// 3: images
	add(3, "image repeated at once", func(p *plan) {
		p.ins = append(p.ins, in(5, p.seed*64, 3))
		if len(p.ins) > 1 {
			p.ins[1].Image = p.ins[0].Image
		}
	})
	add(3, "image repeated later", func(p *plan) { p.ins = append(p.ins, in(5, p.seed*64+40, 3), in(coin, p.seed*64, 2)) })
	add(3, "image repeated with other offsets", func(p *plan) {
		x := in(9, p.seed*64, 3)
		x.Offs = []uint32{9, 8, 7}
		p.ins = append(p.ins, x)
	})
	add(3, "images differ in a bit only", func(p *plan) {
		for i := range p.ins {
			p.ins[i].Image[31] ^= byte(i) << 7
		}
	})
	// 4: outputs
	post := func(name string, f func(t *ref.Tx)) {
		add(4, name, func(p *plan) { p.post = append(p.post, f) })
	}
	post("zero output last", func(t *ref.Tx) { t.Outs = append(t.Outs, ref.TxOut{Key: chainm.Keys[0].Pub}) })
	post("zero output first", func(t *ref.Tx) { t.Outs = append([]ref.TxOut{{Key: chainm.Keys[0].Pub}}, t.Outs...) })
	for i, k := range [][32]byte{chainm.Bad[0], chainm.Bad[1], {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, txm.Fill(255)} {
		i, k := i, k
		post(fmt.Sprintf("bad key %d last", i), func(t *ref.Tx) {
			if n := len(t.Outs); n > 0 {
				t.Outs[n-1].Key = k
			}
		})
		post(fmt.Sprintf("bad key %d first", i), func(t *ref.Tx) {
			if n := len(t.Outs); n > 0 {
				t.Outs[0].Key = k
			}
		})
	}
	post("all outputs to one key", func(t *ref.Tx) {
		for i := range t.Outs {
			t.Outs[i].Key = chainm.Keys[1].Pub
		}
	})
	post("outputs reversed", func(t *ref.Tx) {
		o := append([]ref.TxOut{}, t.Outs...)
		for i := range o {
			t.Outs[len(o)-1-i] = o[i]
		}
	})
	post("no outputs", func(t *ref.Tx) { t.Outs = nil })
	post("outputs overflow", func(t *ref.Tx) {
		t.Outs = append(t.Outs, ref.TxOut{Amount: 9000000000000000000, Key: chainm.Keys[0].Pub}, ref.TxOut{Amount: 9000000000000000000, Key: chainm.Keys[0].Pub}, ref.TxOut{Amount: 500000000000000000, Key: chainm.Keys[0].Pub})
	})
	post("outputs overflow to what they were", func(t *ref.Tx) {
		t.Outs = append(t.Outs, ref.TxOut{Amount: maxU64, Key: chainm.Keys[0].Pub}, ref.TxOut{Amount: 1, Key: chainm.Keys[0].Pub})
	})
	post("canonical outputs overflow to less", func(t *ref.Tx) {
		for _, a := range []uint64{10000000000000000000, 8000000000000000000, 400000000000000000, 50000000000000000} {
			t.Outs = append(t.Outs, ref.TxOut{Amount: a, Key: chainm.Keys[0].Pub})
		}
	})
	post("one more than the inputs", func(t *ref.Tx) {
		s := uint64(0)
		for _, x := range t.Ins {
			s += x.Amount
		}
		t.Outs = nil
		for _, a := range chainm.Digits(s + 1) {
			t.Outs = append(t.Outs, ref.TxOut{Amount: a, Key: chainm.Keys[0].Pub})
		}
	})
	post("coinbase input last", func(t *ref.Tx) { t.Ins = append(append([]ref.TxIn{}, t.Ins...), txm.Coinbase(5)) })
	post("coinbase input first", func(t *ref.Tx) { t.Ins = append([]ref.TxIn{txm.Coinbase(5)}, t.Ins...) })
	// 5: how the outputs are split
	splits := func(name string, f func(t uint64) []uint64) { add(5, name, func(p *plan) { p.split = f }) }
	splits("one output", func(t uint64) []uint64 { return []uint64{t} })
	splits("an output of 11", func(t uint64) []uint64 { return append([]uint64{11}, chainm.Digits(t-11)...) })
	splits("last output of 11", func(t uint64) []uint64 { return append(chainm.Digits(t-11), 11) })
	splits("an output of 10 and one of 1", func(t uint64) []uint64 { return append([]uint64{10, 1}, chainm.Digits(t-11)...) })
	splits("an output of 101", func(t uint64) []uint64 { return append([]uint64{101}, chainm.Digits(t-101)...) })
	splits("an output of 110", func(t uint64) []uint64 { return append(chainm.Digits(t-110), 110) })
	splits("an output of 1.2e14", func(t uint64) []uint64 { return append(chainm.Digits(t-120000000000000), 120000000000000) })
	splits("an output of 100000000000001", func(t uint64) []uint64 { return append(chainm.Digits(t-100000000000001), 100000000000001) })
	splits("equal outputs", func(t uint64) []uint64 { return append(chainm.Digits(t-14), 7, 7) })
	splits("ones", func(t uint64) []uint64 {
		o := chainm.Digits(t - 20)
		for i := 0; i < 20; i++ {
			o = append(o, 1)
		}
		return o
	})
	// 6: fee
	fees := func(name string, f func(least, sum uint64) uint64) {
		add(6, name, func(p *plan) { p.fee = f })
	}
	fees("fee of the least -1", func(l, s uint64) uint64 { return l - 1 })
	fees("fee of the least +1", func(l, s uint64) uint64 { return l + 1 })
	fees("fee of twice the least", func(l, s uint64) uint64 { return 2 * l })
	fees("no fee", func(l, s uint64) uint64 { return 0 })
	fees("all for the fee", func(l, s uint64) uint64 { return s })
	fees("all but 1 for the fee", func(l, s uint64) uint64 { return s - 1 })
	fees("less than nothing", func(l, s uint64) uint64 { return maxU64 })
	for _, x := range []uint64{1, 100000000, 8000000000, 10000000000, 100000000000, 80000000000, 80000000, 8080000000, 10100000000, 7920000000} {
		for _, d := range []uint64{maxU64, 0, 1} {
			x := x + d
			if x != 0 {
				fees(fmt.Sprintf("fee %d", x), func(l, s uint64) uint64 { return x })
			}
		}
	}
	// 7: extra
	for _, n := range []int{1, 32, 50, 99, 100, 101, 102, 103, 127, 128, 150, 199, 200, 201, 500, 1000, 1024, 1025, 5000} {
		n := n
		add(7, fmt.Sprintf("extra of %d", n), func(p *plan) { p.extra = make([]byte, n) })
	}
	add(7, "extra of garbage", func(p *plan) { p.extra = []byte{9, 200, 3, 3} })
	add(7, "extra with a tag", func(p *plan) { p.extra = txm.MergeExtra(1) })
	// 8: unlock
	for _, u := range []uint64{1, 10000, 499999999, 500000000, 1 << 32, 1 << 63, maxU64} {
		u := u
		add(8, fmt.Sprintf("unlock %d", u), func(p *plan) { p.unlock = u })
	}
	// 9: fusion shapes
	for _, n := range []int{3, 4, 8, 11, 12, 13, 15, 16, 17, 20, 23, 24, 28, 36, 40, 60} {
		for _, a := range []uint64{100000000, 99999999, 100000001, 500000000, 250000000, 1000000000, 10, 12345678, 100000000000, 3, 750000000, 12345678900} {
			if n < 11 && a != 100000000 {
				continue
			}
			n, a := n, a
			add(9, fmt.Sprintf("fusion of %d inputs of %d", n, a), func(p *plan) {
				p.ins = nil
				for i := 0; i < n; i++ {
					p.ins = append(p.ins, in(a, p.seed*64+i, 3))
				}
				p.fee = func(least, sum uint64) uint64 { return 0 }
				p.split = func(t uint64) []uint64 { return chainm.Decompose(t, dustOf(p.index)) }
			})
		}
	}
	for k, odd := range []uint64{1, 99999999, 100000000, 100000001, 60000000, 0} {
		odd := odd
		for at := 0; at < 2; at++ {
			at := at
			add(9, fmt.Sprintf("fusion with an odd input %d at %d", k, at), func(p *plan) {
				p.ins = nil
				for i := 0; i < 16; i++ {
					a := uint64(500000000)
					if i == at*15 {
						a = odd
					}
					p.ins = append(p.ins, in(a, p.seed*64+i, 3))
				}
				p.fee = func(least, sum uint64) uint64 { return 0 }
				p.split = func(t uint64) []uint64 { return chainm.Decompose(t, dustOf(p.index)) }
			})
		}
	}
	return
}

// fusionChanges are put on fusion shapes.
func fusionChanges() (out []change) {
	add := func(name string, on func(p *plan)) { out = append(out, change{name, 10, on}) }
	add("as it is", func(p *plan) {})
	add("digits", func(p *plan) { p.split = chainm.Digits })
	add("one output", func(p *plan) { p.split = func(t uint64) []uint64 { return []uint64{t} } })
	add("decomposed at the other threshold", func(p *plan) {
		p.split = func(t uint64) []uint64 { return chainm.Decompose(t, 100000000-dustOf(p.index)) }
	})
	add("threshold -1", func(p *plan) { p.split = func(t uint64) []uint64 { return chainm.Decompose(t, dustOf(p.index)-1) } })
	add("threshold 1e9", func(p *plan) { p.split = func(t uint64) []uint64 { return chainm.Decompose(t, 1000000000) } })
	add("reversed", func(p *plan) {
		s := p.split
		p.split = func(t uint64) []uint64 {
			l := s(t)
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return l
		}
	})
	add("first two outputs swapped", func(p *plan) {
		s := p.split
		p.split = func(t uint64) []uint64 {
			l := s(t)
			if len(l) > 1 {
				l[0], l[1] = l[1], l[0]
			}
			return l
		}
	})
	add("last two outputs together", func(p *plan) {
		s := p.split
		p.split = func(t uint64) []uint64 {
			l := s(t)
			if n := len(l); n > 1 {
				l = append(l[:n-2:n-2], l[n-1]+l[n-2])
			}
			return l
		}
	})
	add("an output halved", func(p *plan) {
		s := p.split
		p.split = func(t uint64) []uint64 {
			l := s(t)
			if n := len(l); n > 0 && l[n-1] > 1 {
				x := l[n-1] / 2
				l = append(l[:n-1:n-1], x, l[n-1]-x)
			}
			return l
		}
	})
	add("fee 1", func(p *plan) { p.fee = func(l, s uint64) uint64 { return 1 } })
	add("the least fee", func(p *plan) { p.fee = func(l, s uint64) uint64 { return l } })
	add("the least fee -1", func(p *plan) { p.fee = func(l, s uint64) uint64 { return l - 1 } })
	add("large extra", func(p *plan) { p.extra = make([]byte, 3000) })
	add("rings of 21", func(p *plan) {
		for i := range p.ins {
			p.ins[i].Offs = in(0, 0, 21).Offs
		}
	})
	add("rings of 1", func(p *plan) {
		for i := range p.ins {
			p.ins[i].Offs = in(0, 0, 1).Offs
		}
	})
	add("image twice", func(p *plan) { p.ins[len(p.ins)-1].Image = p.ins[0].Image })
	add("other inputs", func(p *plan) {
		// one larger, one smaller
		if n := len(p.ins); n > 1 && p.ins[0].Amount > 100 {
			p.ins[0].Amount += 100
			p.ins[n-1].Amount -= 100
		}
	})
	return
}

func padded(p *plan, want int) bool {
	n := want
	for k := 0; k < 10; k++ {
		if n < 0 {
			return false
		}
		p.extra = make([]byte, n)
		t := p.tx()
		s := len(t.Bytes())
		if s == want {
			return true
		}
		n += want - s
	}
	return false
}

type place struct {
	name string
	h    *chainm.History
	in   bool
}

func (pl place) world() *chainm.World {
	pts := map[uint32]ref.Hash{}
	if pl.in {
		pts[pl.h.Model.Top.Index+1000000] = txm.Fill(3)
	}
	return pl.h.World(pts)
}

var mu sync.Mutex
var reasons = map[string]int{}

func clip(b []byte) []byte {
	if len(b) > 500 {
		return b[:500]
	}
	return b
}

func run(w int, pl place, world **chainm.World, desc string, d *chainm.Draft) string {
	wd := *world
	b, raw := d.Finish()
	why, info, _ := wd.M.Judge(b, raw)
	if why == "undecided" {
		return why
	}
	mu.Lock()
	reasons[why]++
	mu.Unlock()
	c.Set(w, pl.name+": "+desc)
	err := wd.BC.AddBlock(txm.Block(b), raw)
	c.Eval(1)
	c.Transition(1)
	fail := func(f string, a ...interface{}) {
		l := ""
		for _, r := range raw {
			l += fmt.Sprintf(" %x", clip(r))
		}
		c.Fail(fmt.Sprintf("%s: %s; block %x, transactions%s", pl.name, desc, clip(b.Bytes()), l), f, a...)
	}
	id := crypto.Hash(b.ID())
	if why == "" {
		if err != nil {
			fail("a block whose transactions obey all rules is refused: %v", err)
		}
		if !wd.BC.HaveBlock(&id) || wd.BC.Height() != info.Index+1 {
			fail("an accepted block is not the new top")
		}
		*world = pl.world()
	} else {
		if err == nil {
			fail("accepted, though it breaks a rule (%s)", why)
		}
		if *wd.BC.TopBlock().Hash() != crypto.Hash(wd.M.Top.Hash) {
			fail("the chain is changed by a refused block (%s)", why)
		}
	}
	if c.Distinct(pl.name + desc) {
		c.Trace(1)
		c.Sample(pl.name + ": " + desc + ": " + why)
	}
	return why
}

func TestVerif(t *testing.T) {
	c = vlib.New("C21")
	synctest.Test(t, func(t *testing.T) { body() })
	c.Done()
}

func body() {
	tops := []uint32{5, 60000, 215998, 215999, 216000, 216001, 216393, 216394, 265998, 265999, 266000, 266001, 499998, 499999, 500000, 500001, 666998, 666999, 667000, 699997, 699998, 699999, 700000, 700001, 800000}
	var places []place
	for i, top := range tops {
		n := 200
		if top <= 60000 {
			n = 400
		}
		h := chainm.NewHistory(top, n, chainm.Patterns[i%2])
		places = append(places, place{fmt.Sprintf("top %d", top), h, true})
	}
	chs := changes()
	fch := fusionChanges()
	c.Cov("places", len(places))
	c.Cov("changes", len(chs)+len(fch))
	apply := func(wd *chainm.World, seed int, l ...change) ref.Tx {
		p := newPlan(wd.M.Top.Index+1, seed)
		for _, x := range l {
			x.on(p)
		}
		return p.tx()
	}
	one := func(w int, pl place, wd **chainm.World, desc string, txs ...ref.Tx) {
		d := (*wd).M.NewDraft((*wd).M.Top)
		d.Txs = txs
		run(w, pl, wd, desc, d)
	}

	// 1. every change, every pair of changes of one transaction
	c.Each("pairs", len(places)*len(chs), func(w, i int) {
		pl := places[i/len(chs)]
		a := i % len(chs)
		wd := pl.world()
		if a == 0 {
			one(w, pl, &wd, "plain", apply(wd, 1))
		}
		one(w, pl, &wd, chs[a].name, apply(wd, 1, chs[a]))
		if chs[a].group == 9 {
			for _, f := range fch {
				one(w, pl, &wd, chs[a].name+", "+f.name, apply(wd, 1, chs[a], f))
			}
			return
		}
		for b := a + 1; b < len(chs); b++ {
			if chs[b].group == chs[a].group || chs[b].group == 9 {
				continue
			}
			// fee with extra always
			if !c.Thorough && !(chs[a].group == 6 && chs[b].group == 7) && (a+b+i/len(chs))%7 != 0 {
				continue
			}
			one(w, pl, &wd, chs[a].name+" and "+chs[b].name, apply(wd, 1, chs[a], chs[b]))
		}
	})

	// 2. claims: the reward must contain exactly the fees
	c.Each("claims", len(places)*len(chs), func(w, i int) {
		pl := places[i/len(chs)]
		a := i % len(chs)
		if !c.Thorough && a%5 != 0 {
			return
		}
		wd := pl.world()
		for _, delta := range []int64{-1, 1} {
			d := wd.M.NewDraft(wd.M.Top)
			d.Txs = []ref.Tx{apply(wd, 1, chs[a]), apply(wd, 2)}
			d.Delta = delta
			run(w, pl, &wd, fmt.Sprintf("%s, claim %+d", chs[a].name, delta), d)
		}
		fee := int64(chainm.MinFee(wd.M.Top.Index+1, 0))
		for _, f := range []int64{-fee, fee, -2 * fee} {
			d := wd.M.NewDraft(wd.M.Top)
			d.Txs = []ref.Tx{apply(wd, 1, chs[a]), apply(wd, 2)}
			d.Delta = f
			run(w, pl, &wd, fmt.Sprintf("%s, claim %+d", chs[a].name, f), d)
		}
	})

	// 3. several transactions: a change at every position
	c.Each("several", len(places)*len(chs), func(w, i int) {
		pl := places[i/len(chs)]
		a := i % len(chs)
		wd := pl.world()
		for n := 2; n <= 4; n++ {
			for at := 0; at < n; at++ {
				if !c.Thorough && (n == 3 || n == 4 && a%4 != 0) {
					continue
				}
				var l []ref.Tx
				for k := 0; k < n; k++ {
					if k == at {
						l = append(l, apply(wd, k+1, chs[a]))
					} else {
						l = append(l, apply(wd, k+1))
					}
				}
				one(w, pl, &wd, fmt.Sprintf("%s, number %d of %d", chs[a].name, at, n), l...)
			}
		}
	})
	// 3a. images shared by transactions: every pair of places
	c.Each("images", len(places), func(w, i int) {
		pl := places[i]
		wd := pl.world()
		for x := 0; x < 3; x++ {
			for y := 0; y < 3; y++ {
				for ix := 0; ix < 2; ix++ {
					for iy := 0; iy < 2; iy++ {
						var l []ref.Tx
						for k := 0; k < 3; k++ {
							l = append(l, apply(wd, k+1))
						}
						if x == y && ix == iy {
							continue
						}
						l[x].Ins[ix].Image = l[y].Ins[iy].Image
						one(w, pl, &wd, fmt.Sprintf("image %d of %d is %d of %d", ix, x, iy, y), l...)
						// amounts and rings differ too
						l[x].Ins[ix].Offs = []uint32{77}
						l[x] = txm.WithSigs(l[x], 3)
						one(w, pl, &wd, fmt.Sprintf("image %d of %d is %d of %d, rings differ", ix, x, iy, y), l...)
					}
				}
			}
		}
		// any numbers of inputs: the first, the second or the last image of a transaction repeated in another
		for counts := 0; counts < 27; counts++ {
			n := [3]int{counts%3 + 1, counts/3%3 + 1, counts/9 + 1}
			for x := 0; x < 3; x++ {
				for y := 0; y < x; y++ {
					for ix := 0; ix < n[x]; ix++ {
						for iy := 0; iy < n[y]; iy++ {
							var l []ref.Tx
							for k := 0; k < 3; k++ {
								p := newPlan(wd.M.Top.Index+1, k+1)
								p.ins = nil
								for j := 0; j < n[k]; j++ {
									p.ins = append(p.ins, in(coin, p.seed*64+j, 3))
								}
								l = append(l, p.tx())
							}
							if ix == 0 && iy == 0 && x == 1 {
								one(w, pl, &wd, fmt.Sprintf("transactions of %v inputs", n), l...)
							}
							l[x].Ins[ix].Image = l[y].Ins[iy].Image
							one(w, pl, &wd, fmt.Sprintf("transactions of %v inputs, image %d of %d is %d of %d", n, ix, x, iy, y), l...)
						}
					}
				}
			}
		}
		for n := 5; n <= 60; n += 11 {
			var l []ref.Tx
			for k := 0; k < n; k++ {
				l = append(l, apply(wd, k+1))
			}
			one(w, pl, &wd, fmt.Sprintf("%d transactions", n), l...)
			l[n-1].Ins[1].Image = l[0].Ins[0].Image
			one(w, pl, &wd, fmt.Sprintf("%d transactions, image of the first in the last", n), l...)
		}
	})

	// 4. sizes
	c.Each("sizes", len(places), func(w, i int) {
		pl := place{places[i].name + " of large blocks", chainm.NewHistory(places[i].h.Model.Top.Index, 400, chainm.Patterns[3]), true}
		wd := pl.world()
		index := wd.M.Top.Index + 1
		for _, want := range []int{249398, 249399, 249400, 249401, 249402, 262144, 299999, 300000, 300001, 300002} {
			p := newPlan(index, 1)
			if padded(p, want) {
				one(w, pl, &wd, fmt.Sprintf("transaction of %d bytes", want), p.tx())
			}
			for _, n := range []int{11, 12} {
				p = newPlan(index, 1)
				p.ins = nil
				for k := 0; k < n; k++ {
					p.ins = append(p.ins, in(500000000, 64+k, 3))
				}
				p.fee = func(l, s uint64) uint64 { return 0 }
				p.split = func(t uint64) []uint64 { return chainm.Decompose(t, dustOf(index)) }
				if padded(p, want) {
					one(w, pl, &wd, fmt.Sprintf("fusion of %d inputs of %d bytes", n, want), p.tx())
				}
			}
		}
	})

	// 5. key images are in the right group: the next height must be outside the checkpoint zone
	imgs := imagesList()
	c.Each("domain", len(places)*len(imgs), func(w, i int) {
		pl := places[i/len(imgs)]
		x := imgs[i%len(imgs)]
		m := pl.h.Model
		for at := 0; at < 3; at++ {
			if at == 2 && !c.Thorough {
				continue
			}
			for _, zone := range []int{0, 1, 2, 3} {
				d := m.NewDraft(m.Top)
				p := newPlan(d.Index, 1)
				if at < 2 {
					p.ins[at].Image = x
				} else {
					p.ins = append(p.ins, in(coin, 70, 3))
					p.ins[2].Image = x
				}
				d.Txs = []ref.Tx{p.tx()}
				b, _ := d.Finish()
				pts := map[uint32]ref.Hash{}
				switch zone {
				case 0: // the block is the last checkpoint
					pts[d.Index] = b.ID()
				case 1:
					pts[d.Index+1] = txm.Fill(5)
				case 2:
					pts[d.Index+2] = txm.Fill(5)
				case 3: // no zone
				}
				q := pl
				wd := pl.h.World(pts)
				wd.M.Points = pts
				dd := wd.M.NewDraft(wd.M.Top)
				dd.Txs = d.Txs
				run(w, q, &wd, fmt.Sprintf("image %x at %d, zone %d", x[:4], at, zone), dd)
			}
		}
	})
	c.Cov("verdicts", reasons)
}

// imagesList are points with and without a part of small order, and encodings of no points.
func imagesList() (out [][32]byte) {
	for i := 0; i < 4; i++ {
		out = append(out, chainm.Image(100+i*1000))
	}
	small := smallOrder()
	out = append(out, small...)
	for _, s := range small[1:] {
		q, _ := ref.DecodePoint(s)
		g, _ := ref.DecodePoint(chainm.Image(50))
		out = append(out, q.Add(g).Bytes())
	}
	out = append(out, chainm.Bad[0], chainm.Bad[1], chainm.Bad[2], ref.Base.Bytes(), chainm.Keys[0].Pub)
	return
}

// smallOrder are the eight points of order 1, 2, 4 and 8.
func smallOrder() (out [][32]byte) {
	id := ref.Identity().Bytes()
	for i := byte(0); ; i++ {
		p, ok := ref.DecodePoint(ref.Keccak([]byte{i, 55}))
		if !ok {
			continue
		}
		t := p.Mul(ref.Order)
		out = [][32]byte{id}
		q := t
		for q.Bytes() != id {
			out = append(out, q.Bytes())
			q = q.Add(t)
		}
		if len(out) == 8 {
			return
		}
	}
}
