//go:build go1.21

package c36

import (
	"encoding/hex"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vdisk"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

// place is a history and the blocks that are offered on it.
type place struct {
	name   string
	h      *chainm.History
	offers []*chainm.Offer
	base   uint32
}

func newPlace(top uint32, n int, p chainm.Pattern) *place {
	pl := &place{name: fmt.Sprintf("top %d", top), h: chainm.NewHistory(top, n, p), base: top}
	add := func(m *chainm.Model, name string, f func(d *chainm.Draft)) *chainm.Model {
		d := m.NewDraft(m.Top)
		f(d)
		o, next := d.Make(name)
		if o.Bad != (name == "wrong") {
			why, _, _ := d.M.Judge(o.B, o.Raw)
			panic("c36: " + name + ": " + why)
		}
		pl.offers = append(pl.offers, o)
		return next
	}
	pl.h.Model.Points[top+100000] = txm.Fill(4) // in its shadow transactions can be had
	seed := byte(1)
	txs := func(d *chainm.Draft) {
		d.Txs = append(d.Txs, chainm.Tx(seed, 1, 1, 1000000000000, nil))
		seed++
	}
	a1 := add(pl.h.Model, "A1", txs)
	a2 := add(a1, "A2", func(*chainm.Draft) {})
	add(a2, "A3", txs)
	b1 := add(pl.h.Model, "B1", func(d *chainm.Draft) { d.B.Nonce = 4444 })
	add(b1, "B2", txs)
	if add(a1, "wrong", func(d *chainm.Draft) { d.Delta = 5 }) != nil {
		panic("c36: the invalid block is valid")
	}
	return pl
}

func (pl *place) point(bc *cryptonote.BlockChain) {
	if err := bc.Checkpoints.AddCheckpoint(pl.base+100000, crypto.Hash(txm.Fill(4))); err != nil {
		panic(err)
	}
}

// run is one history of offers, failures and restarts.
type run struct {
	w     int
	pl    *place
	d     *vdisk.Disk
	bc    *cryptonote.BlockChain
	chain []chainm.Hash // accepted since the base
	took  []*chainm.Offer
	trail []string
}

func (r *run) desc() string { return r.pl.name + ": " + strings.Join(r.trail, ", ") }

func (r *run) fail(f string, a ...interface{}) { c.Fail(r.desc(), f, a...) }

func start(w int, pl *place) *run {
	r := &run{w: w, pl: pl}
	_, st := pl.h.NewChain()
	r.d = vdisk.New(st, true)
	r.chain = []chainm.Hash{pl.h.Model.Top.Hash}
	r.boot(vdisk.Fault{})
	return r
}

// boot starts a new chain on the storage.
func (r *run) boot(f vdisk.Fault) {
	bc := cryptonote.NewBlockChain(config.TestNet(), r.d, chainm.Logger())
	r.pl.point(bc)
	r.d.Arm(f, chainm.Hash{}, -1)
	err := bc.Init()
	fired := r.d.Fired
	r.d.Rest()
	if fired && err == nil {
		r.fail("the chain starts although the storage failed")
	}
	if !fired && err != nil {
		r.fail("the chain does not start: %v", err)
	}
	if err != nil {
		// the same object is started again when the storage works
		if err := bc.Init(); err != nil {
			r.fail("the chain does not start when the storage works again: %v", err)
		}
	}
	r.bc = bc
	c.Transition(1)
}

func (r *run) has(h chainm.Hash) bool {
	for _, x := range r.chain {
		if x == h {
			return true
		}
	}
	return false
}

func (r *run) judge(o *chainm.Offer) bool {
	return !o.Bad && !r.has(o.ID) && o.B.Prev == r.chain[len(r.chain)-1]
}

func (r *run) offer(o *chainm.Offer, f vdisk.Fault, crashAt int) {
	r.d.Arm(f, o.B.Prev, crashAt)
	var err error
	dead := vdisk.Protect(func() { err = r.bc.AddBlock(txm.Block(o.B), o.Raw) })
	fired := r.d.Fired
	r.d.Rest()
	c.Transition(1)
	valid := r.judge(o)
	accepted := !dead && err == nil
	if dead {
		// whatever is in the storage, all or nothing of it
		x := crypto.Hash(o.ID)
		accepted = r.d.Storage.HaveBlock(&x) && !r.has(o.ID)
		if accepted && f.Before {
			r.fail("the block is in the storage before it was put there")
		}
	}
	if accepted && !valid {
		r.fail("%s is accepted (%s)", o.Name, f.Name)
	}
	if !fired && !dead && valid && err != nil {
		r.fail("%s is refused: %v", o.Name, err)
	}
	if dead && valid && f.After && !accepted {
		r.fail("%s was put in the storage and is not there", o.Name)
	}
	if accepted {
		r.chain = append(r.chain, o.ID)
		r.took = append(r.took, o)
	}
	if dead {
		r.boot(vdisk.Fault{})
	}
	c.Outcome(fmt.Sprintf("%s: fired %v dead %v accepted %v", f.Name, fired, dead, accepted))
}

// locator with a failing storage
func (r *run) locator(f vdisk.Fault) {
	r.d.Arm(f, chainm.Hash{}, -1)
	l, err := r.bc.BuildSparseChain()
	fired := r.d.Fired
	r.d.Rest()
	c.Transition(1)
	if fired && err == nil {
		r.fail("the storage failed and a locator of %d blocks is built (%v)", len(l), err)
	}
	if !fired && err != nil {
		r.fail("no locator: %v", err)
	}
}

// compare checks all that can be seen of the chain.
func (r *run) compare() {
	top := r.chain[len(r.chain)-1]
	height := r.pl.base + uint32(len(r.chain))
	if t := r.bc.TopBlock(); t == nil || chainm.Hash(*t.Hash()) != top || t.Index() != height-1 {
		r.fail("the top is not the last block accepted")
	}
	if r.bc.Height() != height {
		r.fail("height is %d, must be %d", r.bc.Height(), height)
	}
	for _, o := range r.pl.offers {
		x := crypto.Hash(o.ID)
		if r.bc.HaveBlock(&x) != r.has(o.ID) {
			r.fail("%s is known: %v, was accepted: %v", o.Name, r.bc.HaveBlock(&x), r.has(o.ID))
		}
	}
	for i := uint32(0); i < 6; i++ {
		_, ok := cryptonote.VerifInfoAt(r.d.Storage, r.pl.base+i)
		h, _ := r.d.Storage.HashAtIndex(r.pl.base + i)
		in := int(i) < len(r.chain)
		if ok != in || (h != nil) != in || in && chainm.Hash(*h) != r.chain[i] {
			r.fail("height %d of the storage holds another block", r.pl.base+i)
		}
	}
	r.locatorIs()
}

func (r *run) locatorIs() {
	l, err := r.bc.BuildSparseChain()
	if err != nil {
		r.fail("no locator: %v", err)
	}
	at := func(i uint32) chainm.Hash {
		h, err := r.d.Storage.HashAtIndex(i)
		if err != nil || h == nil {
			panic("c36: the storage misses a block")
		}
		return chainm.Hash(*h)
	}
	top := r.pl.base + uint32(len(r.chain)) - 1
	want := []chainm.Hash{at(top)}
	for k := uint32(1); k < top; k *= 2 {
		want = append(want, at(top-k))
	}
	if top > 0 {
		want = append(want, at(0))
	}
	if len(l) != len(want) {
		r.fail("the locator has %d blocks, must have %d", len(l), len(want))
	}
	for i := range l {
		if chainm.Hash(l[i]) != want[i] {
			r.fail("entry %d of the locator is wrong", i)
		}
	}
}

// twin compares with a chain that never failed.
func (r *run) twin() {
	bc, st := r.pl.h.NewChain()
	r.pl.point(bc)
	for _, o := range r.took {
		if err := bc.AddBlock(txm.Block(o.B), o.Raw); err != nil {
			r.fail("a chain that never failed refuses %s: %v", o.Name, err)
		}
	}
	for i := range r.chain {
		at := r.pl.base + uint32(i)
		a, _ := cryptonote.VerifInfoAt(st, at)
		b, _ := cryptonote.VerifInfoAt(r.d.Storage, at)
		if *a != *b {
			r.fail("totals at height %d are %+v; a chain that never failed has %+v", at, *b, *a)
		}
	}
	r.limits(false)
	// what is next is accepted or refused alike
	for _, o := range r.pl.offers {
		r.trail = append(r.trail, "at the end "+o.Name)
		e1 := bc.AddBlock(txm.Block(o.B), o.Raw)
		valid := r.judge(o)
		if (e1 == nil) != valid {
			r.fail("a chain that never failed accepts it: %v", e1 == nil)
		}
		r.offer(o, vdisk.Fault{}, -1)
		r.compare()
	}
	r.limits(true)
}

// edge is a block at or beyond a limit that the blocks before it set.
type edge struct {
	name string
	why  string
	b    *ref.Block
	raw  [][]byte
	last bool
}

// edges of chains, by their blocks: they are the same for all histories that end with the same chain
var edges sync.Map

func (r *run) edges() []edge {
	key := r.pl.name + fmt.Sprint(r.chain)
	if x, ok := edges.Load(key); ok {
		return x.([]edge)
	}
	m := r.pl.h.Model.Clone()
	for _, o := range r.took {
		why, info, _ := m.Judge(o.B, o.Raw)
		if why != "" {
			r.fail("the rules refuse the accepted block %s: %s", o.Name, why)
		}
		if got, ok := cryptonote.VerifInfoAt(r.d.Storage, info.Index); ok {
			info.Cum = got.Cum
		}
		m.Push(info)
	}
	var out []edge
	add := func(name string, last bool, f func(d *chainm.Draft)) {
		d := m.NewDraft(m.Top)
		d.B.Nonce = 5555
		f(d)
		b, raw := d.Finish()
		if why, _, _ := m.Judge(b, raw); why != "undecided" {
			out = append(out, edge{name, why, b, raw, last})
		}
	}
	med, full := m.MedianTime(m.Top, chainm.VersionAt(m.Top.Index+1))
	if full {
		add("a block a second too early", false, func(d *chainm.Draft) { d.B.TS = med - 1 })
	}
	add("a block of a too high reward", false, func(d *chainm.Draft) { d.Delta = 1 })
	add("a block on the limit", true, func(d *chainm.Draft) {
		if full {
			d.B.TS = med
		}
		d.Txs = append(d.Txs, chainm.Tx(77, 1, 1, 1000000000000, nil))
	})
	edges.Store(key, out)
	return out
}

// limits offers blocks just beyond the limits that the accepted blocks set, and at last one on the limit.
func (r *run) limits(last bool) {
	for _, e := range r.edges() {
		if e.last && !last {
			continue
		}
		r.trail = append(r.trail, e.name)
		err := r.bc.AddBlock(txm.Block(e.b), e.raw)
		if (err == nil) != (e.why == "") {
			r.fail("accepted: %v (%v); by the rules it is to be %q", err == nil, err, e.why)
		}
		c.Transition(1)
	}
}

type letter struct {
	name string
	do   func(r *run)
}

func letters(pl *place) (out []letter) {
	for _, o := range pl.offers {
		o := o
		for _, f := range []vdisk.Fault{{Name: "works"}, {Name: "write fails", Push: true}, {Name: "ends before the write", Before: true}, {Name: "ends after the write", After: true}, {Name: "predecessor not read", Prev: true}} {
			f := f
			out = append(out, letter{o.Name + " " + f.Name, func(r *run) { r.offer(o, f, -1) }})
		}
	}
	for _, f := range []vdisk.Fault{{Name: "works"}, {Name: "start fails", Init: true}, {Name: "top not read", Top: true}} {
		f := f
		out = append(out, letter{"restart, " + f.Name, func(r *run) { r.boot(f) }})
	}
	for k := 1; k < 4; k++ {
		f := vdisk.Fault{Name: fmt.Sprint("hash not read ", k), HashAt: k}
		out = append(out, letter{"locator, " + f.Name, func(r *run) { r.locator(f) }})
	}
	return
}

func sequences(pl *place, depth int) {
	ls := letters(pl)
	radix := make([]int, depth)
	for k := range radix {
		radix[k] = len(ls)
	}
	c.Each(pl.name, vlib.Size(radix), func(w, i int) {
		r := start(w, pl)
		for _, l := range vlib.Unrank(i, radix) {
			r.trail = append(r.trail, ls[l].name)
			c.Set(w, r.desc())
			ls[l].do(r)
			r.compare()
			c.Distinct(r.desc())
		}
		c.Sample(r.desc())
		r.twin()
		c.Eval(1)
		c.Trace(1)
	})
}

// everyCall ends the process at every storage call of every operation of a growing chain.
func everyCall(pl *place) {
	type op struct{ grown, offer int }
	var ops []op
	for g := 0; g < 3; g++ {
		for o := range pl.offers {
			ops = append(ops, op{g, o})
		}
	}
	c.Each(pl.name+" every call", len(ops), func(w, i int) {
		for at := 0; ; at++ {
			r := start(w, pl)
			for k := 0; k < ops[i].grown; k++ {
				r.offer(pl.offers[k], vdisk.Fault{}, -1)
			}
			o := pl.offers[ops[i].offer]
			r.trail = []string{fmt.Sprintf("%d blocks, then %s ending at storage call %d", ops[i].grown, o.Name, at)}
			c.Set(w, r.desc())
			r.d.Arm(vdisk.Fault{}, o.B.Prev, at)
			dead := false
			{
				var err error
				dead = vdisk.Protect(func() { err = r.bc.AddBlock(txm.Block(o.B), o.Raw) })
				r.d.Rest()
				x := crypto.Hash(o.ID)
				in := r.d.Storage.HaveBlock(&x) && !r.has(o.ID)
				if in && !r.judge(o) {
					r.fail("a block that is not acceptable is in the storage")
				}
				if !dead && (err == nil) != r.judge(o) {
					r.fail("accepted: %v", err == nil)
				}
				if in {
					r.chain = append(r.chain, o.ID)
					r.took = append(r.took, o)
				}
			}
			if dead {
				r.boot(vdisk.Fault{})
			}
			r.compare()
			r.twin()
			c.Eval(1)
			c.Trace(1)
			c.Distinct(r.desc())
			if !dead || at > 2000 {
				break
			}
		}
	})
	// and of a start and of the locator
	c.Each(pl.name+" every call of a start", 2, func(w, i int) {
		for at := 0; at < 2000; at++ {
			r := start(w, pl)
			r.trail = []string{fmt.Sprintf("start or locator (%d) ending at storage call %d", i, at)}
			c.Set(w, r.desc())
			r.d.Arm(vdisk.Fault{}, chainm.Hash{}, at)
			dead := vdisk.Protect(func() {
				if i == 0 {
					_ = cryptonote.NewBlockChain(config.TestNet(), r.d, chainm.Logger()).Init()
				} else {
					_, _ = r.bc.BuildSparseChain()
				}
			})
			r.d.Rest()
			r.boot(vdisk.Fault{})
			r.compare()
			c.Eval(1)
			if !dead {
				break
			}
		}
		// every hash missing for the locator
		for k := 1; k < 40; k++ {
			r := start(w, pl)
			r.trail = []string{fmt.Sprintf("locator, hash not read %d", k)}
			c.Set(w, r.desc())
			r.locator(vdisk.Fault{HashAt: k})
			r.compare()
			c.Eval(1)
		}
	})
}

// genesis: a network whose first block cannot be read, or another network than the storage's.
func genesis() {
	good := config.TestNet().GenesisCoinbaseTxHex
	var texts []string
	for n := 0; n < len(good); n++ {
		texts = append(texts, good[:n])
		texts = append(texts, good[:n]+"g"+good[n+1:], good[:n]+" "+good[n:])
	}
	c.Each("genesis texts", len(texts), func(w, i int) {
		desc := "genesis text " + texts[i]
		c.Set(w, desc)
		n := config.TestNet()
		n.GenesisCoinbaseTxHex = texts[i]
		d := vdisk.New(cryptonote.NewMemoryStorage(), false)
		bc := cryptonote.NewBlockChain(n, d, chainm.Logger())
		for k := 0; k < 3; k++ {
			if err := bc.Init(); err == nil {
				c.Fail(desc, "the chain starts (attempt %d)", k+1)
			}
			if b, err := bc.GenesisBlock(); err == nil {
				c.Fail(desc, "there is a first block (attempt %d): %x", k+1, b.Hash()[:])
			}
			if d.Inited {
				c.Fail(desc, "the storage was started")
			}
		}
		c.Eval(1)
		c.Distinct(desc)
		c.Outcome("genesis refused")
	})
	// other networks on the same storage
	raw, err := hex.DecodeString(good)
	if err != nil {
		panic(err)
	}
	var others []func(n *config.Network)
	for _, x := range []uint64{1, 1 << 20, ^uint64(0)} {
		x := x
		others = append(others, func(n *config.Network) { n.GenesisTimestamp += x }, func(n *config.Network) { n.GenesisNonce += uint32(x) })
	}
	for i := range raw {
		i := i
		others = append(others, func(n *config.Network) {
			// the same length, one byte changed somewhere in a key or in the extra
			b := append([]byte{}, raw...)
			b[i] ^= 1
			n.GenesisCoinbaseTxHex = hex.EncodeToString(b)
		})
	}
	for k, pl := range []*place{newPlace(0, 0, chainm.Patterns[0]), newPlace(5, 5, chainm.Patterns[1])} {
		pl := pl
		c.Each(fmt.Sprint("other networks ", k), len(others), func(w, i int) {
			r := start(w, pl)
			r.trail = []string{fmt.Sprintf("another network (%d)", i)}
			c.Set(w, r.desc())
			n := config.TestNet()
			others[i](n)
			bc := cryptonote.NewBlockChain(n, r.d, chainm.Logger())
			if err := bc.Init(); err == nil {
				r.fail("the chain starts on the storage of another network")
			}
			r.d.Rest()
			r.boot(vdisk.Fault{})
			r.compare()
			r.twin()
			c.Eval(1)
			c.Distinct(r.desc())
		})
	}
}

func TestVerif(t *testing.T) {
	c = vlib.New("C36")
	synctest.Test(t, func(t *testing.T) { body() })
	c.Done()
}

func body() {
	genesis()
	for i, x := range []struct {
		top          uint32
		n            int
		quick, thoro int
	}{{0, 0, 3, 4}, {5, 5, 3, 3}, {98, 98, 2, 2}, {59998, 400, 2, 2}, {215998, 200, 2, 3}, {265998, 200, 2, 3}, {699998, 200, 3, 3}, {700118, 200, 2, 3}} {
		pl := newPlace(x.top, x.n, chainm.Patterns[i%2])
		depth := x.quick
		if c.Thorough {
			depth = x.thoro
		}
		everyCall(pl)
		sequences(pl, depth)
	}
}
