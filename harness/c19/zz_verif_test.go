//go:build go1.21

package c19

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

// A change of a draft.
type change struct {
	name string
	// group: changes of one group are not combined with each other
	group int
	on    func(d *chainm.Draft) bool // false: does not apply here
}

const maxU64 = 1<<64 - 1

func tagExtra(depth byte) []byte {
	k := chainm.Keys[1].Pub
	return append(append([]byte{1}, k[:]...), txm.MergeExtra(depth)...)
}

func changes(thorough bool) []change {
	var out []change
	add := func(group int, name string, on func(d *chainm.Draft) bool) {
		out = append(out, change{name, group, on})
	}
	// version and parent block
	for v := byte(0); v <= 6; v++ {
		v := v
		add(0, fmt.Sprintf("version %d", v), func(d *chainm.Draft) bool {
			if d.B.Major == v {
				return false
			}
			d.B.Major = v
			return true
		})
	}
	par := func(name string, f func(p *ref.Parent)) {
		add(1, name, func(d *chainm.Draft) bool {
			if d.B.Major != 2 && d.B.Major != 3 {
				return false
			}
			p := &ref.Parent{Major: 1, TxCount: 1, Prev: txm.Fill(5)}
			p.Tx = ref.Tx{Version: 1, Ins: []ref.TxIn{txm.Coinbase(77)}, Outs: []ref.TxOut{{Amount: 5, Key: chainm.Keys[1].Pub}}, Extra: txm.MergeExtra(0)}
			f(p)
			d.B.Parent = p
			return true
		})
	}
	for _, v := range []byte{0, 2, 3, 255} {
		v := v
		par(fmt.Sprintf("parent version %d", v), func(p *ref.Parent) { p.Major = v })
	}
	for _, over := range []int{-33, -32, -31, -1, 0, 1, 2, 500} {
		over := over
		par(fmt.Sprintf("parent of 2048%+d bytes", over), func(p *ref.Parent) {
			// padded by a nonce in the extra of the parent's transaction, then by outputs
			p.TS = chainm.Now // as long as any block's
			b := ref.Block{Major: 2, Parent: p}
			for b.ParentSize() < 1700 {
				p.Tx.Outs = append(p.Tx.Outs, ref.TxOut{Amount: 1, Key: txm.Fill(3)})
			}
			for n := 0; b.ParentSize() < 2048+over; n++ {
				p.Tx.Extra = append(append(append([]byte{}, txm.MergeExtra(0)...), 2), append(ref.Varint(uint64(n)), bytes.Repeat([]byte{1}, n)...)...)
				if n == 255 {
					p.Tx.Outs = append(p.Tx.Outs, ref.TxOut{Amount: 1, Key: txm.Fill(3)})
					n = 0
				}
			}
		})
	}
	// timestamp
	for _, x := range []int{-1, 0, 1} {
		x := x
		add(2, fmt.Sprintf("time of the median%+d", x), func(d *chainm.Draft) bool {
			med, _ := d.M.MedianTime(d.Prev, d.B.Major)
			d.B.TS = med + uint64(x)
			return true
		})
		for _, lim := range []uint64{720, 1680} {
			lim := lim
			add(2, fmt.Sprintf("time of now+%d%+d", lim, x), func(d *chainm.Draft) bool {
				d.B.TS = d.M.Now + lim + uint64(x)
				return true
			})
		}
		for _, w := range []int{11, 60} {
			w := w
			add(2, fmt.Sprintf("time of the median of %d%+d", w, x), func(d *chainm.Draft) bool {
				v := byte(1)
				if w == 11 {
					v = 5
				}
				med, _ := d.M.MedianTime(d.Prev, v)
				d.B.TS = med + uint64(x)
				return true
			})
		}
	}
	for _, ts := range []uint64{0, 1, chainm.Now, maxU64} {
		ts := ts
		add(2, fmt.Sprintf("time %d", ts), func(d *chainm.Draft) bool { d.B.TS = ts; return true })
	}
	// previous block
	add(3, "unknown previous block", func(d *chainm.Draft) bool { d.B.Prev[5] ^= 4; return true })
	add(3, "previous block empty", func(d *chainm.Draft) bool { d.B.Prev = ref.Hash{}; return true })
	for _, back := range []uint32{1, 2, 9} {
		back := back
		add(3, fmt.Sprintf("previous block %d lower", back), func(d *chainm.Draft) bool {
			if d.Prev.Index < back {
				return false
			}
			d.B.Prev = d.M.ByIndex[d.Prev.Index-back].Hash
			return true
		})
	}
	add(3, "previous block is genesis", func(d *chainm.Draft) bool {
		if d.Prev.Index == 0 {
			return false
		}
		d.B.Prev = d.M.ByIndex[0].Hash
		return true
	})
	// coinbase input
	ins := func(name string, f func(i uint32) []ref.TxIn) {
		add(4, name, func(d *chainm.Draft) bool { d.B.Base.Ins = f(d.Index); return true })
	}
	ins("no inputs", func(i uint32) []ref.TxIn { return nil })
	ins("two coinbase inputs", func(i uint32) []ref.TxIn { return []ref.TxIn{txm.Coinbase(i), txm.Coinbase(i)} })
	ins("key input", func(i uint32) []ref.TxIn { return []ref.TxIn{txm.Key(5, 3, 1)} })
	ins("coinbase and key input", func(i uint32) []ref.TxIn { return []ref.TxIn{txm.Coinbase(i), txm.Key(5, 3, 1)} })
	for _, x := range []int{-2, -1, 1, 2} {
		x := x
		ins(fmt.Sprintf("height %+d", x), func(i uint32) []ref.TxIn { return []ref.TxIn{txm.Coinbase(i + uint32(x))} })
	}
	ins("height 0", func(i uint32) []ref.TxIn { return []ref.TxIn{txm.Coinbase(0)} })
	// unlock height
	for _, f := range []func(u uint64) uint64{func(u uint64) uint64 { return u - 1 }, func(u uint64) uint64 { return u + 1 }, func(u uint64) uint64 { return 0 }, func(u uint64) uint64 { return maxU64 }, func(u uint64) uint64 { return u - 10 }, func(u uint64) uint64 { return u + 1<<32 }, func(u uint64) uint64 { return u + 1<<63 }, func(u uint64) uint64 { return chainm.Now }} {
		f := f
		add(5, fmt.Sprintf("unlock %d for 100", f(100)), func(d *chainm.Draft) bool { d.B.Base.Unlock = f(d.B.Base.Unlock); return true })
	}
	// signatures
	add(6, "signatures in the coinbase", func(d *chainm.Draft) bool { d.B.Base.Sigs = [][][64]byte{{txm.Sig(3)}}; return true })
	// outputs
	split := func(name string, f func(t uint64) []uint64) {
		add(7, name, func(d *chainm.Draft) bool { d.Split = f; return true })
	}
	split("no outputs", func(t uint64) []uint64 { return []uint64{} })
	split("two outputs", func(t uint64) []uint64 { return []uint64{t / 3, t - t/3} })
	split("digit outputs", chainm.Digits)
	split("zero output and reward", func(t uint64) []uint64 { return []uint64{0, t} })
	split("reward and zero output", func(t uint64) []uint64 { return []uint64{t, 0} })
	split("overflow", func(t uint64) []uint64 { return []uint64{maxU64, t + 1} })
	split("overflow of three", func(t uint64) []uint64 { return []uint64{1 << 63, t, 1 << 63} })
	split("largest sum", func(t uint64) []uint64 { return []uint64{maxU64 - 1, 1} })
	split("many outputs", func(t uint64) []uint64 {
		var o []uint64
		for i := 0; i < 40 && t > 1; i++ {
			o = append(o, 1)
			t--
		}
		return append(o, t)
	})
	for k, bad := range chainm.Bad[:1] {
		bad := bad
		add(8, fmt.Sprintf("bad key %d first", k), func(d *chainm.Draft) bool {
			d.After = func(b *ref.Block, _ *chainm.Draft) {
				if len(b.Base.Outs) > 0 {
					b.Base.Outs[0].Key = bad
				}
			}
			return true
		})
		add(8, fmt.Sprintf("bad key %d last", k), func(d *chainm.Draft) bool {
			d.After = func(b *ref.Block, _ *chainm.Draft) {
				if n := len(b.Base.Outs); n > 0 {
					b.Base.Outs[n-1].Key = bad
				}
			}
			return true
		})
	}
	// extra
	pk := chainm.Keys[1].Pub
	pub := append([]byte{1}, pk[:]...)
	for _, x := range []struct {
		n string
		b []byte
	}{{"none", nil}, {"garbage", []byte{9, 9}}, {"cut", pub[:20]}, {"tag", txm.MergeExtra(0)}, {"key and tag", tagExtra(1)}, {"tag and key", append(txm.MergeExtra(0), pub...)}, {"cut tag", tagExtra(1)[:50]}, {"nonce", append(append([]byte{}, pub...), 2, 3, 1, 2, 3)}, {"nonce that looks like a tag", append([]byte{2, 35}, txm.MergeExtra(0)...)}, {"zeros", make([]byte, 200)}} {
		x := x
		add(9, "extra: "+x.n, func(d *chainm.Draft) bool { d.B.Base.Extra = x.b; return true })
	}
	for _, n := range []int{1023, 1024, 1025, 1200} {
		n := n
		add(9, fmt.Sprintf("extra of %d bytes", n), func(d *chainm.Draft) bool {
			// keys fill it
			var b []byte
			for len(b)+33 <= n-3 {
				b = append(b, pub...)
			}
			for rest := n - len(b); rest > 0; rest = n - len(b) {
				b = append(b, 2, byte(rest-2))
				b = append(b, make([]byte, rest-2)...)
			}
			d.B.Base.Extra = b
			return true
		})
	}
	// reward
	for _, x := range []int64{-1, 1, 100000000, -100000000, 240} {
		x := x
		add(10, fmt.Sprintf("reward %+d", x), func(d *chainm.Draft) bool { d.Delta = x; return true })
	}
	// transactions
	tx := func(name string, f func(d *chainm.Draft)) {
		add(11, name, func(d *chainm.Draft) bool { f(d); return true })
	}
	fee := uint64(100000000000)
	mk := func(n int) (l []ref.Tx) {
		for i := 0; i < n; i++ {
			l = append(l, chainm.Tx(byte(i), 2, 3, fee+uint64(i), nil))
		}
		return
	}
	tx("one transaction", func(d *chainm.Draft) { d.Txs = mk(1) })
	tx("three transactions", func(d *chainm.Draft) { d.Txs = mk(3) })
	tx("fee not claimed", func(d *chainm.Draft) { d.Txs = mk(1); d.Delta = -int64(fee) })
	tx("transaction twice", func(d *chainm.Draft) { t := mk(1)[0]; d.Txs = []ref.Tx{t, t} })
	tx("image twice", func(d *chainm.Draft) {
		l := mk(2)
		l[1].Ins[1].Image = l[0].Ins[0].Image
		d.Txs = l
	})
	tx("bytes without hash", func(d *chainm.Draft) { d.Txs = mk(2); d.List = []ref.Hash{d.Txs[0].Hash()} })
	tx("hash without bytes", func(d *chainm.Draft) { d.Txs = mk(2); d.Raw = [][]byte{d.Txs[0].Bytes()} })
	tx("hashes swapped", func(d *chainm.Draft) { d.Txs = mk(2); d.List = []ref.Hash{d.Txs[1].Hash(), d.Txs[0].Hash()} })
	tx("last hash wrong", func(d *chainm.Draft) {
		d.Txs = mk(3)
		d.List = []ref.Hash{d.Txs[0].Hash(), d.Txs[1].Hash(), txm.Fill(4)}
	})
	tx("prefix hash in place of hash", func(d *chainm.Draft) { d.Txs = mk(1); d.List = []ref.Hash{d.Txs[0].PrefixHash()} })
	tx("a byte after the transaction", func(d *chainm.Draft) { d.Txs = mk(1); d.Raw = [][]byte{append(d.Txs[0].Bytes(), 0)} })
	tx("cut transaction", func(d *chainm.Draft) {
		d.Txs = mk(1)
		b := d.Txs[0].Bytes()
		d.Raw = [][]byte{b[:len(b)-1]}
	})
	tx("empty bytes", func(d *chainm.Draft) { d.Txs = mk(1); d.Raw = [][]byte{{}} })
	tx("version not in shortest form", func(d *chainm.Draft) {
		d.Txs = mk(1)
		d.Raw = [][]byte{append([]byte{0x81, 0}, d.Txs[0].Bytes()[1:]...)}
	})
	tx("fee too low", func(d *chainm.Draft) {
		l := mk(2)
		l[1] = chainm.Tx(7, 2, 3, 1000, nil)
		d.Txs = l
	})
	tx("transaction spends more than it has", func(d *chainm.Draft) {
		l := mk(2)
		l[1].Outs[0].Amount = maxU64 / 2
		d.Txs = l
	})
	// miner's signature
	sig := func(name string, f func(d *chainm.Draft)) {
		add(12, name, func(d *chainm.Draft) bool {
			if d.B.Major < 5 {
				return false
			}
			f(d)
			return true
		})
	}
	sig("signed by another key", func(d *chainm.Draft) { d.Signer = chainm.Keys[1] })
	sig("signature of another message", func(d *chainm.Draft) { h := txm.Fill(3); d.SigMsg = &h })
	sig("signature of the identifier", func(d *chainm.Draft) {
		d.After = func(b *ref.Block, d *chainm.Draft) { h := b.ID(); d.SigMsg = &h }
	})
	sig("signature empty", func(d *chainm.Draft) { d.SigFix = func(s [64]byte) [64]byte { return [64]byte{} } })
	for _, bit := range []int{0, 7, 200, 255, 256, 300, 500} {
		bit := bit
		sig(fmt.Sprintf("signature bit %d", bit), func(d *chainm.Draft) {
			d.SigFix = func(s [64]byte) [64]byte { s[bit/8] ^= 1 << uint(bit%8); return s }
		})
	}
	// block changed after signing: nonce, time, list
	sig("changed after signing", func(d *chainm.Draft) {
		d.After = func(b *ref.Block, d *chainm.Draft) { h := ref.Keccak(b.Hashing()); d.SigMsg = &h; b.Nonce++ }
	})
	sig("list changed after signing", func(d *chainm.Draft) {
		d.Txs = mk(2)
		d.After = func(b *ref.Block, d *chainm.Draft) {
			x := *b
			x.Hashes = nil
			h := ref.Keccak(x.Hashing())
			d.SigMsg = &h
		}
	})
	// minor things that do not matter
	add(13, "minor version 200", func(d *chainm.Draft) bool { d.B.Minor = 200; return true })
	add(13, "nonce 0", func(d *chainm.Draft) bool { d.B.Nonce = 0; return true })
	add(13, "nonce of the largest value", func(d *chainm.Draft) bool { d.B.Nonce = 1<<32 - 1; return true })
	_ = thorough
	return out
}

// sizes of the whole block around limits, reached by the coinbase's extra or by transactions
func sizeChanges(m *chainm.Model, prev *chainm.Info) (out []change) {
	index := prev.Index + 1
	v := chainm.VersionAt(index)
	med := ref.EffectiveMedian(v, m.MedianSize(prev))
	max := chainm.MaxBlockSize(index)
	for _, want := range []uint64{med - 1, med, med + 1, med + med/2, 2*med - 1, 2 * med, 2*med + 1, max - 1, max, max + 1, ref.Zone(1), ref.Zone(1) + 1, 2 * ref.Zone(1), 2*ref.Zone(1) + 1, m.MedianSize(prev) + 1} {
		want := want
		if want > 2100000 {
			continue
		}
		fill := func(d *chainm.Draft, set func(n int) bool, size func() int) bool {
			n := int(want)
			for k := 0; k < 12; k++ {
				if n < 0 || !set(n) {
					return false
				}
				s := size()
				if s == int(want) {
					return true
				}
				n += int(want) - s
			}
			return false
		}
		if index < 500000 {
			out = append(out, change{fmt.Sprintf("size %d by extra", want), 20, func(d *chainm.Draft) bool {
				total := func() int { b, raw := d.Finish(); return sizeOf(b, raw) }
				return fill(d, func(n int) bool { d.B.Base.Extra = make([]byte, n); return true }, total)
			}})
		}
		out = append(out, change{fmt.Sprintf("size %d by transactions", want), 20, func(d *chainm.Draft) bool {
			// transactions of up to 240000 bytes: the extra is filled
			n := int(want)/240000 + 1
			total := func() int { b, raw := d.Finish(); return sizeOf(b, raw) }
			return fill(d, func(k int) bool {
				d.Txs = nil
				for i := 0; i < n; i++ {
					part := k / n
					if i == n-1 {
						part = k - part*(n-1)
					}
					if part > 249000 {
						part = 249000
					}
					fee := chainm.MinFee(index, part) + 3
					if fee > 1500000000000000 {
						return false
					}
					d.Txs = append(d.Txs, chainm.Tx(byte(i), 2, 1, fee, make([]byte, part)))
				}
				return true
			}, total)
		}})
	}
	return
}

func sizeOf(b *ref.Block, raw [][]byte) int {
	n := len(b.Base.Bytes())
	for _, r := range raw {
		n += len(r)
	}
	return n
}

type place struct {
	name string
	h    *chainm.History
}

// run offers a draft; the verdict must be the model's and a refused block must leave no trace.
func run(w int, pl place, world **chainm.World, mk func() *chainm.World, desc string, d *chainm.Draft) string {
	wd := *world
	b, raw := d.Finish()
	why, info, _ := wd.M.Judge(b, raw)
	if why == "undecided" {
		return why
	}
	x := txm.Block(b)
	c.Set(w, pl.name+": "+desc)
	err := wd.BC.AddBlock(x, raw)
	c.Eval(1)
	c.Transition(1)
	fail := func(f string, a ...interface{}) {
		c.Fail(fmt.Sprintf("%s: %s; block %x", pl.name, desc, clip(b.Bytes())), f, a...)
	}
	id := crypto.Hash(b.ID())
	if why == "" {
		if err != nil {
			fail("a block that obeys all rules is refused: %v", err)
		}
		if !wd.BC.HaveBlock(&id) || *wd.BC.TopBlock().Hash() != id || wd.BC.Height() != info.Index+1 {
			fail("an accepted block is not the new top")
		}
		*world = mk()
	} else {
		if err == nil {
			fail("accepted, though it breaks a rule (%s)", why)
		}
		had := wd.M.ByHash[ref.Hash(id)] != nil
		if wd.BC.HaveBlock(&id) != had || *wd.BC.TopBlock().Hash() != crypto.Hash(wd.M.Top.Hash) || wd.BC.Height() != wd.M.Top.Index+1 {
			fail("the chain is changed by a refused block (%s)", why)
		}
		if ti, e := wd.St.TopIndex(); e != nil || ti != wd.M.Top.Index {
			fail("the storage is changed by a refused block (%s)", why)
		}
	}
	if c.Distinct(pl.name + desc) {
		c.Trace(1)
	}
	return why
}

func clip(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

func TestVerif(t *testing.T) {
	c = vlib.New("C19")
	synctest.Test(t, func(t *testing.T) { check() })
	c.Done()
}

func check() {
	tops := []uint32{0, 1, 9, 10, 58, 59, 60, 61, 375, 59998, 59999, 60000, 60001, 215999, 216000, 216001, 216393, 216394, 265999, 266000, 299998, 299999, 300000, 499998, 499999, 500000, 666998, 666999, 667000, 699998, 699999, 700000, 700001, 700118, 700119, 700120, 700121, 800000}
	var places []place
	for i, top := range tops {
		for k, p := range chainm.Patterns {
			if !c.Thorough && (i+k)%2 == 1 && k > 0 {
				continue
			}
			places = append(places, place{fmt.Sprintf("top %d pattern %d", top, k), chainm.NewHistory(top, 480, p)})
		}
	}
	c.Cov("places", len(places))
	var mu sync.Mutex
	reasons := map[string]int{}
	note := func(why string) {
		if why == "" {
			why = "accepted"
		}
		mu.Lock()
		reasons[why]++
		mu.Unlock()
	}
	chs := changes(c.Thorough)
	c.Cov("changes", len(chs))

	// worlds: all of the chain in the checkpoint zone, or none of it
	far := func(pl place, in bool) func() *chainm.World {
		return func() *chainm.World {
			pts := map[uint32]ref.Hash{}
			if in {
				pts[pl.h.Model.Top.Index+1000000] = txm.Fill(3)
			}
			return pl.h.World(pts)
		}
	}
	draft := func(w *chainm.World) *chainm.Draft { return w.M.NewDraft(w.M.Top) }

	type job struct {
		pl place
		in bool
	}
	var jobs []job
	for _, pl := range places {
		jobs = append(jobs, job{pl, true}, job{pl, false})
	}
	// 1. every single change and every pair of changes
	c.Each("changes", len(jobs)*len(chs), func(w, i int) {
		j := jobs[i/len(chs)]
		a := i % len(chs)
		mk := far(j.pl, j.in)
		wd := mk()
		if a == 0 {
			if why := run(w, j.pl, &wd, mk, "plain block", draft(wd)); why != "" {
				if why != "undecided" {
					c.Fail(j.pl.name, "the model refuses a plain block: %s", why)
				}
			}
			note("")
		}
		one := draft(wd)
		if !chs[a].on(one) {
			return
		}
		note(run(w, j.pl, &wd, mk, fmt.Sprintf("zone %v: %s", j.in, chs[a].name), one))
		// pairs: both kinds of zone are alike except for transactions
		if !j.in {
			return
		}
		for b := a + 1; b < len(chs); b++ {
			if chs[b].group == chs[a].group {
				continue
			}
			if !c.Thorough && (a+b+i/len(chs))%4 != 0 {
				continue
			}
			d := draft(wd)
			if !chs[a].on(d) || !chs[b].on(d) {
				continue
			}
			note(run(w, j.pl, &wd, mk, chs[a].name+" and "+chs[b].name, d))
		}
	})

	// 2. sizes
	type sj struct {
		pl place
		ch change
	}
	var sjs []sj
	for i, pl := range places {
		if !c.Thorough && i%3 != 0 && !(pl.h.Model.Top.Index <= 10) {
			continue
		}
		for _, ch := range sizeChanges(pl.h.Model, pl.h.Model.Top) {
			sjs = append(sjs, sj{pl, ch})
		}
	}
	c.Each("sizes", len(sjs), func(w, i int) {
		j := sjs[i]
		mk := far(j.pl, true)
		wd := mk()
		for _, delta := range []int64{0, 1, -1} {
			d := draft(wd)
			if !j.ch.on(d) {
				return
			}
			d.Delta = delta
			note(run(w, j.pl, &wd, mk, fmt.Sprintf("%s, reward %+d", j.ch.name, delta), d))
		}
	})

	// 3. checkpoints: at the block's height, below it, above it; right and wrong hash
	c.Each("checkpoints", len(places), func(w, i int) {
		pl := places[i]
		m := pl.h.Model
		d := m.NewDraft(m.Top)
		b, _ := d.Finish()
		id := b.ID()
		for mask := 0; mask < 1<<6; mask++ {
			mk := func() *chainm.World {
				pts := map[uint32]ref.Hash{}
				if mask&1 != 0 {
					pts[d.Index] = id
				} else if mask&2 != 0 {
					pts[d.Index] = txm.Fill(6)
				}
				if mask&4 != 0 {
					pts[d.Index+1] = txm.Fill(6)
				}
				if mask&8 != 0 {
					pts[d.Index+5] = id
				}
				if mask&16 != 0 && d.Index > 1 {
					pts[d.Index-1] = txm.Fill(7)
				}
				if mask&32 != 0 && d.Index > 2 {
					pts[1] = m.Top.Hash
				}
				return pl.h.World(pts)
			}
			wd := mk()
			note(run(w, pl, &wd, mk, fmt.Sprintf("checkpoints %b", mask), wd.M.NewDraft(wd.M.Top)))
			bad := wd.M.NewDraft(wd.M.Top)
			bad.Delta = 1
			note(run(w, pl, &wd, mk, fmt.Sprintf("checkpoints %b, bad reward", mask), bad))
		}
	})

	// 4. blocks that are there already, competing blocks at every depth
	c.Each("competing", len(places), func(w, i int) {
		pl := places[i]
		mk := far(pl, true)
		wd := mk()
		m := wd.M
		for back := uint32(0); back < 12 && back < m.Top.Index; back++ {
			prev := m.ByIndex[m.Top.Index-back-1]
			if m.ByHash[prev.Hash] == nil || prev.Index+400 < m.Top.Index {
				break
			}
			note(run(w, pl, &wd, mk, fmt.Sprintf("competing block %d below", back), m.NewDraft(prev)))
		}
		// the same block twice
		d := wd.M.NewDraft(wd.M.Top)
		b, raw := d.Finish()
		if why, _, _ := wd.M.Judge(b, raw); why != "" {
			return
		}
		if err := wd.BC.AddBlock(txm.Block(b), raw); err != nil {
			c.Fail(pl.name, "valid block refused: %v", err)
		}
		if err := wd.BC.AddBlock(txm.Block(b), raw); err == nil {
			c.Fail(pl.name, "the same block accepted twice")
		} else if err != cryptonote.ErrAddBlockAlreadyExists {
			c.Fail(pl.name, "a block that is there is reported with another error: %v", err)
		}
		x := wd.M.NewDraft(wd.M.Top)
		x.B.Nonce = 99
		b, raw = x.Finish()
		if err := wd.BC.AddBlock(txm.Block(b), raw); err == nil {
			c.Fail(pl.name, "a second block of a height accepted")
		}
		c.Eval(3)
	})

	// 5. the clock goes on between the offers: all sequences of pauses and blocks at the limit
	type step struct {
		name  string
		pause time.Duration
		off   int64
	}
	steps := []step{{"a second passes", time.Second, 0}, {"half a second passes", time.Second / 2, 0}, {"a minute passes", time.Minute, 0}, {"block at the limit", 0, 0}, {"block beyond the limit", 0, 1}, {"plain block", 0, -1 << 40}}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = len(steps)
	}
	var cp []place
	for _, top := range []uint32{20, 60100, 216100, 266100, 500100, 700200} {
		cp = append(cp, place{fmt.Sprintf("top %d", top), chainm.NewHistory(top, 200, chainm.Patterns[0])})
	}
	n := vlib.Size(radix)
	c.Each("clock", 1, func(w, _ int) { // the clock is one for all
		for i := 0; i < n*len(cp) && !c.Expired(); i++ {
			pl := cp[i/n]
			word := vlib.Unrank(i%n, radix)
			if steps[word[depth-1]].pause != 0 {
				continue // the same as a shorter one
			}
			wd := pl.h.World(map[uint32]ref.Hash{pl.h.Model.Top.Index + 1000000: txm.Fill(3)})
			desc := pl.name
			for k, l := range word {
				st := steps[l]
				desc += ", " + st.name
				if st.pause != 0 {
					time.Sleep(st.pause)
					continue
				}
				wd.M.Now = uint64(time.Now().Unix())
				d := wd.M.NewDraft(wd.M.Top)
				d.B.Nonce = uint32(1000 + k)
				if st.off > -1<<40 {
					d.B.TS = wd.M.Now + chainm.FutureOf(d.B.Major) + uint64(st.off)
				}
				b, raw := d.Finish()
				why, info, _ := wd.M.Judge(b, raw)
				if why == "undecided" {
					break
				}
				c.Set(w, desc)
				err := wd.BC.AddBlock(txm.Block(b), raw)
				if (err == nil) != (why == "") {
					c.Fail(desc, "accepted: %v (%v), by the rules it is to be %q", err == nil, err, why)
				}
				c.Eval(1)
				c.Transition(1)
				if why == "" {
					wd.M.Push(info)
				}
			}
			c.Trace(1)
			c.Distinct(desc)
		}
	})
	c.Cov("verdicts", reasons)
	c.Cov("deadlock", "none")
}
