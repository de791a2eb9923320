//go:build go1.21

package c18

import (
	"fmt"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
)

var c *vlib.Ctx

// item is a block and the description it comes with.
type item struct {
	name  string
	b     ref.Block
	index uint32
	hash  ref.Hash
	info  chainm.Info // as it is described
	good  bool        // the description matches
}

var genesis = chainm.Genesis()
var genesisHash = ref.Hash(*genesis.Hash())

func makeItem(index uint32, variant int, kind string) *item {
	b := ref.Block{Major: 1, TS: uint64(index) * 100, Nonce: uint32(variant), Prev: txm.Fill(int(index))}
	b.Base = ref.Tx{Version: 1, Unlock: uint64(index) + 10, Ins: []ref.TxIn{txm.Coinbase(index)}, Outs: []ref.TxOut{{Amount: 7, Key: chainm.Keys[0].Pub}}}
	it := &item{name: fmt.Sprintf("%d%c%s", index, 'a'+variant, kind), b: b, index: index, hash: b.ID(), good: true}
	it.info = chainm.Info{Index: index, Hash: it.hash, TS: b.TS, Size: 100 + uint64(variant), Coins: uint64(index)*1000 + uint64(variant), Cum: uint64(index)*10 + uint64(variant), Count: uint64(index)}
	switch kind {
	case "/height+1":
		it.info.Index++
		it.good = false
	case "/height-1":
		it.info.Index--
		it.good = false
	case "/hash":
		it.info.Hash[0] ^= 1
		it.good = false
	case "/hash of the other":
		it.info.Hash = makeItem(index, 1-variant, "").hash
		it.good = false
	}
	return it
}

func (it *item) push(st cryptonote.Storage) bool {
	x := cryptonote.NewBlockInfo(it.info.Index, it.info.Coins)
	x.Hash = crypto.Hash(it.info.Hash)
	x.CumulativeDifficulty, x.Timestamp, x.Size, x.TotalGeneratedTransactions = it.info.Cum, it.info.TS, it.info.Size, it.info.Count
	return st.PushBlock(txm.Block(&it.b), x, cryptonote.TransactionsDetails{}) == nil
}

// list is the model: height -> item; height 0 is genesis.
type list map[uint32]*item

func (l list) push(it *item) (list, bool) {
	if !it.good || it.index == 0 || l[it.index] != nil {
		return l, false
	}
	n := list{}
	for k, v := range l {
		n[k] = v
	}
	n[it.index] = it
	return n, true
}

func (l list) top() (uint32, ref.Hash) {
	i, h := uint32(0), genesisHash
	for k, v := range l {
		if k > i {
			i, h = k, v.hash
		}
	}
	return i, h
}

func (l list) hashAt(i uint32) (ref.Hash, bool) {
	if i == 0 {
		return genesisHash, true
	}
	if it := l[i]; it != nil {
		return it.hash, true
	}
	return ref.Hash{}, false
}

// compare looks at everything.
func compare(desc string, st cryptonote.Storage, l list, all []*item) {
	fail := func(f string, a ...interface{}) { c.Fail(desc, f, a...) }
	ti, th := l.top()
	if x, err := st.TopIndex(); err != nil || x != ti {
		fail("top's height is %d, not %d", x, ti)
	}
	if x, err := st.TopBlock(); err != nil || x == nil || ref.Hash(*x.Hash()) != th || x.Index() != ti {
		fail("top block is another")
	}
	gh := crypto.Hash(genesisHash)
	if !st.HaveBlock(&gh) || st.GetBlock(&gh) == nil || ref.Hash(*st.GetBlock(&gh).Hash()) != genesisHash {
		fail("genesis is lost")
	}
	// first through one variable, then through one for each
	var one crypto.Hash
	for k := 0; k < 2*len(all); k++ {
		it := all[k%len(all)]
		h := &one
		if k >= len(all) {
			h = new(crypto.Hash)
		}
		*h = crypto.Hash(it.hash)
		want := l[it.index] != nil && l[it.index].hash == it.hash
		if st.HaveBlock(h) != want {
			fail("block %s is known: %v", it.name, !want)
		}
		b := st.GetBlock(h)
		if (b != nil) != want {
			fail("block %s can be fetched: %v", it.name, !want)
		}
		if b != nil {
			back, ok := txm.FromBlock(b)
			if !ok || !txm.EqualBlock(&back, &it.b) {
				fail("block %s is fetched as another", it.name)
			}
		}
	}
	for i := uint32(0); i < 9; i++ {
		want, there := l.hashAt(i)
		h, _ := st.HashAtIndex(i)
		if (h != nil) != there || there && ref.Hash(*h) != want {
			fail("the hash at height %d is wrong", i)
		}
		x, ok := cryptonote.VerifInfoAt(st, i)
		if ok != there {
			fail("height %d is described: %v", i, ok)
		}
		if ok && ref.Hash(x.Hash) != want {
			fail("the description of height %d is of another block", i)
		}
		if it := l[i]; it != nil && (x.Index != i || x.Cum != it.info.Cum || x.Coins != it.info.Coins || x.Time != it.info.TS || x.Size != it.info.Size || x.Txs != it.info.Count) {
			fail("the description of height %d is %+v", i, *x)
		}
	}
}

// call is one call and what it gives in a state.
type call struct {
	name string
	do   func(st cryptonote.Storage) interface{}
	step func(l list) (list, interface{})
}

func short(h ref.Hash) string { return fmt.Sprintf("%x", h[:4]) }

func push(it *item) call {
	return call{"push " + it.name, func(st cryptonote.Storage) interface{} { return it.push(st) }, func(l list) (list, interface{}) {
		n, ok := l.push(it)
		return n, ok
	}}
}

func have(it *item) call {
	return call{"have " + it.name, func(st cryptonote.Storage) interface{} { h := crypto.Hash(it.hash); return st.HaveBlock(&h) }, func(l list) (list, interface{}) {
		return l, l[it.index] != nil && l[it.index].hash == it.hash
	}}
}

func fetch(it *item) call {
	return call{"fetch " + it.name, func(st cryptonote.Storage) interface{} {
		h := crypto.Hash(it.hash)
		b := st.GetBlock(&h)
		if b == nil {
			return "none"
		}
		return short(ref.Hash(*b.Hash()))
	}, func(l list) (list, interface{}) {
		if l[it.index] != nil && l[it.index].hash == it.hash {
			return l, short(it.hash)
		}
		return l, "none"
	}}
}

func hashAt(i uint32) call {
	return call{fmt.Sprintf("hash at %d", i), func(st cryptonote.Storage) interface{} {
		h, _ := st.HashAtIndex(i)
		if h == nil {
			return "none"
		}
		return short(ref.Hash(*h))
	}, func(l list) (list, interface{}) {
		if h, ok := l.hashAt(i); ok {
			return l, short(h)
		}
		return l, "none"
	}}
}

func infoAt(i uint32) call {
	return call{fmt.Sprintf("info at %d", i), func(st cryptonote.Storage) interface{} {
		x, ok := cryptonote.VerifInfoAt(st, i)
		if !ok {
			return "none"
		}
		return short(ref.Hash(x.Hash))
	}, func(l list) (list, interface{}) {
		if h, ok := l.hashAt(i); ok {
			return l, short(h)
		}
		return l, "none"
	}}
}

var topIndex = call{"top index", func(st cryptonote.Storage) interface{} { i, _ := st.TopIndex(); return i }, func(l list) (list, interface{}) {
	i, _ := l.top()
	return l, i
}}

var topBlock = call{"top block", func(st cryptonote.Storage) interface{} { b, _ := st.TopBlock(); return short(ref.Hash(*b.Hash())) }, func(l list) (list, interface{}) {
	_, h := l.top()
	return l, short(h)
}}

func newStorage() cryptonote.Storage {
	st := cryptonote.NewMemoryStorage()
	if err := st.Init(chainm.Genesis()); err != nil {
		panic(err)
	}
	return st
}

func threads(w int, before []*item, lists [][]call, all []*item) {
	desc := ""
	for _, x := range before {
		desc += x.name + " "
	}
	byName := map[string]call{}
	for _, l := range lists {
		desc += "| "
		for _, x := range l {
			desc += x.name + ", "
			byName[x.name] = x
		}
	}
	c.Set(w, desc)
	sc := vsched.Scenario{Name: desc, Setup: func() ([]func(t *vsched.T), func(h []vsched.Call) string) {
		st := newStorage()
		m := list{}
		for _, x := range before {
			x.push(st)
			m, _ = m.push(x)
		}
		var bodies []func(t *vsched.T)
		for _, l := range lists {
			l := l
			bodies = append(bodies, func(t *vsched.T) {
				for _, x := range l {
					t.Do(x.name, func() interface{} { return x.do(st) })
				}
			})
		}
		return bodies, func(h []vsched.Call) string {
			step := func(s list, k vsched.Call) (list, bool) {
				n, want := byName[k.Name].step(s)
				return n, k.Out == want
			}
			var last list
			if !vsched.Linear(m, h, step, func(s list) bool {
				last = s
				for i := uint32(0); i < 6; i++ {
					want, there := s.hashAt(i)
					got, _ := st.HashAtIndex(i)
					if there != (got != nil) || there && ref.Hash(*got) != want {
						return false
					}
				}
				return true
			}) {
				return "no sequential order of the calls explains their results"
			}
			compare(desc, st, last, all)
			return ""
		}
	}}
	stt, fail := vsched.Explore(sc, c.Expired, func(s string) {
		c.Distinct(desc + s)
		c.Sample(desc + ": " + s)
	})
	if fail != "" {
		c.Fail(desc, "%s", fail)
	}
	if !stt.Complete {
		c.Cap("schedules of " + desc)
	}
	c.Eval(stt.Schedules)
	c.Transition(stt.Steps)
	c.Trace(stt.Schedules)
}

func TestVerif(t *testing.T) {
	c = vlib.New("C18")
	a1, b1, a2, b2, a3 := makeItem(1, 0, ""), makeItem(1, 1, ""), makeItem(2, 0, ""), makeItem(2, 1, ""), makeItem(3, 0, "")
	all := []*item{a1, b1, a2, b2, a3, makeItem(3, 1, ""), makeItem(5, 0, "")}

	// 1. all schedules
	writes := []call{push(a1), push(b1), push(a2), push(makeItem(2, 0, "/hash"))}
	reads := []call{have(a1), fetch(a1), fetch(a2), hashAt(1), hashAt(2), infoAt(1), infoAt(2), topIndex, topBlock}
	// one thread first: a call that never returns is found at once
	for _, x := range append(append([]call{}, writes...), reads...) {
		for _, y := range append(append([]call{}, writes...), reads...) {
			threads(0, nil, [][]call{{x, y}}, all)
		}
	}
	nw, nr := len(writes), len(reads)
	c.Each("writers", nw*nw*nw*nw, func(w, i int) {
		x := vlib.Unrank(i, []int{nw, nw, nw, nw})
		if x[0]*nw+x[1] > x[2]*nw+x[3] {
			return
		}
		threads(w, nil, [][]call{{writes[x[0]], writes[x[1]]}, {writes[x[2]], writes[x[3]]}}, all)
	})
	c.Each("readers", nw*nw*nr*nr, func(w, i int) {
		x := vlib.Unrank(i, []int{nw, nw, nr, nr})
		threads(w, nil, [][]call{{writes[x[0]], writes[x[1]]}, {reads[x[2]], reads[x[3]]}}, all)
		if x[0] != x[1] && (c.Thorough || i%6 == 0) {
			threads(w, nil, [][]call{{writes[x[0]]}, {writes[x[1]]}, {reads[x[2]], reads[x[3]]}}, all)
		}
	})
	c.Each("reading threads", nw*nr*nr, func(w, i int) {
		x := vlib.Unrank(i, []int{nw, nr, nr})
		threads(w, []*item{a1}, [][]call{{push(a2)}, {reads[x[1]]}, {reads[x[2]]}}, all)
		if c.Thorough {
			threads(w, nil, [][]call{{writes[x[0]], push(a2)}, {reads[x[1]], topBlock}, {reads[x[2]]}}, all)
		}
	})
	c.Each("many reads", nr*nr*nr, func(w, i int) {
		x := vlib.Unrank(i, []int{nr, nr, nr})
		threads(w, nil, [][]call{{push(a1), push(a2)}, {reads[x[0]], reads[x[1]], reads[x[2]]}}, all)
	})

	// 2. all sequences of insertions
	items := []*item{a1, b1, a2, b2, a3, makeItem(3, 1, ""), makeItem(5, 0, ""), makeItem(1, 0, "/height+1"), makeItem(2, 0, "/height-1"), makeItem(1, 0, "/hash"), makeItem(2, 1, "/hash of the other"), makeItem(0, 0, "")}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = len(items) + 1
	}
	c.Each("sequences", vlib.Size(radix), func(w, i int) {
		st := newStorage()
		l := list{}
		var trail []string
		for _, x := range vlib.Unrank(i, radix) {
			if x == len(items) {
				trail = append(trail, "init")
				c.Set(w, strings.Join(trail, ", "))
				_ = st.Init(chainm.Genesis())
			} else {
				trail = append(trail, "push "+items[x].name)
				desc := strings.Join(trail, ", ")
				c.Set(w, desc)
				n, want := l.push(items[x])
				if got := items[x].push(st); got != want {
					c.Fail(desc, "the insertion succeeds: %v", got)
				}
				l = n
			}
			compare(strings.Join(trail, ", "), st, l, all)
			c.Transition(1)
		}
		c.Eval(depth)
		c.Trace(1)
		c.Distinct(strings.Join(trail, ", "))
	})

	// 3. long lists in several orders
	c.Each("long", 4, func(w, i int) {
		n := 300
		st := newStorage()
		l := list{}
		var all []*item
		for k := 1; k <= n; k++ {
			x := k
			switch i {
			case 1:
				x = n + 1 - k
			case 2:
				x = (k * 7) % 301
			case 3:
				x = k*17%301 + 1000
			}
			it := makeItem(uint32(x), k%2, "")
			all = append(all, it)
			nl, want := l.push(it)
			if got := it.push(st); got != want {
				c.Fail(it.name, "the insertion succeeds: %v", got)
			}
			l = nl
		}
		compare(fmt.Sprintf("order %d", i), st, l, all)
	})
	c.Cov("race detector", vsched.Race)
	c.Done()
}
