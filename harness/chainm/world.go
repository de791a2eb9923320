//go:build go1.21

package chainm

import (
	"fmt"
	"io"
	"math/big"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	log "github.com/sirupsen/logrus"
)

// Key signs with a fixed nonce.
type Key struct {
	Sec, k *big.Int
	Pub    [32]byte
	comm   [32]byte
}

func NewKey(i byte) *Key {
	x := &Key{Sec: ref.Hs([]byte{i, 1}), k: ref.Hs([]byte{i, 2})}
	x.Pub = ref.Base.Mul(x.Sec).Bytes()
	x.comm = ref.Base.Mul(x.k).Bytes()
	return x
}

func (x *Key) Sign(h Hash) (s [64]byte) {
	c := ref.Hs(h[:], x.Pub[:], x.comm[:])
	r := new(big.Int).Mul(c, x.Sec)
	r.Sub(x.k, r).Mod(r, ref.Order)
	cb, rb := ref.ScalarBytes(c), ref.ScalarBytes(r)
	copy(s[:32], cb[:])
	copy(s[32:], rb[:])
	return
}

var (
	Keys = []*Key{NewKey(1), NewKey(2), NewKey(3)}
	// Bad are keys that are no points.
	Bad = func() (out [][32]byte) {
		for i := byte(0); len(out) < 3; i++ {
			h := ref.Keccak([]byte{i, 99})
			h[31] &= 0x7f
			if _, ok := ref.DecodePoint(h); !ok {
				out = append(out, h)
			}
		}
		return
	}()
)

// Logger that writes nothing.
func Logger() *log.Logger {
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	return l
}

// History are blocks put in the storage before the chain starts.
type History struct {
	Model  *Model
	blocks []*cryptonote.Block
	infos  []*Info
}

// Now is the time of the worlds: the start of a bubble of virtual time.
const Now = 946684800

// Base time of histories.
const T0 = Now - 2000*240

// Pattern of a history.
type Pattern struct {
	TS    func(i int) uint64 // i counts from 1
	Size  func(i int) uint64
	Diff  func(i int) uint64
	Coins uint64
}

var Patterns = []Pattern{
	{TS: func(i int) uint64 { return T0 + 240*uint64(i) }, Size: func(i int) uint64 { return 500 }, Diff: func(i int) uint64 { return 1000000 }, Coins: 4000000000000000000},
	{TS: func(i int) uint64 {
		d := []uint64{0, 700, 150, 20, 900, 333, 60}
		return T0 + 240*uint64(i) + d[i%7]
	}, Size: func(i int) uint64 { return uint64(300 + i%17*1000) }, Diff: func(i int) uint64 { return uint64(1000000 + i%13*70001) }, Coins: 4000000000000000000},
	{TS: func(i int) uint64 { return T0 + 200*uint64(i) - uint64(i%3)*400 }, Size: func(i int) uint64 { return uint64(60000 + i%31*60000) }, Diff: func(i int) uint64 { return uint64(5000000 - i%23*100000) }, Coins: 9999999000000000000},
	{TS: func(i int) uint64 { return T0 + 260*uint64(i) + uint64(i*i%97) }, Size: func(i int) uint64 { return uint64(1200000 + i%11*3000) }, Diff: func(i int) uint64 { return uint64(300000 + i*7) }, Coins: 0},
}

// Genesis block of the test network.
func Genesis() *cryptonote.Block {
	g, err := cryptonote.NewBlockChain(config.TestNet(), nil, Logger()).GenesisBlock()
	if err != nil {
		panic(err)
	}
	return g
}

func genesisInfo(g *cryptonote.Block) *Info {
	return &Info{Hash: Hash(*g.Hash()), TS: g.Timestamp, Cum: 1, Size: g.BaseTransaction.Size(), Coins: 38146972656250}
}

// NewHistory makes n blocks ending at top (all of them from 1 on if n is top).
func NewHistory(top uint32, n int, p Pattern) *History {
	h := &History{Model: &Model{Low: true, Now: Now, ByIndex: map[uint32]*Info{}, ByHash: map[Hash]*Info{}, Points: map[uint32]Hash{}}}
	g := genesisInfo(Genesis())
	h.Model.Push(g)
	if uint32(n) > top {
		n = int(top)
	}
	prev := g
	if n > 0 && uint32(n) < top {
		prev = &Info{Index: top - uint32(n), Hash: ref.Keccak([]byte{7}), Coins: p.Coins, Cum: 50000000 + 2000000*uint64(top), Count: 12345}
	}
	for i := 1; i <= n; i++ {
		b := ref.Block{Major: VersionAt(prev.Index + 1), TS: p.TS(i), Prev: prev.Hash, Nonce: uint32(i)}
		b.Base = ref.Tx{Version: 1, Unlock: uint64(prev.Index) + 11, Ins: []ref.TxIn{txm.Coinbase(prev.Index + 1)}, Outs: []ref.TxOut{{Amount: 1, Key: Keys[0].Pub}}}
		fixParent(&b)
		x := txm.Block(&b)
		in := &Info{Index: prev.Index + 1, Hash: Hash(*x.Hash()), Prev: prev.Hash, TS: b.TS, Size: p.Size(i), Coins: prev.Coins + 38000000000000>>uint(i%3), Cum: prev.Cum + p.Diff(i), Count: prev.Count + uint64(i%4)}
		if p.Coins > 9000000000000000000 {
			in.Coins = prev.Coins + 1000000000
		}
		h.blocks = append(h.blocks, x)
		h.infos = append(h.infos, in)
		h.Model.Push(in)
		prev = in
	}
	return h
}

func fixParent(b *ref.Block) {
	if b.Major != 2 && b.Major != 3 {
		b.Parent = nil
		return
	}
	if b.Parent == nil {
		b.Parent = &ref.Parent{Major: 1, TxCount: 1, Prev: txm.Fill(5)}
		b.Parent.Tx = ref.Tx{Version: 1, Ins: []ref.TxIn{txm.Coinbase(77)}, Outs: []ref.TxOut{{Amount: 5, Key: Keys[1].Pub}}, Extra: txm.MergeExtra(0)}
	} else {
		p := *b.Parent
		b.Parent = &p
	}
	b.Parent.TS, b.Parent.Nonce = b.TS, b.Nonce
}

// store is the storage under test, filled with a history.
type store struct {
	cryptonote.Storage
	h *History
}

func (s *store) Init(g *cryptonote.Block) error {
	if err := s.Storage.Init(g); err != nil {
		return err
	}
	for i, b := range s.h.blocks {
		in := s.h.infos[i]
		x := cryptonote.NewBlockInfo(in.Index, in.Coins)
		x.Hash = crypto.Hash(in.Hash)
		x.CumulativeDifficulty, x.Timestamp, x.Size, x.TotalGeneratedTransactions = in.Cum, in.TS, in.Size, in.Count
		if err := s.Storage.PushBlock(b, x, cryptonote.TransactionsDetails{}); err != nil {
			return err
		}
	}
	return nil
}

// HashAtIndex names the blocks before the history, which are not there, somehow.
func (s *store) HashAtIndex(i uint32) (*crypto.Hash, error) {
	if len(s.h.infos) > 0 && i > 0 && i < s.h.infos[0].Index {
		x := crypto.Hash(ref.Keccak([]byte(fmt.Sprint("before the history ", i))))
		return &x, nil
	}
	return s.Storage.HashAtIndex(i)
}

// World is the real chain and the model of it.
type World struct {
	BC *cryptonote.BlockChain
	St cryptonote.Storage
	M  *Model
}

// NewChain makes the real chain only.
func (h *History) NewChain() (*cryptonote.BlockChain, cryptonote.Storage) {
	st := &store{Storage: cryptonote.NewMemoryStorage(), h: h}
	bc := cryptonote.NewBlockChain(config.TestNet(), st, Logger())
	if err := bc.Init(); err != nil {
		panic("chain can't be started: " + err.Error())
	}
	return bc, st
}

func (h *History) World(points map[uint32]Hash) *World {
	w := &World{M: h.Model.Clone()}
	w.BC, w.St = h.NewChain()
	for k, v := range points {
		w.AddPoint(k, v)
	}
	return w
}

func (w *World) AddPoint(i uint32, h Hash) {
	if err := w.BC.Checkpoints.AddCheckpoint(i, crypto.Hash(h)); err != nil {
		panic(err)
	}
	w.M.Points[i] = h
}

// Draft is a block being made.
type Draft struct {
	M      *Model
	B      ref.Block
	Prev   *Info
	Index  uint32
	Txs    []ref.Tx
	Raw    [][]byte   // instead of the transactions' bytes
	List   []ref.Hash // instead of the transactions' hashes
	Delta  int64      // added to the reward
	Split  func(total uint64) []uint64
	Outs   []ref.TxOut // instead of the split reward
	Signer *Key
	SigMsg *Hash                        // instead of the block's hash
	SigFix func(s [64]byte) [64]byte    // after signing
	After  func(b *ref.Block, d *Draft) // before signing
	Blobs  [][]byte
}

// NewDraft is a plain valid block after prev.
func (m *Model) NewDraft(prev *Info) *Draft {
	d := &Draft{M: m, Prev: prev, Index: prev.Index + 1, Signer: Keys[0]}
	med, _ := m.MedianTime(prev, VersionAt(d.Index))
	ts := prev.TS + 240
	if ts < med {
		ts = med
	}
	d.B = ref.Block{Major: VersionAt(d.Index), Minor: 0, TS: ts, Prev: prev.Hash, Nonce: 7}
	k := Keys[2].Pub
	d.B.Base = ref.Tx{Version: 1, Unlock: uint64(d.Index) + 10, Ins: []ref.TxIn{txm.Coinbase(d.Index)}, Extra: append([]byte{1}, k[:]...)}
	return d
}

// Finish computes lists, reward and signature.
func (d *Draft) Finish() (*ref.Block, [][]byte) {
	b := d.B
	fixParent(&b)
	raw := d.Raw
	if raw == nil {
		for i := range d.Txs {
			raw = append(raw, d.Txs[i].Bytes())
		}
	}
	b.Hashes = d.List
	if b.Hashes == nil {
		for i := range d.Txs {
			b.Hashes = append(b.Hashes, d.Txs[i].Hash())
		}
	}
	if len(b.Base.Ins) != 1 || !b.Base.Ins[0].Coinbase {
		b.Base = txm.WithSigs(b.Base, 1) // what such bytes decode to
	}
	fees, extra := uint64(0), 0
	for i := range d.Txs {
		for _, in := range d.Txs[i].Ins {
			fees += in.Amount
		}
		for _, o := range d.Txs[i].Outs {
			fees -= o.Amount
		}
	}
	for _, r := range raw {
		extra += len(r)
	}
	outs := func(total uint64) {
		if d.Outs != nil {
			b.Base.Outs = d.Outs
			return
		}
		parts := []uint64{total}
		if d.Split != nil {
			parts = d.Split(total)
		}
		b.Base.Outs = nil
		for i, p := range parts {
			b.Base.Outs = append(b.Base.Outs, ref.TxOut{Amount: p, Key: Keys[i%len(Keys)].Pub})
		}
	}
	total := uint64(0)
	for k := 0; k < 6; k++ {
		outs(total)
		r, _, ok := d.M.Reward(d.Prev, uint64(len(b.Base.Bytes())+extra), fees)
		if !ok || !r.IsUint64() {
			r = big.NewInt(1)
		}
		want := r.Uint64() + uint64(d.Delta)
		if want == total {
			break
		}
		total = want
	}
	if d.After != nil {
		d.After(&b, d)
	}
	if b.Major >= 5 {
		h := ref.Keccak(b.Hashing())
		if d.SigMsg != nil {
			h = *d.SigMsg
		}
		b.Sig = d.Signer.Sign(h)
		if d.SigFix != nil {
			b.Sig = d.SigFix(b.Sig)
		}
	} else {
		b.Sig = [64]byte{}
	}
	return &b, raw
}

// Digits are an amount's digits, lowest first.
func Digits(a uint64) []uint64 {
	var out []uint64
	for p := uint64(1); ; p *= 10 {
		if x := a / p % 10 * p; x != 0 {
			out = append(out, x)
		}
		if p == 10000000000000000000 {
			return out
		}
	}
}

// Tx makes a valid transaction of a fee at an index: inputs of 10^15 each, outputs in digits.
func Tx(seed byte, inputs, ring int, fee uint64, extra []byte) ref.Tx {
	t := ref.Tx{Version: 1, Extra: extra}
	sum := uint64(0)
	for i := 0; i < inputs; i++ {
		in := ref.TxIn{Amount: 1000000000000000, Image: Image(int(seed)*16 + i)}
		for k := 0; k < ring; k++ {
			in.Offs = append(in.Offs, uint32(k+1+int(seed)))
		}
		t.Ins = append(t.Ins, in)
		sum += in.Amount
	}
	for i, a := range Digits(sum - fee) {
		t.Outs = append(t.Outs, ref.TxOut{Amount: a, Key: Keys[i%3].Pub})
	}
	return txm.WithSigs(t, int(seed))
}

var imageCache = map[int][32]byte{}

func init() {
	// multiples of the base point
	p := ref.Base
	for i := 0; i < 4200; i++ {
		p = p.Add(ref.Base)
		b := p.Bytes()
		imageCache[i] = b
		images.Store(b, true)
		keys.Store(b, true)
	}
}

// Image is the i-th of a list of valid key images.
func Image(i int) [32]byte { return imageCache[i] }

// Try offers a block to the real chain.
func (w *World) Try(b *ref.Block, raw [][]byte) error {
	return w.BC.AddBlock(txm.Block(b), raw)
}

// Prefix is the history's first n blocks, in the storage only.
func (h *History) Prefix(n int) *History {
	return &History{Model: h.Model, blocks: h.blocks[:n], infos: h.infos[:n]}
}
