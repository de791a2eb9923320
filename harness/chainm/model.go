//go:build go1.21

// Package chainm has a model of the chain written from the consensus rules and worlds in which the real chain can be
// driven from any era.
package chainm

import (
	"math/big"
	"sort"
	"sync"

	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
)

type Hash = ref.Hash

// Info is what the chain records about a block.
type Info struct {
	Index                       uint32
	Hash, Prev                  Hash
	TS, Size, Coins, Cum, Count uint64
}

// Model is the chain by the rules.
type Model struct {
	Low     bool // no minimal difficulty
	Now     uint64
	ByIndex map[uint32]*Info
	ByHash  map[Hash]*Info
	Top     *Info
	Points  map[uint32]Hash
}

func (m *Model) Clone() *Model {
	n := *m
	n.ByIndex = make(map[uint32]*Info, len(m.ByIndex)+1)
	n.ByHash = make(map[Hash]*Info, len(m.ByHash)+1)
	for k, v := range m.ByIndex {
		n.ByIndex[k] = v
	}
	for k, v := range m.ByHash {
		n.ByHash[k] = v
	}
	n.Points = map[uint32]Hash{}
	for k, v := range m.Points {
		n.Points[k] = v
	}
	return &n
}

func (m *Model) Push(i *Info) {
	m.ByIndex[i.Index] = i
	m.ByHash[i.Hash] = i
	if m.Top == nil || i.Index > m.Top.Index {
		m.Top = i
	}
}

// Zone: at or below the highest checkpoint.
func (m *Model) Zone(index uint32) bool {
	max := uint32(0)
	for k := range m.Points {
		if k > max {
			max = k
		}
	}
	return max != 0 && index <= max
}

func VersionAt(index uint32) byte {
	switch {
	case index > 700000:
		return 5
	case index > 266000:
		return 4
	case index > 216000:
		return 3
	case index > 60000:
		return 2
	}
	return 1
}

func WindowOf(v byte) int {
	if v >= 4 {
		return 11
	}
	return 60
}

func FutureOf(v byte) uint64 {
	if v >= 4 {
		return 720
	}
	return 1680
}

func diffWindow(v byte) int {
	switch v {
	case 1:
		return 375
	case 2:
		return 17
	case 3, 4:
		return 61
	}
	return 121
}

// last are up to n blocks ending at one, oldest first.
func (m *Model) last(at *Info, n int, genesis bool) []*Info {
	var out []*Info
	for at != nil && len(out) < n {
		if at.Index == 0 && !genesis {
			break
		}
		out = append(out, at)
		if at.Index == 0 {
			break
		}
		at = m.ByIndex[at.Index-1]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func median(v []uint64) uint64 {
	if len(v) == 0 {
		return 0
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	n := len(v)
	if n%2 == 1 {
		return v[n/2]
	}
	x := new(big.Int).Add(new(big.Int).SetUint64(v[n/2-1]), new(big.Int).SetUint64(v[n/2]))
	return x.Rsh(x, 1).Uint64()
}

// MedianTime of the window before the next block; full says if the window is full.
func (m *Model) MedianTime(prev *Info, v byte) (uint64, bool) {
	l := m.last(prev, WindowOf(v), true)
	var ts []uint64
	for _, x := range l {
		ts = append(ts, x.TS)
	}
	return median(ts), len(l) >= WindowOf(v)
}

func (m *Model) MedianSize(prev *Info) uint64 {
	var s []uint64
	for _, x := range m.last(prev, 100, true) {
		s = append(s, x.Size)
	}
	return median(s)
}

// Difficulty of the block after prev, an interval.
func (m *Model) Difficulty(prev *Info) (lo, hi uint64, ok bool) {
	v := VersionAt(prev.Index + 1)
	var ts, cum []uint64
	for _, x := range m.last(prev, diffWindow(v), false) {
		ts = append(ts, x.TS)
		cum = append(cum, x.Cum)
	}
	return ref.NextDifficulty(m.Low, prev.Index, v, ts, cum)
}

func MaxBlockSize(index uint32) uint64 { return 1000000 + uint64(index)*102400/131400 }

// Reward of a block after prev; false if it is too big.
func (m *Model) Reward(prev *Info, size, fee uint64) (reward, emission *big.Int, ok bool) {
	return ref.Reward(VersionAt(prev.Index+1), m.MedianSize(prev), size, prev.Coins, fee)
}

var keys sync.Map

// ValidKey says that a key is a point.
func ValidKey(k [32]byte) bool {
	if v, ok := keys.Load(k); ok {
		return v.(bool)
	}
	_, ok := ref.DecodePoint(k)
	keys.Store(k, ok)
	return ok
}

var images sync.Map

// ValidImage says that an image is in the subgroup of the base point.
func ValidImage(k [32]byte) bool {
	if v, ok := images.Load(k); ok {
		return v.(bool)
	}
	p, ok := ref.DecodePoint(k)
	ok = ok && p.Mul(ref.Order).Bytes() == ref.Identity().Bytes()
	images.Store(k, ok)
	return ok
}

// VerifySig is the definition of a valid signature.
func VerifySig(h Hash, pub [32]byte, s [64]byte) bool {
	p, ok := ref.DecodePoint(pub)
	c, r := ref.LE(s[:32]), ref.LE(s[32:])
	if !ok || c.Cmp(ref.Order) >= 0 || r.Cmp(ref.Order) >= 0 || c.Sign() == 0 {
		return false
	}
	comm := p.Mul(c).Add(ref.Base.Mul(r)).Bytes()
	if comm == ref.Identity().Bytes() {
		return false
	}
	return ref.Hs(h[:], pub[:], comm[:]).Cmp(c) == 0
}

const maxU64 = 1<<64 - 1

func MinimalFee(i uint32) uint64 {
	switch {
	case i <= 216394:
		return 100000000
	case i <= 266000:
		return 100000000000
	}
	return 10000000000
}

// MinFee is the least fee of a transaction that is no fusion.
func MinFee(i uint32, extra int) uint64 {
	least := MinimalFee(i)
	if i > 266000 && i < 667000 {
		least -= least / 5
	}
	if i <= 500000 {
		return least
	}
	f := MinimalFee(i)
	if extra > 100 {
		f += f / 100 * uint64(extra-100)
	}
	if i < 667000 {
		f -= f / 5
	}
	if f > least {
		least = f
	}
	return least
}

func digitAmount(a uint64) bool {
	if a == 0 {
		return false
	}
	for a%10 == 0 {
		a /= 10
	}
	return a < 10
}

// Decompose splits an amount in digits; the longest low part within the threshold stays together.
func Decompose(a, dust uint64) []uint64 {
	var out []uint64
	p, cut := uint64(1), uint64(1)
	for k := 0; k < 19; k++ { // the largest power whose low part is within the threshold
		p *= 10
		if a%p <= dust {
			cut = p
		} else {
			break
		}
	}
	if a <= dust {
		if a == 0 {
			return nil
		}
		return []uint64{a}
	}
	if low := a % cut; low != 0 {
		out = append(out, low)
	}
	for q := cut; ; q *= 10 {
		if d := a / q % 10 * q; d != 0 {
			out = append(out, d)
		}
		if q == 10000000000000000000 {
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func fusion(t *ref.Tx, i uint32) bool {
	if i <= 216000 && len(t.Bytes()) > 300000 {
		return false
	}
	if len(t.Ins) < 12 || len(t.Ins) < 4*len(t.Outs) {
		return false
	}
	dust := uint64(0)
	if i < 266000 {
		dust = 100000000
	}
	sum := uint64(0)
	for _, in := range t.Ins {
		if in.Amount < dust {
			return false
		}
		sum += in.Amount
	}
	want := Decompose(sum, dust)
	if len(want) != len(t.Outs) {
		return false
	}
	for k := range want {
		if want[k] != t.Outs[k].Amount {
			return false
		}
	}
	return true
}

// JudgeTx says why a transaction is refused in a block at index ("" if it is not), and its fee.
func (m *Model) JudgeTx(t *ref.Tx, i uint32, spent map[[32]byte]bool) (string, uint64) {
	size := len(t.Bytes())
	if i > 266000 && size > 249400 {
		return "size", 0
	}
	if len(t.Ins) == 0 {
		return "no inputs", 0
	}
	in, out := uint64(0), uint64(0)
	ring := 0
	for _, x := range t.Ins {
		if x.Coinbase {
			return "input kind", 0
		}
		if spent[x.Image] {
			return "image spent", 0
		}
		spent[x.Image] = true
		if len(x.Offs) == 0 {
			return "empty ring", 0
		}
		for _, o := range x.Offs[1:] {
			if o == 0 {
				return "identical members", 0
			}
		}
		if len(x.Offs) > ring {
			ring = len(x.Offs)
		}
		if !m.Zone(i+1) && !ValidImage(x.Image) {
			return "image domain", 0
		}
		if x.Amount > maxU64-in {
			return "inputs overflow", 0
		}
		in += x.Amount
	}
	for _, x := range t.Outs {
		if x.Amount == 0 {
			return "zero output", 0
		}
		if i >= 700000 && !digitAmount(x.Amount) {
			return "output not canonical", 0
		}
		if !ValidKey(x.Key) {
			return "output key", 0
		}
		if x.Amount > maxU64-out {
			return "outputs overflow", 0
		}
		out += x.Amount
	}
	if in == 0 || out == 0 || out > in {
		return "money", 0
	}
	fee := in - out
	if !(fee == 0 && fusion(t, i)) && fee < MinFee(i, len(t.Extra)) {
		return "fee", 0
	}
	if i > 216394 && ring > 20 {
		return "ring size", 0
	}
	if !m.Zone(i) {
		return "unknown outputs", 0 // no ring member used here exists
	}
	return "", fee
}

// Judge says why a block with these transaction bytes is refused ("" if it is accepted) and what is recorded then.
// The difficulty is an interval for version 3; Cum is its low end and slack its width.
func (m *Model) Judge(b *ref.Block, raw [][]byte) (why string, info *Info, slack uint64) {
	id := b.ID()
	if m.ByHash[id] != nil {
		return "exists", nil, 0
	}
	prev := m.ByHash[b.Prev]
	if prev == nil {
		return "orphan", nil, 0
	}
	base := &b.Base
	if len(base.Ins) != 1 || !base.Ins[0].Coinbase {
		return "coinbase inputs", nil, 0
	}
	index := prev.Index + 1
	if base.Ins[0].Index != index {
		return "height", nil, 0
	}
	v := VersionAt(index)
	if b.Major != v {
		return "version", nil, 0
	}
	size := uint64(len(base.Bytes()))
	if len(raw) != len(b.Hashes) {
		return "transaction count", nil, 0
	}
	var txs []ref.Tx
	for _, r := range raw {
		t, rest, verdict := ref.DecodeTx(r)
		if verdict == ref.CodecReject || len(rest) > 0 || string(t.Bytes()) != string(r) {
			return "transaction bytes", nil, 0
		}
		txs = append(txs, t)
		size += uint64(len(r))
	}
	if size > MaxBlockSize(index) {
		return "size", nil, 0
	}
	if v == 2 && b.Parent.Major > 1 {
		return "parent version", nil, 0
	}
	if (v == 2 || v == 3) && b.ParentSize() > 2048 {
		return "parent size", nil, 0
	}
	if b.TS > m.Now+FutureOf(v) {
		return "future", nil, 0
	}
	if med, full := m.MedianTime(prev, v); full && b.TS < med {
		return "past", nil, 0
	}
	if base.Unlock != uint64(index)+10 {
		return "unlock", nil, 0
	}
	if len(base.Sigs) != 0 {
		return "coinbase signatures", nil, 0
	}
	sum := uint64(0)
	for _, o := range base.Outs {
		if o.Amount == 0 {
			return "zero output", nil, 0
		}
		if !ValidKey(o.Key) {
			return "output key", nil, 0
		}
		if o.Amount > maxU64-sum {
			return "overflow", nil, 0
		}
		sum += o.Amount
	}
	if index >= 500000 && len(base.Extra) > 1024 {
		return "extra size", nil, 0
	}
	if v >= 5 {
		tag, ok := extra5(base.Extra)
		if !ok {
			return "extra", nil, 0
		}
		if tag {
			return "merge mining tag", nil, 0
		}
		if len(base.Outs) != 1 {
			return "outputs", nil, 0
		}
		h := ref.Keccak(b.Hashing())
		if !VerifySig(h, base.Outs[0].Key, b.Sig) {
			return "signature", nil, 0
		}
	}
	lo, hi, ok := m.Difficulty(prev)
	if !ok {
		return "undecided", nil, 0
	}
	if hi == 0 {
		return "difficulty", nil, 0
	}
	spent := map[[32]byte]bool{}
	seen := map[Hash]bool{}
	fees := uint64(0)
	for k := range txs {
		h := txs[k].Hash()
		if h != b.Hashes[k] {
			return "transaction hash", nil, 0
		}
		if seen[h] {
			return "duplicate transaction", nil, 0
		}
		seen[h] = true
		why, fee := m.JudgeTx(&txs[k], index, spent)
		if why != "" {
			return "transaction " + why, nil, 0
		}
		fees += fee
	}
	reward, emission, ok := m.Reward(prev, size, fees)
	if !ok {
		return "reward zone", nil, 0
	}
	if reward.Cmp(new(big.Int).SetUint64(sum)) != 0 {
		return "reward", nil, 0
	}
	if h, ok := m.Points[index]; ok && m.Zone(index) && h != id {
		return "checkpoint", nil, 0
	}
	if m.ByIndex[index] != nil {
		return "height taken", nil, 0
	}
	coins := new(big.Int).Add(new(big.Int).SetUint64(prev.Coins), emission)
	return "", &Info{
		Index: index, Hash: id, Prev: b.Prev, TS: b.TS, Size: size, Coins: coins.Uint64(), Cum: prev.Cum + lo, Count: prev.Count + uint64(len(txs)),
	}, hi - lo
}

// extra5 parses an extra field: is there a merge-mining tag, is it well formed.
func extra5(x []byte) (tag, ok bool) {
	for len(x) > 0 {
		switch x[0] {
		case 0:
			for _, b := range x {
				if b != 0 {
					return false, false
				}
			}
			return tag, len(x) < 256
		case 1:
			if len(x) < 33 {
				return false, false
			}
			x = x[33:]
		case 2:
			n, k, _ := ref.ReadVarint(x[1:])
			if k <= 0 || n > 255 || uint64(len(x)) < 1+uint64(k)+n {
				return false, false
			}
			x = x[1+k+int(n):]
		case 3:
			if len(x) < 35 || x[1] != 33 {
				return false, false
			}
			_, k, _ := ref.ReadVarint(x[2:])
			if k <= 0 || len(x) < 2+k+32 {
				return false, false
			}
			tag = true
			x = x[2+k+32:]
		default:
			return false, false
		}
	}
	return tag, true
}
