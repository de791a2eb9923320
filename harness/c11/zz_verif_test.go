//go:build go1.21

package c11

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sync/atomic"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx
var seen [2][3]int64

const (
	kTx = iota
	kBlock
)

var kname = [2]string{"transaction", "block"}

func show(b []byte) string {
	if len(b) > 1200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:1200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// decode runs one byte string and compares with the reference verdict.
func decode(w, kind int, b []byte, how string) ref.CodecVerdict {
	c.Set(w, kname[kind]+" "+how+": "+show(b))
	fail := func(f string, a ...interface{}) {
		c.Fail(kname[kind]+" "+how+": "+show(b), f, a...)
	}
	r := bytes.NewReader(b)
	var verdict ref.CodecVerdict
	var rest []byte
	var err error
	var again []byte
	if kind == kTx {
		var want ref.Tx
		want, rest, verdict = ref.DecodeTx(b)
		x := &cryptonote.Transaction{}
		err = x.Deserialize(r)
		if err == nil {
			again = x.Serialize()
			if x.Size() != uint64(len(again)) {
				fail("size %d of %d bytes", x.Size(), len(again))
			}
			h := *x.Hash()
			if verdict == ref.CodecAccept {
				if ref.Hash(h) != want.Hash() {
					fail("wrong hash %x", h)
				}
				got, ok := txm.FromTx(x)
				if !ok || !txm.EqualTx(&got, &want) {
					fail("decoded transaction differs from the one sent")
				}
			}
		}
	} else {
		var want ref.Block
		want, rest, verdict = ref.DecodeBlock(b)
		x := &cryptonote.Block{}
		err = x.Deserialize(r)
		if err == nil {
			again = x.Serialize()
			x.HashingBytes()
			x.Index()
			x.BaseTransaction.Hash()
			h := *x.Hash()
			if verdict == ref.CodecAccept {
				if ref.Hash(h) != want.ID() {
					fail("wrong identifier %x", h)
				}
				got, ok := txm.FromBlock(x)
				if !ok || !txm.EqualBlock(&got, &want) {
					fail("decoded block differs from the one sent")
				}
			}
		}
	}
	c.Eval(1)
	switch verdict {
	case ref.CodecReject:
		if err == nil {
			fail("accepted, though it is not a %s", kname[kind])
		}
	case ref.CodecAccept:
		if err != nil {
			fail("well-formed %s is refused: %s", kname[kind], err)
		}
		if r.Len() != len(rest) {
			fail("%d bytes left over, expected %d", r.Len(), len(rest))
		}
		if !bytes.Equal(again, b[:len(b)-len(rest)]) {
			fail("serialized again differently: %s", show(again))
		}
		c.Distinct(kname[kind] + string(b))
		c.Sample(kname[kind] + " " + how + " " + show(b[:min(len(b), 120)]))
	}
	atomic.AddInt64(&seen[kind][verdict], 1)
	return verdict
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var maxRatio float64

func memory(kind int, b []byte, how string) {
	var used uint64
	desc := kname[kind] + " " + how + ": " + show(b)
	c.Guard(0, desc, func() {
		before := allocated()
		if kind == kTx {
			_ = new(cryptonote.Transaction).Deserialize(bytes.NewReader(b))
		} else {
			_ = new(cryptonote.Block).Deserialize(bytes.NewReader(b))
		}
		used = allocated() - before
	})
	if used > uint64(4<<20)+2000*uint64(len(b)) {
		c.Fail(desc, "%d bytes of memory used to decode %d bytes", used, len(b))
	}
	if r := float64(used) / float64(len(b)+1); r > maxRatio {
		maxRatio = r
	}
}

func txmBytes(n int) []byte { return bytes.Repeat([]byte{7}, n) }

type item struct {
	kind int
	b    []byte
	name string
}

func header(major byte) []byte {
	b := ref.Block{Major: major, Minor: 1, TS: 1000, Prev: txm.Fill(3), Nonce: 77, Base: txm.Bases()[0], Parent: txm.Parents(0)[0]}
	all := b.Bytes()
	b.Base = ref.Tx{}
	n := len(txm.Bases()[0].Prefix()) + 1
	return all[:len(all)-n]
}

func parentHeader(count uint64) []byte {
	b := ref.Varint(1)
	b = append(b, ref.Varint(0)...)
	b = append(b, ref.Varint(5)...)
	h := txm.Fill(4)
	b = append(b, h[:]...)
	b = append(b, 1, 2, 3, 4)
	return append(b, ref.Varint(count)...)
}

func templates() []item {
	var out []item
	ins, outs := txm.Inputs(0), txm.Outputs(0)
	for i, in := range ins {
		for k, o := range outs {
			if !c.Thorough && (i+k)%2 == 1 && i > 2 {
				continue
			}
			t := txm.WithSigs(ref.Tx{Version: 1, Unlock: txm.U64[(i+k*3)%len(txm.U64)], Ins: in, Outs: o, Extra: txm.Extras(0)[(i+k)%3]}, i)
			out = append(out, item{kTx, t.Bytes(), fmt.Sprintf("inputs %d outputs %d", i, k)})
		}
	}
	n := 0
	for major := byte(1); major <= 5; major++ {
		parents := []*ref.Parent{nil}
		if major == 2 || major == 3 {
			parents = nil
			for i, p := range txm.Parents(0) {
				if p.Tx.Ins == nil && i%8 != 3 || i >= 20 && i%4 != 2 { // long blockchain branches: a few only
					continue
				}
				parents = append(parents, p)
			}
		}
		for _, p := range parents {
			for bi, base := range txm.Bases() {
				for hn := 0; hn < 3; hn++ {
					n++
					if p != nil && (n%5 != 0 && !c.Thorough || n%2 != 0) {
						continue
					}
					b := ref.Block{Major: major, Minor: byte(hn), TS: txm.U64[(bi+hn)%len(txm.U64)], Prev: txm.Fill(3), Nonce: txm.U32[(hn+bi)%len(txm.U32)], Parent: p, Base: base, Hashes: txm.Hashes(hn)}
					if major == 5 {
						b.Sig = txm.Sig(4)
					}
					out = append(out, item{kBlock, b.Bytes(), fmt.Sprintf("version %d base %d hashes %d", major, bi, hn)})
				}
			}
		}
	}
	return out
}

var numbers = [][]byte{}

func init() {
	for _, v := range []uint64{0, 1, 2, 3, 4, 5, 6, 7, 32, 33, 63, 64, 100, 127, 128, 255, 256, 65535, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 40, 1 << 58, 1<<59 + 1, 1 << 61, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		numbers = append(numbers, ref.Varint(v))
	}
	numbers = append(numbers,
		[]byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 2},
		[]byte{0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1},
		bytes.Repeat([]byte{0xff}, 12),
	)
}

func TestVerif(t *testing.T) {
	c = vlib.New("C11")
	last := vlib.Now()
	laps := map[string]float64{}
	lap := func(n string) {
		laps[n] = vlib.Now().Sub(last).Seconds()
		last = vlib.Now()
		c.Cov("seconds", laps)
	}

	// 1. short strings, alone and after valid beginnings
	n := 1 << 16
	if c.Thorough {
		n = 1 << 24
	}
	for kind := 0; kind < 2; kind++ {
		decode(0, kind, nil, "empty")
		c.Each("short "+kname[kind], n, func(w, i int) {
			if i < 1<<8 {
				decode(w, kind, []byte{byte(i)}, "short")
			}
			if i < 1<<16 {
				decode(w, kind, []byte{byte(i >> 8), byte(i)}, "short")
			}
			if c.Thorough {
				decode(w, kind, []byte{byte(i >> 16), byte(i >> 8), byte(i)}, "short")
			}
		})
	}
	key := txm.Fill(5)
	k2 := append([]byte{2}, key[:]...)
	var starts []item
	starts = append(starts, item{kTx, nil, "nothing"}, item{kTx, []byte{1, 0}, "version"},
		item{kTx, []byte{1, 0, 1, 0xff, 5}, "coinbase input"},
		item{kTx, append(append([]byte{1, 0, 1, 2, 5, 0}, key[:]...)), "key input"},
		item{kTx, append([]byte{1, 0, 0, 1, 7}, k2...), "output"})
	for m := byte(0); m <= 6; m++ {
		b := header(m)
		if m < 1 || m > 5 {
			b = []byte{m}
		}
		starts = append(starts, item{kBlock, b, fmt.Sprintf("header %d", m)})
	}
	h2 := append([]byte{2, 1}, key[:]...)
	for _, cnt := range []uint64{0, 1, 2, 65535, 65536, 1 << 33} {
		starts = append(starts, item{kBlock, append(append([]byte{}, h2...), parentHeader(cnt)...), fmt.Sprintf("parent of %d transactions", cnt)})
	}
	al := []byte{0, 1, 2, 3, 5, 33, 0x80, 0xff}
	depth := 6
	if c.Thorough {
		depth = 8
	}
	for _, s := range starts {
		for d := 1; d <= depth; d++ {
			n := 1
			for k := 0; k < d; k++ {
				n *= len(al)
			}
			c.Each("structural bytes after "+s.name, n, func(w, i int) {
				b := append([]byte{}, s.b...)
				for k := 0; k < d; k++ {
					b = append(b, al[i%len(al)])
					i /= len(al)
				}
				decode(w, s.kind, b, "after "+s.name)
			})
		}
		c.Each("two bytes after "+s.name, 1<<16, func(w, i int) {
			decode(w, s.kind, append(append([]byte{}, s.b...), byte(i>>8), byte(i)), "after "+s.name)
		})
	}

	lap("short")
	// 2. sequences of tokens
	cb := []byte{0xff, 5}
	kin := append(append([]byte{2, 9, 2, 1, 1}, key[:]...))
	sig := txm.Sig(3)
	tokens := [][]byte{{0}, {1}, {2}, {3}, {0xff}, {0x80}, cb, kin, k2, append([]byte{5}, k2...), append([]byte{1, 5}, k2...), key[:], sig[:], {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {3, 33, 0}, append([]byte{35, 3, 33, 0}, key[:]...)}
	d := 4
	if c.Thorough {
		d = 5
	}
	n = 1
	for k := 0; k < d; k++ {
		n *= len(tokens)
	}
	for _, s := range starts {
		c.Each("tokens after "+s.name, n, func(w, i int) {
			b := append([]byte{}, s.b...)
			for k := 0; k < d; k++ {
				b = append(b, tokens[i%len(tokens)]...)
				i /= len(tokens)
			}
			decode(w, s.kind, b, "tokens after "+s.name)
		})
	}

	lap("tokens")
	// 3. valid encodings, cut and changed
	ts := templates()
	c.Cov("templates", len(ts))
	c.Each("prefixes", len(ts), func(w, i int) {
		s := ts[i]
		if decode(w, s.kind, s.b, "whole") != ref.CodecAccept {
			c.Fail(s.name+" "+show(s.b), "reference refuses its own encoding")
		}
		for k := 0; k < len(s.b); k++ {
			if v := decode(w, s.kind, s.b[:k], "prefix"); v == ref.CodecAccept {
				c.Fail(s.name, "reference accepts a prefix")
			}
		}
		decode(w, s.kind, append(append([]byte{}, s.b...), 0), "with a byte more")
		decode(w, 1-s.kind, s.b, "other kind")
	})
	c.Each("changed bytes", len(ts), func(w, i int) {
		s := ts[i]
		x := append([]byte{}, s.b...)
		// in quick runs places in the middle of long ones are thinned out
		skip := func(k int) bool {
			return !c.Thorough && len(s.b) > 400 && k > 200 && k < len(s.b)-120 && k%16 != i%16
		}
		for k := range x {
			if skip(k) {
				continue
			}
			for v := 0; v < 256; v++ {
				if !c.Thorough && len(x) > 250 && (k+v)%3 != 0 || byte(v) == s.b[k] {
					continue
				}
				x[k] = byte(v)
				decode(w, s.kind, x, fmt.Sprintf("byte %d changed", k))
			}
			x[k] = s.b[k]
		}
		for k := 0; k <= len(x); k++ {
			if skip(k) {
				continue
			}
			for _, v := range []byte{0, 1, 2, 3, 0x80, 0xff} {
				decode(w, s.kind, append(append(append([]byte{}, x[:k]...), v), x[k:]...), fmt.Sprintf("byte put in at %d", k))
			}
			if k < len(x) {
				decode(w, s.kind, append(append([]byte{}, x[:k]...), x[k+1:]...), fmt.Sprintf("byte %d cut out", k))
			}
		}
	})
	c.Each("numbers put in", len(ts), func(w, i int) {
		s := ts[i]
		for k := range s.b {
			if k > 260 && !c.Thorough {
				break
			}
			for _, nb := range numbers {
				decode(w, s.kind, append(append(append([]byte{}, s.b[:k]...), nb...), s.b[k+1:]...), fmt.Sprintf("number at %d", k))
			}
		}
	})
	lap("changes")
	// pairs of changes in the small ones
	var smalls []item
	limit := 90
	if c.Thorough {
		limit = 320
	}
	for _, s := range ts {
		if len(s.b) <= limit {
			smalls = append(smalls, s)
		}
	}
	pv := []byte{0, 1, 0xff}
	if c.Thorough {
		pv = []byte{0, 1, 2, 3, 0xff}
	}
	c.Each("two bytes changed", len(smalls), func(w, i int) {
		s := smalls[i]
		x := append([]byte{}, s.b...)
		for a := 0; a < len(x); a++ {
			for _, va := range pv {
				x[a] = va
				for b := a + 1; b < len(x); b++ {
					for _, vb := range pv {
						x[b] = vb
						decode(w, s.kind, x, fmt.Sprintf("bytes %d and %d changed", a, b))
					}
					x[b] = s.b[b]
				}
			}
			x[a] = s.b[a]
		}
	})

	lap("pairs")
	// 4. parent blocks: extra fields without or with a bad merge-mining tag, depths, counts
	root := txm.Fill(9)
	tag := func(depth ...byte) []byte {
		return append(append([]byte{3, byte(32 + len(depth))}, depth...), root[:]...)
	}
	pk := append([]byte{1}, key[:]...)
	parts := [][]byte{{}, pk, {2, 2, 8, 9}, tag(0), tag(1), tag(2), tag(127), {0, 0}, {0}, {4}, {3}, {3, 33}, tag(0)[:34], pk[:20], {2, 5, 1}, {2}, append([]byte{2, 35}, tag(1)...), append([]byte{2, 200, 1}, txmBytes(200)...), append([]byte{2, 200}, txmBytes(200)...), append([]byte{2, 255, 1}, txmBytes(255)...), append([]byte{2, 128, 2}, txmBytes(256)...), append([]byte{1}, tag(1)[:32]...), {3, 0}, append([]byte{3, 32}, root[:]...), append([]byte{4}, tag(0)...)}
	np := 3
	if c.Thorough {
		np = 4
	}
	n = 1
	for k := 0; k < np; k++ {
		n *= len(parts)
	}
	c.Each("parent extras", n, func(w, i int) {
		var ex []byte
		for k := 0; k < np; k++ {
			ex = append(ex, parts[i%len(parts)]...)
			i /= len(parts)
		}
		for _, chain := range []int{0, 1, 2} {
			p := *txm.Parents(0)[0]
			p.TxCount, p.Branch, p.Tx.Extra, p.Chain = 1, nil, ex, txm.Hashes(chain)
			b := ref.Block{Major: 2, Prev: txm.Fill(3), Parent: &p, Base: txm.Bases()[0]}
			decode(w, kBlock, b.Bytes(), "parent extra")
		}
	})
	depths := []uint64{}
	for i := uint64(0); i < 1100; i++ {
		depths = append(depths, i)
	}
	for s := uint(11); s < 64; s++ {
		for _, d := range []uint64{^uint64(0), 0, 1, 2, 127, 128, 255, 256} {
			depths = append(depths, uint64(1)<<s+d)
		}
	}
	c.Each("parent depths", len(depths), func(w, i int) {
		d := depths[i]
		var v []byte
		for x := d; ; x >>= 7 {
			if x < 0x80 {
				v = append(v, byte(x))
				break
			}
			v = append(v, byte(x)|0x80)
		}
		for _, chain := range []uint64{0, d & 0x7f, d & 0xff, d & 0x1ff, d % 2048} {
			p := *txm.Parents(0)[0]
			p.TxCount, p.Branch, p.Chain = 1, nil, txm.Hashes(int(chain))
			p.Tx.Extra = append(append([]byte{3, 33}, v...), root[:]...)
			b := ref.Block{Major: 2, Prev: txm.Fill(3), Parent: &p, Base: txm.Bases()[0]}
			decode(w, kBlock, b.Bytes(), fmt.Sprintf("merge-mining depth %d, branch of %d", d, chain))
		}
	})
	c.Each("parent counts", 70000, func(w, i int) {
		p := *txm.Parents(0)[0]
		p.Tx.Extra, p.Chain = txm.MergeExtra(0), nil
		for _, d := range []int{-1, 0, 1} {
			nb := ref.TreeDepth(uint64(i)) + d
			if nb < 0 || i > 2000 && i%97 != 0 && i < 65500 && !c.Thorough {
				continue
			}
			b := append([]byte{2, 1}, key[:]...)
			b = append(b, parentHeader(uint64(i))...)
			for _, h := range txm.Hashes(nb) {
				b = append(b, h[:]...)
			}
			b = append(b, p.Tx.Prefix()...)
			b = append(b, txm.Bases()[0].Bytes()...)
			b = append(b, 0)
			decode(w, kBlock, b, fmt.Sprintf("parent of %d transactions, branch of %d", i, nb))
		}
	})

	lap("parents")
	// 5. memory: every number replaced with huge ones, one at a time
	for _, s := range ts {
		if len(s.b) > 400 && !c.Thorough {
			continue
		}
		for k := range s.b {
			for ni, nb := range numbers[17:] {
				if !c.Thorough && (ni+k)%4 != 0 {
					continue
				}
				memory(s.kind, append(append(append([]byte{}, s.b[:k]...), nb...), s.b[k+1:]...), fmt.Sprintf("number at %d", k))
				memory(s.kind, append(append([]byte{}, s.b[:k]...), nb...), fmt.Sprintf("number at %d, then nothing", k))
			}
		}
		if c.Expired() {
			c.Cap("memory: stopped by the time limit")
			break
		}
	}
	pats := [][]byte{{0}, {1}, {2}, {3}, {0xff}, {0xff, 1}, {0x80}, append([]byte{2, 0, 0}, key[:]...), append([]byte{0}, k2...), {2, 1, 0x80, 0x80, 0x40}, key[:]}
	for _, s := range starts {
		for _, cnt := range []uint64{0, 1, 100, 1000, 16384, 49999, 50001, 1 << 20, 1 << 28, 1 << 31, 1 << 40, 1 << 60, 1<<64 - 1} {
			for _, p := range pats {
				b := append(append([]byte{}, s.b...), ref.Varint(cnt)...)
				for k := 50000/len(p) + 1; k > 0; k-- {
					b = append(b, p...)
				}
				how := fmt.Sprintf("%d and %x repeated after %s", cnt, p, s.name)
				memory(s.kind, b, how)
				decode(0, s.kind, b, how)
			}
		}
	}
	c.Cov("largest memory per byte", maxRatio)

	lap("memory")
	// 6. real blocks, when they are there
	for _, f := range []string{"cryptonote/fixtures/block_200054.dat", "cryptonote/fixtures/block_105385.dat", "cryptonote/fixtures/block_60001.dat", "p2p/fixtures/block_20.dat", "p2p/fixtures/block_123.dat"} {
		b, err := os.ReadFile(filepath.Join(os.Getenv("REPO"), f))
		if err != nil {
			continue
		}
		if decode(0, kBlock, b, f) != ref.CodecAccept {
			c.Fail(f, "reference refuses a block of the network")
		}
		c.Each("prefixes of "+f, len(b), func(w, i int) {
			if decode(w, kBlock, b[:i], "prefix of "+f) == ref.CodecAccept {
				c.Fail(f, "reference accepts a prefix")
			}
			x := append([]byte{}, b...)
			for v := 0; v < 256; v++ {
				if !c.Thorough && len(b) > 400 && (i+v)%4 != 0 {
					continue
				}
				x[i] = byte(v)
				decode(w, kBlock, x, fmt.Sprintf("byte %d of %s changed", i, f))
			}
			for _, nb := range numbers {
				decode(w, kBlock, append(append(append([]byte{}, b[:i]...), nb...), b[i+1:]...), fmt.Sprintf("number at %d of %s", i, f))
			}
		})
	}
	c.Cov("verdicts (refuse, accept, open) of transactions and blocks", seen)
	c.Done()
}
