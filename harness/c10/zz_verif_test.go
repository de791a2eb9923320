//go:build go1.21

package c10

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/sirupsen/logrus"
)

var c *vlib.Ctx

// Each worker reads everything into one object, too.
var (
	usedTx    = map[int]*cryptonote.Transaction{}
	usedBlock = map[int]*cryptonote.Block{}
)

func clip(b []byte) []byte { return b[:min(len(b), 700)] }

// tx checks one transaction and returns its identifier.
func tx(w int, t *ref.Tx) ref.Hash {
	want := t.Bytes()
	desc := func() string { return fmt.Sprintf("transaction %x (%d bytes)", clip(want), len(want)) }
	c.Set(w, desc())
	x := txm.Tx(t)
	got := x.Serialize()
	if !bytes.Equal(got, want) {
		c.Fail(desc(), "serialized as %x", clip(got))
	}
	if x.Size() != uint64(len(want)) {
		c.Fail(desc(), "size is %d", x.Size())
	}
	id, pid := ref.Hash(*x.Hash()), ref.Hash(*x.TransactionPrefix.Hash())
	if id != t.Hash() {
		c.Fail(desc(), "identifier is %x, expected %x", id, t.Hash())
	}
	if pid != t.PrefixHash() {
		c.Fail(desc(), "prefix hash is %x, expected %x", pid, t.PrefixHash())
	}
	if ref.Hash(*x.Hash()) != id || ref.Hash(*x.TransactionPrefix.Hash()) != pid || !bytes.Equal(x.Serialize(), want) {
		c.Fail(desc(), "identifier or bytes change on the second call")
	}
	tail := []byte{0xaa, 0xbb}
	for k, rest := range [][]byte{nil, tail, tail[:1]} {
		r := bytes.NewReader(append(append([]byte{}, want...), rest...))
		y := new(cryptonote.Transaction)
		desc := desc
		if k == 2 {
			y = usedTx[w] // holds the transaction read before
			if len(want)%3 == 0 {
				_ = y.Deserialize(bytes.NewReader(want[:len(want)-1])) // or a part of this one
			}
			desc = func() string { return fmt.Sprintf("into a used one, transaction %x (%d bytes)", clip(want), len(want)) }
		}
		if err := y.Deserialize(r); err != nil {
			c.Fail(desc(), "own serialization is refused: %v", err)
		}
		if r.Len() != len(rest) {
			c.Fail(desc(), "%d bytes are left after reading it, expected %d", r.Len(), len(rest))
		}
		back, ok := txm.FromTx(y)
		if !ok || !txm.EqualTx(&back, t) {
			c.Fail(desc(), "read back as %+v", back)
		}
		if len(y.Inputs) != len(t.Ins) || len(y.Outputs) != len(t.Outs) {
			c.Fail(desc(), "read back with %d inputs, %d outputs", len(y.Inputs), len(y.Outputs))
		}
		if ref.Hash(*y.TransactionPrefix.Hash()) != pid || ref.Hash(*y.Hash()) != id || y.Size() != uint64(len(want)) || !bytes.Equal(y.Serialize(), want) {
			c.Fail(desc(), "identifier, size or bytes change on the way")
		}
	}
	c.Eval(1)
	c.Distinct("t" + string(want))
	return id
}

func blk(w int, b *ref.Block) ref.Hash {
	want := b.Bytes()
	desc := func() string { return fmt.Sprintf("block %x (%d bytes)", clip(want), len(want)) }
	c.Set(w, desc())
	x := txm.Block(b)
	got := x.Serialize()
	if !bytes.Equal(got, want) {
		c.Fail(desc(), "serialized as %x", clip(got))
	}
	id := ref.Hash(*x.Hash())
	if id != b.ID() {
		c.Fail(desc(), "identifier is %x, expected %x", id, b.ID())
	}
	if h := x.HashingBytes(); !bytes.Equal(h, b.Hashing()) {
		c.Fail(desc(), "hashed bytes are %x, expected %x", clip(h), clip(b.Hashing()))
	}
	if ref.Hash(*x.Hash()) != id || !bytes.Equal(x.Serialize(), want) {
		c.Fail(desc(), "identifier or bytes change on the second call")
	}
	for k := 0; k < 2; k++ {
		desc := desc
		r := bytes.NewReader(append(append([]byte{}, want...), 7))
		y := new(cryptonote.Block)
		if k == 1 {
			y = usedBlock[w]
			if len(want)%3 == 0 {
				_ = y.Deserialize(bytes.NewReader(want[:len(want)-1])) // or a part of this one
			}
			desc = func() string { return fmt.Sprintf("into a used one, block %x (%d bytes)", clip(want), len(want)) }
		}
		if err := y.Deserialize(r); err != nil {
			c.Fail(desc(), "own serialization is refused: %v", err)
		}
		if r.Len() != 1 {
			c.Fail(desc(), "%d bytes are left after reading it, expected 1", r.Len())
		}
		back, ok := txm.FromBlock(y)
		full := *b
		if b.Parent != nil {
			full.TS, full.Nonce = b.Parent.TS, b.Parent.Nonce
		}
		if !ok || !txm.EqualBlock(&back, &full) {
			c.Fail(desc(), "read back as %+v, expected %+v", back, full)
		}
		if ref.Hash(*y.Hash()) != id || !bytes.Equal(y.Serialize(), want) {
			c.Fail(desc(), "identifier or bytes change on the way")
		}
		wantIdx := uint32(0)
		if len(b.Base.Ins) == 1 && b.Base.Ins[0].Coinbase {
			wantIdx = b.Base.Ins[0].Index
		}
		if y.Index() != wantIdx || x.Index() != wantIdx {
			c.Fail(desc(), "index is %d, expected %d", y.Index(), wantIdx)
		}
	}
	c.Eval(1)
	c.Distinct("b" + string(want))
	return id
}

// change returns copies of the transaction with one thing changed.
func changes(t ref.Tx) []ref.Tx {
	var out []ref.Tx
	cp := func() ref.Tx {
		x := t
		x.Ins = append([]ref.TxIn{}, t.Ins...)
		for i := range x.Ins {
			x.Ins[i].Offs = append([]uint32{}, x.Ins[i].Offs...)
		}
		x.Outs = append([]ref.TxOut{}, t.Outs...)
		x.Extra = append([]byte{}, t.Extra...)
		x.Sigs = nil
		for _, s := range t.Sigs {
			x.Sigs = append(x.Sigs, append([][64]byte{}, s...))
		}
		return x
	}
	add := func(f func(x *ref.Tx)) {
		x := cp()
		f(&x)
		out = append(out, x)
	}
	add(func(x *ref.Tx) { x.Unlock ^= 1 })
	add(func(x *ref.Tx) { x.Unlock ^= 1 << 63 })
	for i := range t.Ins {
		i := i
		if t.Ins[i].Coinbase {
			add(func(x *ref.Tx) { x.Ins[i].Index ^= 1 })
			add(func(x *ref.Tx) { x.Ins[i].Index ^= 1 << 31 })
			continue
		}
		add(func(x *ref.Tx) { x.Ins[i].Amount ^= 1 })
		add(func(x *ref.Tx) { x.Ins[i].Amount ^= 1 << 40 })
		for _, k := range []int{0, 15, 31} {
			k := k
			add(func(x *ref.Tx) { x.Ins[i].Image[k] ^= 1 << 7 })
		}
		for k := range t.Ins[i].Offs {
			k := k
			add(func(x *ref.Tx) { x.Ins[i].Offs[k] ^= 1 })
			add(func(x *ref.Tx) { x.Ins[i].Offs[k] ^= 1 << 31 })
			if k > 0 && t.Ins[i].Offs[k] != t.Ins[i].Offs[k-1] {
				add(func(x *ref.Tx) { o := x.Ins[i].Offs; o[k], o[k-1] = o[k-1], o[k] })
			}
		}
		for k := range t.Sigs[i] {
			k := k
			for _, p := range []int{0, 31, 32, 63} {
				p := p
				add(func(x *ref.Tx) { x.Sigs[i][k][p] ^= 1 })
			}
		}
	}
	for i := range t.Outs {
		i := i
		add(func(x *ref.Tx) { x.Outs[i].Amount ^= 1 })
		add(func(x *ref.Tx) { x.Outs[i].Amount ^= 1 << 63 })
		add(func(x *ref.Tx) { x.Outs[i].Key[0] ^= 1 })
		add(func(x *ref.Tx) { x.Outs[i].Key[31] ^= 0x80 })
		if i > 0 && t.Outs[i] != t.Outs[i-1] {
			add(func(x *ref.Tx) { x.Outs[i], x.Outs[i-1] = x.Outs[i-1], x.Outs[i] })
		}
	}
	add(func(x *ref.Tx) { x.Outs = append(x.Outs, ref.TxOut{Amount: 1, Key: txm.Fill(99)}) })
	if len(t.Outs) > 0 {
		add(func(x *ref.Tx) { x.Outs = x.Outs[1:] })
	}
	for i := range t.Extra {
		i := i
		if i > 3 && i < len(t.Extra)-2 {
			continue
		}
		add(func(x *ref.Tx) { x.Extra[i] ^= 0x10 })
	}
	add(func(x *ref.Tx) { x.Extra = append(x.Extra, 0) })
	return out
}

func TestVerif(t *testing.T) {
	c = vlib.New("C10")
	for w := 0; w < c.Workers; w++ {
		usedTx[w], usedBlock[w] = new(cryptonote.Transaction), new(cryptonote.Block)
	}
	level := 0
	if c.Thorough {
		level = 1
	}

	// 1. transactions: products
	run := func(name string, ins [][]ref.TxIn, outs [][]ref.TxOut, exs [][]byte, unl []uint64, sigs []int) {
		radix := []int{len(ins), len(outs), len(exs), len(unl), len(sigs)}
		c.Each(name, vlib.Size(radix), func(w, i int) {
			ix := vlib.Unrank(i, radix)
			x := txm.WithSigs(ref.Tx{Version: 1, Unlock: unl[ix[3]], Ins: ins[ix[0]], Outs: outs[ix[1]], Extra: exs[ix[2]]}, sigs[ix[4]])
			tx(w, &x)
		})
	}
	run("transactions", txm.Inputs(1), txm.Outputs(level), txm.Extras(level), []uint64{0, 300, 1<<64 - 1}, []int{0, 1, 2})
	run("outputs", txm.Inputs(0), txm.Outputs(1), txm.Extras(1), txm.U64, []int{3})

	// 2. every single change gives another identifier
	var bases []ref.Tx
	for i, in := range txm.Inputs(0) {
		for j, o := range txm.Outputs(0) {
			if (i+j)%2 == 0 || c.Thorough {
				bases = append(bases, txm.WithSigs(ref.Tx{Version: 1, Unlock: 9, Ins: in, Outs: o, Extra: txm.Extras(0)[(i+j)%3]}, 4))
			}
		}
	}
	c.Each("changed transactions", len(bases), func(w, i int) {
		seen := map[ref.Hash]string{tx(w, &bases[i]): string(bases[i].Bytes())}
		for _, x := range changes(bases[i]) {
			x := x
			id := tx(w, &x)
			if o, ok := seen[id]; ok && o != string(x.Bytes()) {
				c.Fail(fmt.Sprintf("%x and %x", o, x.Bytes()), "two transactions have one identifier")
			}
			seen[id] = string(x.Bytes())
		}
	})

	// 3. blocks
	parents := txm.Parents(level)
	baseTxs := txm.Bases()
	counts := []int{0, 1, 2, 3, 5}
	var plain, merged []ref.Block
	for _, major := range []byte{1, 4, 5} {
		for _, minor := range []byte{0, 1, 128, 255} {
			for ti, ts := range txm.U64 {
				for ni, nonce := range txm.U32 {
					if !c.Thorough && (ti+ni)%2 == 1 {
						continue
					}
					for bi, bt := range baseTxs {
						for ci, n := range counts {
							if !c.Thorough && (ti+bi+ci)%3 != 0 {
								continue
							}
							plain = append(plain, ref.Block{Major: major, Minor: minor, TS: ts, Prev: txm.Fill(ti), Nonce: nonce, Base: bt, Hashes: txm.Hashes(n)})
							if major == 5 {
								plain[len(plain)-1].Sig = txm.Sig(ni)
							}
						}
					}
				}
			}
		}
	}
	for _, major := range []byte{2, 3} {
		for pi, p := range parents {
			for bi, bt := range baseTxs {
				for _, n := range counts {
					for _, minor := range []byte{0, 128} {
						merged = append(merged, ref.Block{Major: major, Minor: minor, Prev: txm.Fill(pi + bi), Parent: p, Base: bt, Hashes: txm.Hashes(n)})
					}
				}
			}
		}
	}
	c.Cov("plain blocks", len(plain))
	c.Cov("merge-mined blocks", len(merged))
	c.Each("plain blocks", len(plain), func(w, i int) { blk(w, &plain[i]) })
	c.Each("merge-mined blocks", len(merged), func(w, i int) { blk(w, &merged[i]) })
	long := []int{4, 6, 7, 8, 9, 15, 16, 17, 63, 64, 126, 127, 128, 129, 255, 256, 1000}
	if c.Thorough {
		for n := 10; n < 600; n++ {
			long = append(long, n)
		}
		long = append(long, 16382, 16383, 16384)
	}
	c.Each("transaction lists", len(long)*3, func(w, i int) {
		b := ref.Block{Major: []byte{1, 3, 5}[i%3], TS: 5, Base: baseTxs[0], Hashes: txm.Hashes(long[i/3])}
		if i%3 == 1 {
			b.Parent = parents[5]
		}
		blk(w, &b)
	})

	// 4. every single change of a block gives another identifier (a version 5 signature is not part of it)
	var bb []ref.Block
	for i := 0; i < len(plain); i += len(plain) / 60 {
		bb = append(bb, plain[i])
	}
	for i := 0; i < len(merged); i += len(merged) / 60 {
		bb = append(bb, merged[i])
	}
	c.Each("changed blocks", len(bb), func(w, i int) {
		b := bb[i]
		seen := map[ref.Hash]string{blk(w, &b): string(b.Bytes())}
		try := func(f func(x *ref.Block)) {
			x := b
			x.Hashes = append([]ref.Hash{}, b.Hashes...)
			if b.Parent != nil {
				p := *b.Parent
				p.Branch = append([]ref.Hash{}, p.Branch...)
				p.Chain = append([]ref.Hash{}, p.Chain...)
				x.Parent = &p
			}
			f(&x)
			id := blk(w, &x)
			if o, ok := seen[id]; ok && o != string(x.Bytes()) {
				c.Fail(fmt.Sprintf("%x and %x", o, x.Bytes()), "two blocks have one identifier")
			}
			seen[id] = string(x.Bytes())
		}
		try(func(x *ref.Block) { x.Minor ^= 1 })
		for k := 0; k < 32; k += 31 {
			try(func(x *ref.Block) { x.Prev[k] ^= 0x40 })
		}
		if b.Parent == nil {
			for _, k := range []uint{0, 7, 32, 63} {
				try(func(x *ref.Block) { x.TS ^= 1 << k })
			}
			for _, k := range []uint{0, 8, 16, 31} {
				try(func(x *ref.Block) { x.Nonce ^= 1 << k })
			}
			for _, v := range []byte{1, 4, 5} {
				if v != b.Major {
					try(func(x *ref.Block) { x.Major, x.Sig = v, [64]byte{} })
				}
			}
		} else {
			try(func(x *ref.Block) { x.Major ^= 1 })
			try(func(x *ref.Block) { x.Parent.Major ^= 1 })
			try(func(x *ref.Block) { x.Parent.Minor ^= 1 })
			try(func(x *ref.Block) { x.Parent.TS ^= 1 })
			try(func(x *ref.Block) { x.Parent.TS ^= 1 << 50 })
			try(func(x *ref.Block) { x.Parent.Nonce ^= 1 << 31 })
			try(func(x *ref.Block) { x.Parent.Nonce ^= 1 })
			try(func(x *ref.Block) { x.Parent.Prev[5] ^= 1 })
			for k := range b.Parent.Branch {
				try(func(x *ref.Block) { x.Parent.Branch[k][k%32] ^= 1 })
			}
			for k := range b.Parent.Chain {
				if k < 3 || k == len(b.Parent.Chain)-1 {
					try(func(x *ref.Block) { x.Parent.Chain[k][k%32] ^= 1 })
				}
			}
			try(func(x *ref.Block) { x.Parent.Tx.Unlock ^= 1 })
			try(func(x *ref.Block) {
				x.Parent.Tx.Extra = append([]byte{2, 1, 5}, x.Parent.Tx.Extra...)
			})
			if b.Parent.TxCount > 3 {
				try(func(x *ref.Block) { x.Parent.TxCount ^= 1 })
			}
		}
		for k := range b.Hashes {
			try(func(x *ref.Block) { x.Hashes[k][k] ^= 1 })
			if k > 0 {
				try(func(x *ref.Block) { x.Hashes[k], x.Hashes[k-1] = x.Hashes[k-1], x.Hashes[k] })
			}
		}
		try(func(x *ref.Block) { x.Hashes = append(x.Hashes, txm.Fill(77)) })
		if len(b.Hashes) > 0 {
			try(func(x *ref.Block) { x.Hashes = x.Hashes[:len(x.Hashes)-1] })
		}
		for _, y := range changes(b.Base) {
			y := y
			try(func(x *ref.Block) { x.Base = y })
		}
	})

	// 5. real blocks and transactions, and the generated first block of both networks
	repo := os.Getenv("REPO")
	for name, want := range map[string]string{
		"cryptonote/fixtures/block_200054.dat": "231a4584e0c13325024059482fabd99188574f51336d19c0b5787f7ccc9e4dfc",
		"cryptonote/fixtures/block_105385.dat": "b8b793a00e0a1bb790987e5f6a1b551f9e397be5aa74595335094063be31f878",
		"cryptonote/fixtures/block_60001.dat":  "8e39967eb50b8a922cbfe22fe02989218345cbd61ae651ddbecf00834910ff50",
		"p2p/fixtures/block_20.dat":            "fdccbe0ae9966d138716669c8bf49dc2134a538b34dfb35c70e41f12e6605ec8",
		"p2p/fixtures/block_123.dat":           "40cd79fbbd5d0e86029255d2ad7e0410e3dae57f4758052dc8a44d72b0a5a436",
	} {
		p, err := os.ReadFile(filepath.Join(repo, name))
		if err != nil {
			continue
		}
		b, rest, v := ref.DecodeBlock(p)
		if v != ref.CodecAccept || len(rest) != 0 {
			c.Fail(name, "the reference does not read a real block")
		}
		id := blk(0, &b)
		if hex.EncodeToString(id[:]) != want {
			c.Fail(name, "the identifier of a real block is %x", id)
		}
	}
	for _, name := range []string{"cryptonote/fixtures/block_20_trans_0.dat", "p2p/fixtures/block_123_trans_0.dat", "p2p/fixtures/block_123_trans_1.dat"} {
		p, err := os.ReadFile(filepath.Join(repo, name))
		if err != nil {
			continue
		}
		x, rest, v := ref.DecodeTx(p)
		if v != ref.CodecAccept || len(rest) != 0 {
			c.Fail(name, "the reference does not read a real transaction")
		}
		tx(0, &x)
	}
	quiet := logrus.New()
	quiet.SetOutput(io.Discard)
	for _, n := range []*config.Network{config.MainNet(), config.TestNet()} {
		g, err := cryptonote.NewBlockChain(n, nil, quiet).GenesisBlock()
		if err != nil {
			c.Fail("first block", "not generated: %v", err)
		}
		b, ok := txm.FromBlock(g)
		if !ok {
			c.Fail("first block", "unknown content")
		}
		id := blk(0, &b)
		if ref.Hash(*g.Hash()) != id {
			c.Fail("first block", "identifier is %x, expected %x", *g.Hash(), id)
		}
		raw, err := hex.DecodeString(n.GenesisCoinbaseTxHex)
		if err != nil || !bytes.Equal(b.Base.Bytes(), raw) {
			c.Fail("first block", "coinbase transaction differs from the configured one")
		}
		c.Sample(fmt.Sprintf("%x %x", id, b.Bytes()))
	}
	c.Done()
}
