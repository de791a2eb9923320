//go:build go1.21

// Package txm turns reference blocks and transactions into the repository's values.
package txm

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
)

func prefix(t *ref.Tx) cryptonote.TransactionPrefix {
	p := cryptonote.TransactionPrefix{Version: t.Version, UnlockHeight: t.Unlock, Extra: t.Extra}
	for _, in := range t.Ins {
		if in.Coinbase {
			p.Inputs = append(p.Inputs, cryptonote.InputCoinbase{BlockIndex: in.Index})
			continue
		}
		p.Inputs = append(p.Inputs, cryptonote.InputKey{Amount: in.Amount, OutputIndexes: in.Offs, KeyImage: crypto.KeyImage(in.Image)})
	}
	for _, o := range t.Outs {
		p.Outputs = append(p.Outputs, cryptonote.TransactionOutput{Amount: o.Amount, Target: cryptonote.OutputKey{PublicKey: crypto.PublicKey(o.Key)}})
	}
	return p
}

func sig(x [64]byte) (s crypto.Signature) {
	copy(s.C[:], x[:32])
	copy(s.R[:], x[32:])
	return
}

func Tx(t *ref.Tx) *cryptonote.Transaction {
	x := &cryptonote.Transaction{TransactionPrefix: prefix(t)}
	for _, s := range t.Sigs {
		l := []crypto.Signature{}
		for _, y := range s {
			l = append(l, sig(y))
		}
		x.TransactionSignatures = append(x.TransactionSignatures, l)
	}
	return x
}

func hashes(l []ref.Hash) []crypto.Hash {
	var out []crypto.Hash
	for _, h := range l {
		out = append(out, crypto.Hash(h))
	}
	return out
}

func Block(b *ref.Block) *cryptonote.Block {
	x := &cryptonote.Block{
		BlockHeader: cryptonote.BlockHeader{
			MajorVersion: b.Major, MinorVersion: b.Minor, Timestamp: b.TS, PreviousBlockHash: crypto.Hash(b.Prev), Nonce: b.Nonce,
		},
		BaseTransaction:    *Tx(&b.Base),
		TransactionsHashes: hashes(b.Hashes),
	}
	if b.Major >= 5 {
		s := sig(b.Sig)
		x.Signature = &s
	}
	if p := b.Parent; p != nil {
		tp := prefix(&p.Tx)
		x.Parent = &cryptonote.ParentBlock{
			MajorVersion: p.Major, MinorVersion: p.Minor, Timestamp: p.TS, Nonce: p.Nonce, Prev: crypto.Hash(p.Prev),
			TransactionsCount: p.TxCount, BaseTransactionBranch: hashes(p.Branch),
			BaseTransaction: cryptonote.BaseTransaction{TransactionPrefix: &tp}, BlockchainBranch: hashes(p.Chain),
		}
		x.Timestamp, x.Nonce = p.TS, p.Nonce
	}
	return x
}

func FromPrefix(p *cryptonote.TransactionPrefix) (t ref.Tx, ok bool) {
	t = ref.Tx{Version: p.Version, Unlock: p.UnlockHeight, Extra: p.Extra}
	for _, in := range p.Inputs {
		switch x := in.(type) {
		case cryptonote.InputCoinbase:
			t.Ins = append(t.Ins, ref.TxIn{Coinbase: true, Index: x.BlockIndex})
		case cryptonote.InputKey:
			t.Ins = append(t.Ins, ref.TxIn{Amount: x.Amount, Offs: x.OutputIndexes, Image: [32]byte(x.KeyImage)})
		default:
			return t, false
		}
	}
	for _, o := range p.Outputs {
		k, good := o.Target.(cryptonote.OutputKey)
		if !good {
			return t, false
		}
		t.Outs = append(t.Outs, ref.TxOut{Amount: o.Amount, Key: [32]byte(k.PublicKey)})
	}
	return t, true
}

func FromTx(x *cryptonote.Transaction) (t ref.Tx, ok bool) {
	t, ok = FromPrefix(&x.TransactionPrefix)
	for _, s := range x.TransactionSignatures {
		var l [][64]byte
		for _, y := range s {
			var z [64]byte
			copy(z[:32], y.C[:])
			copy(z[32:], y.R[:])
			l = append(l, z)
		}
		t.Sigs = append(t.Sigs, l)
	}
	return t, ok
}

func fromHashes(l []crypto.Hash) []ref.Hash {
	var out []ref.Hash
	for _, h := range l {
		out = append(out, ref.Hash(h))
	}
	return out
}

func FromBlock(x *cryptonote.Block) (b ref.Block, ok bool) {
	b = ref.Block{Major: x.MajorVersion, Minor: x.MinorVersion, TS: x.Timestamp, Prev: ref.Hash(x.PreviousBlockHash), Nonce: x.Nonce, Hashes: fromHashes(x.TransactionsHashes)}
	if x.Signature != nil {
		copy(b.Sig[:32], x.Signature.C[:])
		copy(b.Sig[32:], x.Signature.R[:])
	}
	b.Base, ok = FromTx(&x.BaseTransaction)
	if !ok {
		return
	}
	if p := x.Parent; p != nil {
		if p.BaseTransaction.TransactionPrefix == nil {
			return b, false
		}
		b.Parent = &ref.Parent{Major: p.MajorVersion, Minor: p.MinorVersion, TS: p.Timestamp, Prev: ref.Hash(p.Prev), Nonce: p.Nonce, TxCount: p.TransactionsCount, Branch: fromHashes(p.BaseTransactionBranch), Chain: fromHashes(p.BlockchainBranch)}
		b.Parent.Tx, ok = FromPrefix(p.BaseTransaction.TransactionPrefix)
	}
	return b, ok
}

// EqualTx compares; empty and missing lists are the same.
func EqualTx(a, b *ref.Tx) bool {
	if a.Version != b.Version || a.Unlock != b.Unlock || string(a.Extra) != string(b.Extra) || len(a.Ins) != len(b.Ins) || len(a.Outs) != len(b.Outs) {
		return false
	}
	for i := range a.Ins {
		x, y := a.Ins[i], b.Ins[i]
		if x.Coinbase != y.Coinbase || x.Index != y.Index || x.Amount != y.Amount || x.Image != y.Image || len(x.Offs) != len(y.Offs) {
			return false
		}
		for k := range x.Offs {
			if x.Offs[k] != y.Offs[k] {
				return false
			}
		}
	}
	for i := range a.Outs {
		if a.Outs[i] != b.Outs[i] {
			return false
		}
	}
	at := func(s [][][64]byte, i int) [][64]byte {
		if i < len(s) {
			return s[i]
		}
		return nil
	}
	for i := 0; i < len(a.Sigs) || i < len(b.Sigs); i++ {
		x, y := at(a.Sigs, i), at(b.Sigs, i)
		if len(x) != len(y) {
			return false
		}
		for k := range x {
			if x[k] != y[k] {
				return false
			}
		}
	}
	return true
}

func equalHashes(a, b []ref.Hash) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func EqualBlock(a, b *ref.Block) bool {
	if a.Major != b.Major || a.Minor != b.Minor || a.TS != b.TS || a.Prev != b.Prev || a.Nonce != b.Nonce || a.Sig != b.Sig {
		return false
	}
	if !EqualTx(&a.Base, &b.Base) || !equalHashes(a.Hashes, b.Hashes) || (a.Parent == nil) != (b.Parent == nil) {
		return false
	}
	if p, q := a.Parent, b.Parent; p != nil {
		if p.Major != q.Major || p.Minor != q.Minor || p.TS != q.TS || p.Prev != q.Prev || p.Nonce != q.Nonce || p.TxCount != q.TxCount {
			return false
		}
		return equalHashes(p.Branch, q.Branch) && equalHashes(p.Chain, q.Chain) && EqualTx(&p.Tx, &q.Tx)
	}
	return true
}
