//go:build go1.21

package txm

import "github.com/r3volut1oner/go-karbo/zz_verif/ref"

// Fill is a 32 byte value of a pattern.
func Fill(p int) (h [32]byte) {
	for i := range h {
		switch p {
		case 0:
		case 1:
			h[i] = 0xff
		default:
			h[i] = byte(p*31 + i*7)
		}
	}
	return
}

func Sig(p int) (s [64]byte) {
	for i := range s {
		switch p {
		case 0:
		case 1:
			s[i] = 0xff
		default:
			s[i] = byte(p*13 + i*5)
		}
	}
	return
}

func Key(amount uint64, image int, offs ...uint32) ref.TxIn {
	return ref.TxIn{Amount: amount, Offs: offs, Image: Fill(image)}
}

func Coinbase(i uint32) ref.TxIn { return ref.TxIn{Coinbase: true, Index: i} }

// WithSigs completes the signatures the inputs need.
func WithSigs(t ref.Tx, p int) ref.Tx {
	t.Sigs = nil
	if len(t.Ins) == 0 || len(t.Ins) == 1 && t.Ins[0].Coinbase {
		return t
	}
	for i, in := range t.Ins {
		var l [][64]byte
		for k := range in.Offs {
			l = append(l, Sig(p+i+k))
		}
		t.Sigs = append(t.Sigs, l)
	}
	return t
}

var U64 = []uint64{0, 1, 127, 128, 16383, 16384, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 35, 1 << 56, 1 << 63, 1<<64 - 1}
var U32 = []uint32{0, 1, 127, 128, 255, 16384, 1 << 31, 1<<32 - 1}

// Inputs lists input lists.
func Inputs(level int) [][]ref.TxIn {
	out := [][]ref.TxIn{
		{},
		{Coinbase(0)}, {Coinbase(127)}, {Coinbase(128)}, {Coinbase(1<<32 - 1)},
		{Key(5, 2, 1)},
		{Key(0, 0)},
		{Key(1<<64-1, 1, 1<<32-1, 0, 127, 128)},
		{Key(7, 3, 1, 2), Key(128, 4)},
		{Key(7, 3), Key(128, 4, 5)},
		{Key(1, 3, 1, 2), Key(2, 4, 1), Key(3, 5, 1, 2, 3)},
		{Coinbase(5), Key(9, 6, 1, 2)},
		{Key(9, 6, 1), Coinbase(5)},
		{Coinbase(1), Coinbase(2)},
	}
	if level > 0 {
		for _, n := range []int{127, 128} {
			var l, m []ref.TxIn
			var o []uint32
			for i := 0; i < n; i++ {
				l = append(l, Key(uint64(i), i+2, uint32(i)))
				m = append(m, Key(uint64(i), i+2))
				o = append(o, uint32(i*i))
			}
			out = append(out, l, m, []ref.TxIn{Key(3, 3, o...)})
		}
		for _, a := range U64 {
			out = append(out, []ref.TxIn{Key(a, 4, 3)})
		}
		for _, a := range U32 {
			out = append(out, []ref.TxIn{Key(1, 4, a, a, 1)}, []ref.TxIn{Coinbase(a)})
		}
	}
	return out
}

func Outputs(level int) [][]ref.TxOut {
	o := func(a uint64, k int) ref.TxOut { return ref.TxOut{Amount: a, Key: Fill(k)} }
	out := [][]ref.TxOut{{}, {o(0, 0)}, {o(1<<64-1, 1)}, {o(128, 2), o(127, 3)}, {o(1, 2), o(1, 2), o(3, 4)}}
	if level > 0 {
		for _, n := range []int{127, 128} {
			var l []ref.TxOut
			for i := 0; i < n; i++ {
				l = append(l, o(uint64(i*i), i+2))
			}
			out = append(out, l)
		}
		for _, a := range U64 {
			out = append(out, []ref.TxOut{o(a, 5)})
		}
	}
	return out
}

func Extras(level int) [][]byte {
	var out [][]byte
	ns := []int{0, 1, 33}
	if level > 0 {
		ns = append(ns, 127, 128, 255, 256, 16383, 16384)
	}
	for _, n := range ns {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*3 + 1)
		}
		out = append(out, b)
	}
	return out
}

// MergeExtra is an extra field with a merge-mining tag.
func MergeExtra(depth byte) []byte {
	h := Fill(9)
	return append([]byte{3, 33, depth}, h[:]...)
}

// Parents lists parent blocks.
func Parents(level int) []*ref.Parent {
	var out []*ref.Parent
	counts := []uint16{1, 2, 3, 4, 255, 256, 65535}
	if level > 0 {
		counts = append(counts, 5, 7, 8, 127, 128, 511, 512, 32767, 32768)
	}
	for i, n := range counts {
		for k, depth := range []byte{0, 1, 3, 127} {
			p := &ref.Parent{Major: byte(1 + k), Minor: byte(i), TS: U64[(i*5+k*3)%len(U64)], Prev: Fill(i + 3), Nonce: U32[(i+k)%len(U32)], TxCount: n}
			for j := ref.TreeDepth(uint64(n)); j > 0; j-- {
				p.Branch = append(p.Branch, Fill(j+40))
			}
			for j := 0; j < int(depth); j++ {
				p.Chain = append(p.Chain, Fill(j+60))
			}
			p.Tx = ref.Tx{Version: 1, Unlock: uint64(i), Ins: []ref.TxIn{Coinbase(uint32(k * 1000))}, Outs: []ref.TxOut{{Amount: 5, Key: Fill(7)}}, Extra: MergeExtra(depth)}
			if i%2 == 1 {
				h := Fill(8)
				p.Tx.Extra = append(append([]byte{1}, h[:]...), p.Tx.Extra...)
			}
			if k == 3 {
				p.Major, p.Minor = 255, 128
				p.Tx.Ins = nil
			}
			if k == 2 {
				p.Tx.Outs = nil
				p.Tx.Extra = append(append([]byte{2, 3, 9, 9, 9}, MergeExtra(7)...), p.Tx.Extra...)
				p.Tx.Extra = append(p.Tx.Extra, 0, 0, 0)
			}
			out = append(out, p)
		}
	}
	return out
}

// Bases lists coinbase-like transactions.
func Bases() []ref.Tx {
	k := Fill(11)
	ex := append([]byte{1}, k[:]...)
	return []ref.Tx{
		{Version: 1, Unlock: 20, Ins: []ref.TxIn{Coinbase(10)}, Outs: []ref.TxOut{{Amount: 5, Key: Fill(4)}}, Extra: ex},
		{Version: 1, Unlock: 1<<64 - 1, Ins: []ref.TxIn{Coinbase(1<<32 - 1)}, Outs: []ref.TxOut{{Amount: 5, Key: Fill(4)}, {Amount: 1 << 62, Key: Fill(5)}}, Extra: nil},
		WithSigs(ref.Tx{Version: 1, Unlock: 0, Ins: []ref.TxIn{Key(3, 2, 1, 2)}, Extra: []byte{9}}, 3),
		{Version: 1},
	}
}

func Hashes(n int) []ref.Hash {
	var out []ref.Hash
	for i := 0; i < n; i++ {
		h := Fill(i + 20)
		h[31] = byte(i >> 8)
		out = append(out, h)
	}
	return out
}
