//go:build go1.21

package ref

// Blocks and transactions by the CryptoNote format.

type TxIn struct {
	Coinbase bool
	Index    uint32
	Amount   uint64
	Offs     []uint32
	Image    [32]byte
}

type TxOut struct {
	Amount uint64
	Key    [32]byte
}

type Tx struct {
	Version byte
	Unlock  uint64
	Ins     []TxIn
	Outs    []TxOut
	Extra   []byte
	Sigs    [][][64]byte // one list per input
}

type Parent struct {
	Major, Minor byte
	TS           uint64
	Prev         Hash
	Nonce        uint32
	TxCount      uint16
	Branch       []Hash
	Tx           Tx // prefix only
	Chain        []Hash
}

type Block struct {
	Major, Minor byte
	TS           uint64
	Prev         Hash
	Nonce        uint32
	Sig          [64]byte
	Parent       *Parent
	Base         Tx
	Hashes       []Hash
}

func u32le(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func (t *Tx) Prefix() []byte {
	b := Varint(uint64(t.Version))
	b = append(b, Varint(t.Unlock)...)
	b = append(b, Varint(uint64(len(t.Ins)))...)
	for _, in := range t.Ins {
		if in.Coinbase {
			b = append(b, 0xff)
			b = append(b, Varint(uint64(in.Index))...)
			continue
		}
		b = append(b, 2)
		b = append(b, Varint(in.Amount)...)
		b = append(b, Varint(uint64(len(in.Offs)))...)
		for _, o := range in.Offs {
			b = append(b, Varint(uint64(o))...)
		}
		b = append(b, in.Image[:]...)
	}
	b = append(b, Varint(uint64(len(t.Outs)))...)
	for _, o := range t.Outs {
		b = append(b, Varint(o.Amount)...)
		b = append(b, 2)
		b = append(b, o.Key[:]...)
	}
	b = append(b, Varint(uint64(len(t.Extra)))...)
	return append(b, t.Extra...)
}

func (t *Tx) Bytes() []byte {
	b := t.Prefix()
	for _, s := range t.Sigs {
		for _, x := range s {
			b = append(b, x[:]...)
		}
	}
	return b
}

func (t *Tx) Hash() Hash       { return Keccak(t.Bytes()) }
func (t *Tx) PrefixHash() Hash { return Keccak(t.Prefix()) }

// TreeDepth is the depth of the branch of a tree of n leaves.
func TreeDepth(n uint64) int {
	d := 0
	for n > 1 {
		n >>= 1
		d++
	}
	return d
}

// RootFromBranch folds a branch (nearest to the root first) onto a leaf.
func RootFromBranch(leaf Hash, branch []Hash) Hash {
	for i := len(branch) - 1; i >= 0; i-- {
		leaf = Keccak(leaf[:], branch[i][:])
	}
	return leaf
}

func (p *Parent) bytes(hashing bool) []byte {
	b := Varint(uint64(p.Major))
	b = append(b, Varint(uint64(p.Minor))...)
	b = append(b, Varint(p.TS)...)
	b = append(b, p.Prev[:]...)
	b = append(b, u32le(p.Nonce)...)
	if hashing {
		r := RootFromBranch(p.Tx.PrefixHash(), p.Branch)
		b = append(b, r[:]...)
	}
	b = append(b, Varint(uint64(p.TxCount))...)
	for _, h := range p.Branch {
		b = append(b, h[:]...)
	}
	b = append(b, p.Tx.Prefix()...)
	for _, h := range p.Chain {
		b = append(b, h[:]...)
	}
	return b
}

// ParentSize is the size of the parent block.
func (b *Block) ParentSize() int {
	if b.Parent == nil {
		return 0
	}
	return len(b.Parent.bytes(false))
}

func (b *Block) header() []byte {
	x := Varint(uint64(b.Major))
	x = append(x, Varint(uint64(b.Minor))...)
	if b.Major == 2 || b.Major == 3 {
		return append(x, b.Prev[:]...)
	}
	x = append(x, Varint(b.TS)...)
	x = append(x, b.Prev[:]...)
	return append(x, u32le(b.Nonce)...)
}

func (b *Block) Bytes() []byte {
	x := b.header()
	if b.Major >= 5 {
		x = append(x, b.Sig[:]...)
	}
	if b.Major == 2 || b.Major == 3 {
		x = append(x, b.Parent.bytes(false)...)
	}
	x = append(x, b.Base.Bytes()...)
	x = append(x, Varint(uint64(len(b.Hashes)))...)
	for _, h := range b.Hashes {
		x = append(x, h[:]...)
	}
	return x
}

// Hashing is the part of the block its identifier and its miner's signature are made of.
func (b *Block) Hashing() []byte {
	x := b.header()
	r := TreeHash(append([]Hash{b.Base.Hash()}, b.Hashes...))
	x = append(x, r[:]...)
	return append(x, Varint(uint64(len(b.Hashes)+1))...)
}

func (b *Block) ID() Hash {
	x := b.Hashing()
	if b.Major == 2 || b.Major == 3 {
		x = append(x, b.Parent.bytes(true)...)
	}
	return Keccak(Varint(uint64(len(x))), x)
}

// Decoding

type CodecVerdict int

const (
	CodecReject CodecVerdict = iota
	CodecAccept
	CodecOpen
)

type codec struct {
	b    []byte
	open bool
}

type codecStop struct{}

func (d *codec) fail() { panic(codecStop{}) }

func (d *codec) take(n uint64) []byte {
	if n > uint64(len(d.b)) {
		d.fail()
	}
	x := d.b[:n]
	d.b = d.b[n:]
	return x
}

// varint reads a number not above max.
func (d *codec) varint(max uint64) uint64 {
	v := uint64(0)
	for i := 0; ; i++ {
		c := d.take(1)[0]
		if i == 9 && c > 1 || i > 9 {
			d.fail()
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			if i > 0 && c == 0 {
				d.open = true
			}
			break
		}
	}
	if v > max {
		d.fail()
	}
	return v
}

const maxU64 = 1<<64 - 1

func (d *codec) hash() (h Hash) { copy(h[:], d.take(32)); return }

func (d *codec) count() uint64 {
	n := d.varint(maxU64)
	if n > uint64(len(d.b)) {
		d.fail()
	}
	return n
}

func (d *codec) prefix() (t Tx) {
	t.Version = byte(d.varint(255))
	t.Unlock = d.varint(maxU64)
	n := d.count()
	for i := uint64(0); i < n; i++ {
		var in TxIn
		switch d.take(1)[0] {
		case 0xff:
			in.Coinbase = true
			in.Index = uint32(d.varint(1<<32 - 1))
		case 2:
			in.Amount = d.varint(maxU64)
			k := d.varint(maxU64)
			for ; k > 0; k-- {
				in.Offs = append(in.Offs, uint32(d.varint(1<<32-1)))
			}
			copy(in.Image[:], d.take(32))
		default:
			d.fail()
		}
		t.Ins = append(t.Ins, in)
	}
	n = d.count()
	for i := uint64(0); i < n; i++ {
		var o TxOut
		o.Amount = d.varint(maxU64)
		if d.varint(maxU64) != 2 {
			d.fail()
		}
		copy(o.Key[:], d.take(32))
		t.Outs = append(t.Outs, o)
	}
	n = d.count()
	t.Extra = append([]byte{}, d.take(n)...)
	return
}

func (d *codec) tx() (t Tx) {
	t = d.prefix()
	if t.Version > 1 {
		d.fail()
	}
	if t.Version == 0 {
		d.open = true
	}
	for _, in := range t.Ins {
		var s [][64]byte
		if len(t.Ins) == 1 && in.Coinbase {
			break
		}
		for range in.Offs {
			var x [64]byte
			copy(x[:], d.take(64))
			s = append(s, x)
		}
		t.Sigs = append(t.Sigs, s)
	}
	return
}

// MergeTag finds the last merge-mining tag of an extra field made of well-formed fields.
// open means the field has a form whose treatment is left open.
func MergeTag(x []byte) (depth uint64, ok, open bool) {
	found := false
	for len(x) > 0 {
		switch x[0] {
		case 0:
			if len(x) > 255 {
				return 0, false, true
			}
			for _, b := range x {
				if b != 0 {
					return 0, false, false
				}
			}
			x = nil
		case 1:
			if len(x) < 33 {
				return 0, false, false
			}
			x = x[33:]
		case 2:
			n, k, good := uint64(0), 1, false
			for ; k < len(x) && k <= 9; k++ {
				n |= uint64(x[k]&0x7f) << (7 * uint(k-1))
				if x[k] < 0x80 {
					good = true
					if k > 1 && x[k] == 0 {
						return 0, false, true // not in shortest form
					}
					break
				}
			}
			if !good || n > 255 || uint64(len(x)-k-1) < n {
				return 0, false, false
			}
			x = x[k+1+int(n):]
		case 3:
			if len(x) < 35 {
				return 0, false, false
			}
			if x[1] == 33 && x[2] >= 0x80 {
				// The depth takes more than one byte. Whether such a tag is well-formed is left open,
				// but a depth above 256 is refused either way.
				v, k := uint64(0), 2
				for ; k < len(x) && x[k] >= 0x80 && k < 12; k++ {
					v |= uint64(x[k]&0x7f) << (7 * uint(k-2))
				}
				if k < len(x) && k < 11 && x[k] != 0 {
					v |= uint64(x[k]) << (7 * uint(k-2))
					if v > 256 && len(x) == k+1+32 {
						return 0, false, false
					}
				}
			}
			if x[1] != 33 || x[2] >= 0x80 {
				return 0, false, true
			}
			depth, found = uint64(x[2]), true
			x = x[35:]
		default:
			return 0, false, false
		}
	}
	return depth, found, false
}

func (d *codec) parent() *Parent {
	p := &Parent{}
	p.Major = byte(d.varint(255))
	p.Minor = byte(d.varint(255))
	p.TS = d.varint(maxU64)
	p.Prev = d.hash()
	p.Nonce = uint32(leUint(d.take(4)))
	n := d.varint(65535)
	if n < 1 {
		d.fail()
	}
	p.TxCount = uint16(n)
	for i := TreeDepth(n); i > 0; i-- {
		p.Branch = append(p.Branch, d.hash())
	}
	p.Tx = d.prefix()
	if p.Tx.Version != 1 {
		d.open = true
	}
	depth, ok, open := MergeTag(p.Tx.Extra)
	if open {
		d.open = true
		d.fail()
	}
	if !ok {
		d.fail()
	}
	for ; depth > 0; depth-- {
		p.Chain = append(p.Chain, d.hash())
	}
	return p
}

func (d *codec) block() (b Block) {
	b.Major = byte(d.varint(255))
	b.Minor = byte(d.varint(255))
	if b.Major < 1 || b.Major > 5 {
		d.fail()
	}
	if b.Major == 2 || b.Major == 3 {
		b.Prev = d.hash()
		b.Parent = d.parent()
		b.TS, b.Nonce = b.Parent.TS, b.Parent.Nonce
	} else {
		b.TS = d.varint(maxU64)
		b.Prev = d.hash()
		b.Nonce = uint32(leUint(d.take(4)))
	}
	if b.Major == 5 {
		copy(b.Sig[:], d.take(64))
	}
	b.Base = d.tx()
	n := d.varint(maxU64)
	if n > uint64(len(d.b)) {
		d.fail()
	}
	for ; n > 0; n-- {
		b.Hashes = append(b.Hashes, d.hash())
	}
	return
}

func (d *codec) run(f func()) (v CodecVerdict) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(codecStop); !ok {
				panic(r)
			}
			v = CodecReject
			if d.open {
				v = CodecOpen
			}
		}
	}()
	f()
	if d.open {
		return CodecOpen
	}
	return CodecAccept
}

// DecodeTx reads a transaction; rest is what follows it.
func DecodeTx(b []byte) (t Tx, rest []byte, v CodecVerdict) {
	d := &codec{b: b}
	v = d.run(func() { t = d.tx() })
	return t, d.b, v
}

func DecodeBlock(b []byte) (x Block, rest []byte, v CodecVerdict) {
	d := &codec{b: b}
	v = d.run(func() { x = d.block() })
	return x, d.b, v
}
