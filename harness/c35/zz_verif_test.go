//go:build go1.21

package c35

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

func bi(v int64) *big.Int          { return big.NewInt(v) }
func shl(v int64, k uint) *big.Int { return new(big.Int).Lsh(bi(v), k) }
func add(a, b *big.Int) *big.Int   { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int   { return new(big.Int).Sub(a, b) }

// numbers of 256 bits, those near zero, near each multiple of the order and the field's prime, and near each power
// of two; bytes of one value and single bytes; hashes.
func numbers() (out [][32]byte) {
	seen := map[[32]byte]bool{}
	put := func(v *big.Int) {
		if v.Sign() < 0 || v.BitLen() > 256 {
			return
		}
		b := ref.ScalarBytes(v)
		if !seen[b] {
			seen[b] = true
			out = append(out, b)
		}
	}
	n := int64(200)
	if c.Thorough {
		n = 2500
	}
	for v := int64(0); v < n; v++ {
		put(bi(v))
		put(sub(shl(1, 256), bi(v+1)))
	}
	near := n / 25
	for k := int64(1); k <= 15; k++ {
		m := new(big.Int).Mul(ref.Order, bi(k))
		for d := -near; d <= near; d++ {
			put(add(m, bi(d)))
		}
	}
	for k := int64(1); k <= 2; k++ {
		m := new(big.Int).Mul(ref.P25519, bi(k))
		for d := -40; d <= 40; d++ {
			put(add(m, bi(int64(d))))
			put(add(add(m, bi(int64(d))), shl(1, 255)))
		}
	}
	for k := uint(0); k < 256; k++ {
		for d := int64(-1); d <= 1; d++ {
			put(add(shl(1, k), bi(d)))
			put(sub(ref.Order, add(shl(1, k), bi(d))))
		}
	}
	step := 15
	if c.Thorough {
		step = 1
	}
	for x := 0; x < 256; x += step {
		var b [32]byte
		for i := range b {
			var one [32]byte
			one[i] = byte(x)
			put(ref.LE(one[:]))
			b[i] = byte(x)
		}
		put(ref.LE(b[:]))
		b[31] &= 15
		put(ref.LE(b[:]))
	}
	for i := int64(0); i < 2*n; i++ {
		h := ref.Keccak([]byte(fmt.Sprint("key ", i)))
		put(ref.LE(h[:]))
		h[31] &= 15
		put(ref.LE(h[:]))
	}
	return
}

func canonical(b [32]byte) bool { return ref.LE(b[:]).Cmp(ref.Order) < 0 }

func base() ref.Point {
	p, ok := ref.DecodePoint(crypto.G)
	if !ok {
		panic("base point")
	}
	return p
}

func keys(ns [][32]byte) {
	B := base()
	c.Each("keys", len(ns), func(w, i int) {
		n := ns[i]
		desc := fmt.Sprintf("%x", n)
		c.Set(w, desc)
		s := crypto.SecretKey(n)
		// the public key
		pk, err := crypto.PublicFromSecret(&s)
		if [32]byte(s) != n {
			c.Fail(desc, "the secret key is changed")
		}
		if canonical(n) != (err == nil) || (err == nil) != (pk != nil) {
			c.Fail(desc, "secret key accepted: %v (%v), must be %v", pk != nil, err, canonical(n))
		}
		if pk != nil {
			want := B.Mul(ref.LE(n[:])).Bytes()
			if [32]byte(*pk) != want {
				c.Fail(desc, "public key %x, must be %x", *pk, want)
			}
			if !pk.Check() || [32]byte(*pk) != want {
				c.Fail(desc, "public key %x does not pass its check", want)
			}
		}
		// the view key
		v := crypto.ViewFromSpend(&s)
		h := ref.Keccak(n[:])
		want := ref.ScalarBytes(new(big.Int).Mod(ref.LE(h[:]), ref.Order))
		if [32]byte(v) != want || [32]byte(s) != n || crypto.ViewFromSpend(&s) != v {
			c.Fail(desc, "view key %x, must be %x", v, want)
		}
		// as a public key or a point, and as a key image
		_, ok := ref.DecodePoint(n)
		p, q := crypto.PublicKey(n), crypto.EllipticCurvePoint(n)
		if p.Check() != ok || q.Check() != ok || [32]byte(p) != n {
			c.Fail(desc, "taken for a point: %v, must be %v", p.Check(), ok)
		}
		// its bits
		c.Eval(4)
		c.Outcome(fmt.Sprintf("secret key %v, point %v", canonical(n), ok))
		if c.Distinct(desc) {
			c.Sample(desc)
		}
	})
}

// images: a point times a number, refused when it is none.
func images(ns [][32]byte) {
	var some [][32]byte
	few := 40
	if c.Thorough {
		few = 400
	}
	for i := 0; i < few; i++ {
		some = append(some, ns[i*len(ns)/few])
	}
	for _, t := range ref.Torsion() {
		some = append(some, t.Bytes(), t.Add(base()).Bytes())
	}
	var by [][32]byte
	for _, v := range []*big.Int{bi(0), bi(1), bi(2), bi(7), bi(8), ref.Order, sub(ref.Order, bi(1)), add(ref.Order, bi(1)), shl(1, 252), shl(1, 254), sub(shl(1, 255), bi(1)), sub(shl(1, 255), bi(19))} {
		by = append(by, ref.ScalarBytes(v))
	}
	for _, x := range ns[:20] {
		x[31] &= 127
		by = append(by, x)
	}
	c.Each("images", len(some)*len(by), func(w, i int) {
		n, m := some[i/len(by)], by[i%len(by)]
		desc := fmt.Sprintf("image %x times %x", n, m)
		c.Set(w, desc)
		im, a := crypto.KeyImage(n), crypto.KeyImage(m)
		got, err := im.ScalarMult(&a)
		p, ok := ref.DecodePoint(n)
		if ok != (err == nil) || (err == nil) != (got != nil) || [32]byte(im) != n || [32]byte(a) != m {
			c.Fail(desc, "accepted: %v (%v), must be %v", got != nil, err, ok)
		}
		if got != nil && [32]byte(*got) != p.Mul(ref.LE(m[:])).Bytes() {
			c.Fail(desc, "%x, must be %x", *got, p.Mul(ref.LE(m[:])).Bytes())
		}
		c.Eval(1)
		c.Outcome(fmt.Sprintf("image accepted: %v", err == nil))
	})
}

// source is the environment's random source: the bytes, given in pieces, then an error.
type source struct {
	b     []byte
	piece int
	err   error
	reads int
}

var errSource = errors.New("no more random numbers")

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 1000 {
		panic("keeps reading")
	}
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := min(len(p), s.piece, len(s.b))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func generate(s *source) (k crypto.SecretKey, err error, stopped string) {
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	stopped = vlib.Try(func() { k, err = crypto.GenerateKey() })
	return
}

func generated(ns [][32]byte) {
	var draws [][]byte
	for i, n := range ns {
		m := ns[(i*7+3)%len(ns)]
		var zero [32]byte
		draws = append(draws, append(append([]byte{}, n[:]...), m[:]...), append(append([]byte{}, zero[:]...), n[:]...), append(append([]byte{}, n[:]...), zero[:]...))
	}
	for i, d := range draws {
		pieces := []int{64}
		if i%50 == 0 {
			pieces = []int{64, 1, 2, 3, 7, 16, 31, 32, 33, 63}
		}
		want := new(big.Int).Mod(ref.LE(d), ref.Order)
		for _, n := range pieces {
			desc := fmt.Sprintf("random %x in pieces of %d", d, n)
			c.Set(0, desc)
			k, err, stopped := generate(&source{b: append(append([]byte{}, d...), bytes.Repeat([]byte{0x5a}, 64)...), piece: n, err: io.EOF})
			if err != nil || stopped != "" {
				c.Fail(desc, "no key: %v %s", err, stopped)
			}
			if !canonical(k) {
				c.Fail(desc, "key %x is not reduced", k)
			}
			if [32]byte(k) != ref.ScalarBytes(want) {
				c.Fail(desc, "key %x is not the number drawn, reduced: %x", k, ref.ScalarBytes(want))
			}
			if _, err := crypto.PublicFromSecret(&k); err != nil {
				c.Fail(desc, "key %x has no public key", k)
			}
			c.Eval(1)
		}
	}
	// a source that fails at any byte makes no key
	d := draws[5]
	for n := 0; n < 64; n++ {
		for _, piece := range []int{1, 5, 64} {
			for _, e := range []error{errSource, io.EOF, io.ErrUnexpectedEOF} {
				desc := fmt.Sprintf("random source failing with %v after %d bytes in pieces of %d", e, n, piece)
				c.Set(0, desc)
				k, err, stopped := generate(&source{b: append([]byte{}, d[:n]...), piece: piece, err: e})
				if err == nil && stopped == "" {
					c.Fail(desc, "a key is made all the same: %x", k)
				}
				c.Eval(1)
			}
		}
	}
	c.Outcome("generated")
	// one after another from one source
	s := &source{piece: 64, err: io.EOF}
	for i := 0; i < 8; i++ {
		h := ref.Keccak([]byte{byte(i)})
		g := ref.Keccak([]byte{byte(i), 1})
		s.b = append(append(s.b, h[:]...), g[:]...)
	}
	seen := map[crypto.SecretKey]bool{}
	old := crand.Reader
	crand.Reader = s
	for i := 0; i < 8; i++ {
		k, err := crypto.GenerateKey()
		if err != nil || seen[k] {
			c.Fail(fmt.Sprint("key ", i, " of one source"), "%x is not new (%v)", k, err)
		}
		seen[k] = true
		c.Eval(1)
	}
	crand.Reader = old
}

func TestVerif(t *testing.T) {
	c = vlib.New("C35")
	ns := numbers()
	c.Cov("numbers", len(ns))
	keys(ns)
	images(ns)
	generated(ns)
	c.Done()
}
