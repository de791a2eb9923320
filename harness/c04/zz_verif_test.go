//go:build go1.21

package c04

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

// The environment's random source: a chosen sequence of draws, then a fixed good one.
type source struct {
	draws [][64]byte
	used  int
	tail  byte
}

func (s *source) Read(b []byte) (int, error) {
	for i := range b {
		k := s.used + i
		if k/64 < len(s.draws) {
			b[i] = s.draws[k/64][k%64]
		} else {
			h := ref.Keccak([]byte{s.tail, byte(k / 32), byte(k / 32 >> 8)})
			b[i] = h[k%32]
		}
	}
	s.used += len(b)
	if s.used > 1<<16 {
		panic("signing keeps drawing random numbers")
	}
	return len(b), nil
}

var mu sync.Mutex

func sign(h crypto.Hash, s crypto.SecretKey, src *source) (*crypto.Signature, error) {
	mu.Lock()
	defer mu.Unlock()
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	return h.Sign(&s)
}

func canonical(b [32]byte) bool { return ref.LE(b[:]).Cmp(ref.Order) < 0 }

// valid is the definition of a valid signature.
func valid(h, pub [32]byte, C, R [32]byte) bool {
	p, ok := ref.DecodePoint(pub)
	if !ok || !canonical(C) || !canonical(R) || C == [32]byte{} {
		return false
	}
	comm := p.Mul(ref.LE(C[:])).Add(ref.Base.Mul(ref.LE(R[:]))).Bytes()
	if comm == ref.Identity().Bytes() {
		return false
	}
	x := ref.Hs(h[:], pub[:], comm[:])
	return x.Cmp(ref.LE(C[:])) == 0
}

func TestVerif(t *testing.T) {
	c := vlib.New("C04")
	L := ref.Order
	one := big.NewInt(1)
	check := func(h crypto.Hash, p crypto.PublicKey, s crypto.Signature) bool {
		h0, p0, s0 := h, p, s
		r := s.Check(&h, &p)
		if h != h0 || p != p0 || s != s0 {
			c.Fail(fmt.Sprintf("%x %x %x", h0, p0, s0), "the check modifies its arguments")
		}
		c.Eval(1)
		return r
	}
	draw := func(v *big.Int) (b [64]byte) {
		s := v.Bytes()
		for i := range s {
			b[i] = s[len(s)-1-i]
		}
		return
	}
	var draws [][64]byte
	for _, v := range []*big.Int{
		new(big.Int), one, big.NewInt(2), L, new(big.Int).Add(L, one), new(big.Int).Sub(L, one), new(big.Int).Lsh(L, 250),
		new(big.Int).Sub(new(big.Int).Lsh(one, 224), one), new(big.Int).Lsh(one, 224), new(big.Int).Sub(new(big.Int).Lsh(one, 252), one),
		new(big.Int).Lsh(one, 252), new(big.Int).Sub(new(big.Int).Lsh(one, 512), one), new(big.Int).Lsh(one, 511), new(big.Int).Lsh(one, 256),
	} {
		draws = append(draws, draw(v))
	}
	var secs []*big.Int
	for _, v := range []*big.Int{one, big.NewInt(2), big.NewInt(8), new(big.Int).Sub(L, one), new(big.Int).Sub(L, big.NewInt(2)), new(big.Int).Lsh(one, 252), new(big.Int).Lsh(one, 128), ref.Hs([]byte("a")), ref.Hs([]byte("b")), new(big.Int)} {
		secs = append(secs, v)
	}
	hashes := []crypto.Hash{{}, {1}, crypto.Hash(ref.Keccak([]byte("x"))), crypto.Hash(bytes.Repeat([]byte{0xff}, 32))}
	depth := 2
	if c.Thorough {
		depth = 3
		for i := 0; i < 6; i++ {
			secs = append(secs, ref.Hs([]byte{byte(i), 77}))
		}
	}
	// 1. Every secret, message and sequence of random numbers.
	for d := 0; d <= depth; d++ {
		radix := []int{len(secs), len(hashes)}
		for k := 0; k < d; k++ {
			radix = append(radix, len(draws))
		}
		c.Each(fmt.Sprintf("signing, %d chosen draws", d), vlib.Size(radix), func(w, i int) {
			ix := vlib.Unrank(i, radix)
			s, h := ref.ScalarBytes(secs[ix[0]]), hashes[ix[1]]
			src := &source{tail: byte(i)}
			for _, x := range ix[2:] {
				src.draws = append(src.draws, draws[x])
			}
			desc := fmt.Sprintf("secret %x hash %x draws %v", s, h, ix[2:])
			c.Set(w, desc)
			c.Distinct(desc)
			sig, err := sign(h, s, src)
			if err != nil {
				c.Fail(desc, "signing fails: %s", err)
			}
			pub := crypto.PublicKey(ref.Base.Mul(secs[ix[0]]).Bytes())
			if !check(h, pub, *sig) {
				c.Fail(desc, "signature %x does not verify", *sig)
			}
			if !canonical(sig.C) || !canonical(sig.R) || sig.C == [32]byte{} || sig.R == [32]byte{} {
				c.Fail(desc, "signature %x has scalars that are not canonical or zero", *sig)
			}
			if i%16 == 0 && !valid(h, pub, sig.C, sig.R) {
				c.Fail(desc, "signature %x does not follow the definition", *sig)
			}
			for _, o := range secs { // other keys
				op := crypto.PublicKey(ref.ScalarBytes(o)) // an encoding, rarely a point
				if op != pub && check(h, op, *sig) {
					c.Fail(desc, "verifies for key %x", op)
				}
				if i%64 == 0 {
					op = crypto.PublicKey(ref.Base.Mul(o).Bytes())
					if op != pub && check(h, op, *sig) {
						c.Fail(desc, "verifies for key %x", op)
					}
				}
			}
			for _, o := range hashes {
				if o != h && check(o, pub, *sig) {
					c.Fail(desc, "verifies for hash %x", o)
				}
			}
		})
	}
	// 2. Signing refuses keys that are not canonical.
	for d := int64(0); d < 4; d++ {
		for _, v := range []*big.Int{L, new(big.Int).Lsh(L, 1), new(big.Int).Lsh(one, 255), new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(4))} {
			s := ref.ScalarBytes(new(big.Int).Add(v, big.NewInt(d)))
			sig, err := sign(hashes[1], s, &source{})
			if err == nil {
				c.Fail(fmt.Sprintf("secret %x", s), "signs: %x", sig)
			}
			c.Eval(1)
		}
	}
	// 3. Every bit of hash, key and signature; scalars replaced.
	type base struct {
		h   crypto.Hash
		pub crypto.PublicKey
		sig crypto.Signature
		sec *big.Int
	}
	var bases []base
	for i, s := range secs {
		for j, h := range hashes {
			if (i+j)%3 != 0 && !c.Thorough {
				continue
			}
			sig, err := sign(h, ref.ScalarBytes(s), &source{tail: byte(i*7 + j)})
			if err != nil {
				c.Fail("sign", "%s", err)
			}
			bases = append(bases, base{h, crypto.PublicKey(ref.Base.Mul(s).Bytes()), *sig, s})
		}
	}
	c.Each("bits", len(bases)*1024, func(w, i int) {
		b := bases[i/1024]
		k := i % 1024
		h, p, s := b.h, b.pub, b.sig
		switch {
		case k < 256:
			h[k/8] ^= 1 << uint(k%8)
		case k < 512:
			p[(k-256)/8] ^= 1 << uint(k%8)
		case k < 768:
			s.C[(k-512)/8] ^= 1 << uint(k%8)
		default:
			s.R[(k-768)/8] ^= 1 << uint(k%8)
		}
		desc := fmt.Sprintf("hash %x key %x signature %x", h, p, s)
		c.Set(w, desc)
		c.Distinct(desc)
		if check(h, p, s) {
			c.Fail(desc, "verifies, %d is the changed bit", k)
		}
		if k%256 < 3 || k%256 > 250 { // with the second bit of every other position, at the ends
			for q := k + 1; q < 1024; q++ {
				h, s := h, s
				if q >= 512 && q < 768 {
					s.C[(q-512)/8] ^= 1 << uint(q%8)
				} else if q >= 768 {
					s.R[(q-768)/8] ^= 1 << uint(q%8)
				} else if q < 256 {
					h[q/8] ^= 1 << uint(q%8)
				} else {
					continue
				}
				if !c.Thorough && q%8 != 5 {
					continue
				}
				if check(h, p, s) {
					c.Fail(fmt.Sprintf("hash %x key %x signature %x", h, p, s), "verifies, %d and %d are the changed bits", k, q)
				}
			}
		}
	})
	subst := func(b base) [][32]byte {
		var o [][32]byte
		c0, r0 := ref.LE(b.sig.C[:]), ref.LE(b.sig.R[:])
		for _, v := range []*big.Int{new(big.Int), one, new(big.Int).Sub(L, one), L, new(big.Int).Add(L, one), new(big.Int).Lsh(one, 255)} {
			o = append(o, ref.ScalarBytes(v))
		}
		for _, x := range []*big.Int{c0, r0} {
			o = append(o, ref.ScalarBytes(x))
			for k := int64(1); k < 15; k++ { // the same number, not in canonical form
				v := new(big.Int).Add(x, new(big.Int).Mul(L, big.NewInt(k)))
				if v.BitLen() <= 256 {
					o = append(o, ref.ScalarBytes(v))
				}
			}
			neg := new(big.Int).Sub(L, x)
			o = append(o, ref.ScalarBytes(neg.Mod(neg, L)))
		}
		return append(o, [32]byte(b.pub), [32]byte(b.h))
	}
	c.Each("replaced scalars", len(bases), func(w, i int) {
		b := bases[i]
		sub := subst(b)
		for _, x := range sub {
			for _, y := range sub {
				s := crypto.Signature{C: x, R: y}
				desc := fmt.Sprintf("hash %x key %x signature %x", b.h, b.pub, s)
				c.Set(w, desc)
				c.Distinct(desc)
				if check(b.h, b.pub, s) != (s == b.sig) {
					c.Fail(desc, "verifies=%v", s != b.sig)
				}
			}
		}
		// a commitment of zero: C = H(..., identity), R = -C*secret
		id := ref.Identity().Bytes()
		C := ref.Hs(b.h[:], b.pub[:], id[:])
		R := new(big.Int).Mul(C, b.sec)
		R.Neg(R).Mod(R, L)
		s := crypto.Signature{C: ref.ScalarBytes(C), R: ref.ScalarBytes(R)}
		if check(b.h, b.pub, s) {
			c.Fail(fmt.Sprintf("hash %x key %x signature %x", b.h, b.pub, s), "a signature with the zero commitment verifies")
		}
	})
	// 4. Keys that are no points, or not the canonical encoding of one.
	for d := int64(0); d < 22; d++ {
		for _, v := range []*big.Int{big.NewInt(d), new(big.Int).Add(ref.P25519, big.NewInt(d-2))} {
			for sign := byte(0); sign < 2; sign++ {
				p := crypto.PublicKey(ref.ScalarBytes(v))
				p[31] |= sign << 7
				for _, b := range bases[:2] {
					C, R := b.sig.C, b.sig.R
					if got := check(b.h, p, b.sig); got != valid(b.h, p, C, R) {
						c.Fail(fmt.Sprintf("key %x", p), "verifies=%v", got)
					}
				}
			}
		}
	}
	c.Sample(fmt.Sprintf("%d secrets x %d hashes x up to %d of %d draws", len(secs), len(hashes), depth, len(draws)))
	c.Sample(fmt.Sprintf("%x", bases[0].sig))
	c.Done()
}
