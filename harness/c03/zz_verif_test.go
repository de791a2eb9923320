//go:build go1.21

package crypto

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

type zzPoint struct {
	b  [32]byte
	p  ref.Point
	ok bool
}

func TestVerif(t *testing.T) {
	c := vlib.New("C03")
	one := big.NewInt(1)
	L := ref.Order
	add := func(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }

	// Secret keys: canonical ones and every way not to be one.
	var sec [][32]byte
	seen := map[[32]byte]bool{}
	put := func(v *big.Int) {
		if v.Sign() < 0 || v.BitLen() > 256 {
			return
		}
		b := ref.ScalarBytes(v)
		if !seen[b] {
			seen[b] = true
			sec = append(sec, b)
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 7, 8, 9, 255, 256} {
		put(big.NewInt(v))
	}
	for d := int64(-3); d <= 3; d++ {
		put(add(L, d))
		put(add(new(big.Int).Lsh(L, 1), d))
		put(add(new(big.Int).Lsh(L, 3), d))
		put(add(new(big.Int).Lsh(one, 252), d))
		put(add(new(big.Int).Lsh(one, 253), d))
		put(add(new(big.Int).Lsh(one, 255), d))
		put(add(new(big.Int).Lsh(one, 256), d))
	}
	half := new(big.Int).Rsh(L, 1)
	put(half)
	put(add(half, 1))
	lb := ref.ScalarBytes(L)
	for i := 0; i < 32; i++ { // the order with one byte lower, higher, and with everything below it changed
		for _, d := range []int{-1, 1} {
			b := lb
			b[i] = byte(int(b[i]) + d)
			put(ref.LE(b[:]))
			for j := 0; j < i; j++ {
				b[j] = 0xff
			}
			put(ref.LE(b[:]))
			for j := 0; j < i; j++ {
				b[j] = 0
			}
			put(ref.LE(b[:]))
		}
	}
	for k := uint(0); k < 256; k += 5 {
		put(new(big.Int).Lsh(one, k))
		put(add(new(big.Int).Lsh(one, k), -1))
	}
	nh := 12
	if c.Thorough {
		nh = 60
	}
	for i := 0; i < nh; i++ {
		put(ref.Hs([]byte{byte(i), 1}))
		h := ref.Keccak([]byte{byte(i), 2})
		put(ref.LE(h[:]))
	}
	canonical := func(b [32]byte) bool { return ref.LE(b[:]).Cmp(L) < 0 }

	// 1. Public keys of secrets.
	c.Each("public keys", len(sec), func(w, i int) {
		s := SecretKey(sec[i])
		desc := fmt.Sprintf("secret %x", sec[i])
		c.Set(w, desc)
		pk, err := PublicFromSecret(&s)
		c.Eval(1)
		c.Distinct(desc)
		if (err == nil) != canonical(sec[i]) {
			c.Fail(desc, "error %v, canonical is %v", err, canonical(sec[i]))
		}
		if err == nil && [32]byte(*pk) != ref.Base.Mul(ref.LE(sec[i][:])).Bytes() {
			c.Fail(desc, "public key %x", *pk)
		}
		if err != nil && pk != nil {
			c.Fail(desc, "refused, but a key is returned")
		}
	})

	// Points: of known secrets, of small order, mixed, and encodings that are none.
	var pts []zzPoint
	pset := map[[32]byte]bool{}
	padd := func(b [32]byte) {
		if pset[b] {
			return
		}
		pset[b] = true
		p, ok := ref.DecodePoint(b)
		pts = append(pts, zzPoint{b, p, ok})
	}
	tors := ref.Torsion()
	for _, q := range tors {
		padd(q.Bytes())
	}
	np := 6
	if c.Thorough {
		np = 30
	}
	for i := 0; i < np; i++ {
		p := ref.Base.Mul(ref.Hs([]byte{byte(i), 3}))
		padd(p.Bytes())
		padd(p.Add(tors[1+i%7]).Bytes())
	}
	padd(ref.Base.Bytes())
	for d := int64(-3); d < 22; d++ { // y around the field prime, both signs
		v := add(ref.P25519, d)
		b := ref.ScalarBytes(v)
		padd(b)
		b[31] |= 128
		padd(b)
	}
	for v := int64(0); v < 12; v++ {
		b := ref.ScalarBytes(big.NewInt(v))
		padd(b)
		b[31] |= 128
		padd(b)
	}
	nvalid := 0
	for _, p := range pts {
		if p.ok {
			nvalid++
		}
	}
	c.Cov("valid_points", nvalid)
	// 2. Point encodings: every bit changed.
	c.Each("encodings", len(pts)*257, func(w, i int) {
		b := pts[i/257].b
		if k := i % 257; k < 256 {
			b[k/8] ^= 1 << uint(k%8)
		}
		pk := PublicKey(b)
		_, ok := ref.DecodePoint(b)
		c.Set(w, fmt.Sprintf("%x", b))
		c.Eval(1)
		c.Distinct(string(b[:]))
		if pk.Check() != ok {
			c.Fail(fmt.Sprintf("public key %x", b), "accepted=%v, expected %v", !ok, ok)
		}
		if i%257%16 != 0 && i%257 < 250 {
			return
		}
		s := SecretKey(sec[3])
		d, err := GenerateKeyDerivation(pk, s)
		if (err == nil) != ok || err != nil && d != nil {
			c.Fail(fmt.Sprintf("derivation from %x", b), "error %v, valid point: %v", err, ok)
		}
		base := KeyDerivation(pts[0].b)
		if q, err := base.derivePublicKey(1, &pk); (err == nil) != ok || err != nil && q != nil {
			c.Fail(fmt.Sprintf("derive public key from %x", b), "error %v, valid point: %v", err, ok)
		}
		if q, err := base.underivePublicKey(1, &pk); (err == nil) != ok || err != nil && q != nil {
			c.Fail(fmt.Sprintf("un-derive public key from %x", b), "error %v, valid point: %v", err, ok)
		}
	})
	// 3. Derivations: every secret with every point, against 8*(s*P).
	c.Each("derivations", len(sec)*len(pts), func(w, i int) {
		s, p := sec[i/len(pts)], pts[i%len(pts)]
		desc := fmt.Sprintf("secret %x public %x", s, p.b)
		c.Set(w, desc)
		c.Eval(1)
		c.Distinct(desc)
		pk, sk := PublicKey(p.b), SecretKey(s)
		d, err := GenerateKeyDerivation(pk, sk)
		if want := canonical(s) && p.ok; (err == nil) != want {
			c.Fail(desc, "error %v, expected accepted=%v", err, want)
		}
		if [32]byte(pk) != p.b || [32]byte(sk) != s {
			c.Fail(desc, "arguments modified")
		}
		if err != nil {
			c.Outcome("refused")
			return
		}
		c.Outcome("derived")
		want := p.p.Mul(ref.LE(s[:])).Mul(big.NewInt(8)).Bytes()
		if [32]byte(*d) != want {
			c.Fail(desc, "derivation %x, expected %x", *d, want)
		}
	})
	// 4. Both parties, all indexes.
	var keys []SecretKey
	for _, s := range sec {
		if canonical(s) && len(keys) < 14 {
			keys = append(keys, SecretKey(s))
		}
	}
	for i := 0; i < 6; i++ {
		keys = append(keys, SecretKey(ref.ScalarBytes(ref.Hs([]byte{byte(i), 4}))))
	}
	keys = append(keys, SecretKey(ref.ScalarBytes(add(L, -1))), SecretKey(ref.ScalarBytes(add(L, -2))))
	idx := []uint64{0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}
	if c.Thorough {
		for i := uint64(3); i < 126; i++ {
			idx = append(idx, i)
		}
	}
	c.Each("agreement", len(keys)*len(keys), func(w, i int) {
		r, v := keys[i/len(keys)], keys[i%len(keys)]
		desc := fmt.Sprintf("r %x v %x", r, v)
		c.Set(w, desc)
		R, e1 := PublicFromSecret(&r)
		V, e2 := PublicFromSecret(&v)
		if e1 != nil || e2 != nil {
			c.Fail(desc, "%v %v", e1, e2)
		}
		d1, e1 := GenerateKeyDerivation(*R, v)
		d2, e2 := GenerateKeyDerivation(*V, r)
		if e1 != nil || e2 != nil || *d1 != *d2 {
			c.Fail(desc, "derivations %x (%v) and %x (%v)", d1, e1, d2, e2)
		}
		base := keys[(i*7+3)%len(keys)]
		B, _ := PublicFromSecret(&base)
		bpk := PublicKey(base) // the secret base is typed as a public key
		got := map[PublicKey]uint64{}
		for _, n := range idx {
			what := fmt.Sprintf("%s base %x index %d", desc, base, n)
			c.Eval(1)
			c.Distinct(what)
			pub, e1 := d1.derivePublicKey(n, B)
			sk, e2 := d2.deriveSecretKey(n, &bpk)
			if e1 != nil || e2 != nil {
				c.Fail(what, "%v %v", e1, e2)
			}
			of, err := PublicFromSecret(sk)
			if err != nil || *of != *pub {
				c.Fail(what, "public key %x does not belong to the secret key %x", *pub, *sk)
			}
			hs := ref.Hs(d1[:], ref.Varint(n))
			want := new(big.Int).Add(hs, ref.LE(base[:]))
			want.Mod(want, L)
			if [32]byte(*sk) != ref.ScalarBytes(want) {
				c.Fail(what, "secret key %x, expected %x", *sk, ref.ScalarBytes(want))
			}
			un, err := d1.underivePublicKey(n, pub)
			if err != nil || *un != *B {
				c.Fail(what, "un-derived %x (%v), expected %x", un, err, *B)
			}
			if o, ok := got[*pub]; ok {
				c.Fail(what, "same key as index %d", o)
			}
			got[*pub] = n
			// a base that is a point with a small-order component, and un-derivation of it
			if n < 2 {
				for _, q := range pts {
					if !q.ok {
						continue
					}
					pk := PublicKey(q.b)
					a, err := d1.derivePublicKey(n, &pk)
					if err != nil || [32]byte(*a) != q.p.Add(ref.Base.Mul(hs)).Bytes() {
						c.Fail(fmt.Sprintf("%s public base %x", what, q.b), "derived %x %v", a, err)
					}
					if u, err := d1.underivePublicKey(n, a); err != nil || !bytes.Equal(u[:], q.b[:]) {
						c.Fail(fmt.Sprintf("%s public base %x", what, q.b), "un-derived %x %v", u, err)
					}
					if i%5 != 0 {
						break
					}
				}
			}
		}
	})
	// 5. Secret bases that are not canonical.
	d := KeyDerivation(pts[0].b)
	for _, s := range sec {
		b := PublicKey(s)
		for _, n := range []uint64{0, 300} {
			sk, err := d.deriveSecretKey(n, &b)
			c.Eval(1)
			if (err == nil) != canonical(s) || err != nil && sk != nil {
				c.Fail(fmt.Sprintf("secret base %x", s), "error %v, canonical %v", err, canonical(s))
			}
			if err == nil && !canonical(*sk) {
				c.Fail(fmt.Sprintf("secret base %x", s), "derived key %x is not canonical", *sk)
			}
		}
	}
	c.Sample(fmt.Sprintf("%d secrets x %d points, %d key pairs x %d indexes", len(sec), len(pts), len(keys)*len(keys), len(idx)))
	c.Done()
}
