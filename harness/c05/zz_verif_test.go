//go:build go1.21

package c05

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

type source struct {
	mode int
	seed byte
	used int
}

// The random source: hashes, or degenerate streams (all zero, all ones, a period of one draw, the group order).
func (s *source) Read(b []byte) (int, error) {
	for i := range b {
		k := s.used + i
		switch s.mode {
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xff
		case 3:
			h := ref.Keccak([]byte{s.seed, byte(k % 64 / 32)})
			b[i] = h[k%32]
		case 4:
			o := ref.ScalarBytes(ref.Order)
			b[i] = 0
			if k%64 < 32 {
				b[i] = o[k%32]
			}
		case 5: // counts: 0, 1, 2, ...
			b[i] = 0
			if k%64 == 0 {
				b[i] = byte(k / 64)
			}
		default:
			h := ref.Keccak([]byte{s.seed, byte(k / 32), byte(k / 32 >> 8)})
			b[i] = h[k%32]
		}
	}
	s.used += len(b)
	if s.used > 1<<16 {
		panic("signing keeps drawing random numbers")
	}
	return len(b), nil
}

var mu sync.Mutex

func sign(h crypto.Hash, im crypto.KeyImage, pubs []crypto.PublicKey, s crypto.SecretKey, ix uint64, src *source) ([]crypto.Signature, error) {
	mu.Lock()
	defer mu.Unlock()
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	return crypto.GenerateRingSignature(&h, &im, &pubs, &s, ix)
}

type key struct {
	s   *big.Int
	sec crypto.SecretKey
	pub crypto.PublicKey
	img crypto.KeyImage
}

func canonical(b [32]byte) bool { return ref.LE(b[:]).Cmp(ref.Order) < 0 }

// valid is the definition of ring signature verification.
func valid(h crypto.Hash, im crypto.KeyImage, pubs []crypto.PublicKey, sigs []crypto.Signature) bool {
	if len(pubs) != len(sigs) {
		return false
	}
	I, ok := ref.DecodePoint(im)
	if !ok || I.Mul(ref.Order).Bytes() != ref.Identity().Bytes() {
		return false
	}
	buf := append([]byte{}, h[:]...)
	sum := new(big.Int)
	for i, p := range pubs {
		P, ok := ref.DecodePoint(p)
		if !ok || !canonical(sigs[i].C) || !canonical(sigs[i].R) {
			return false
		}
		C, R := ref.LE(sigs[i].C[:]), ref.LE(sigs[i].R[:])
		x := P.Mul(C).Add(ref.Base.Mul(R)).Bytes()
		y := I.Mul(C).Add(ref.Hp(p[:]).Mul(R)).Bytes()
		buf = append(append(buf, x[:]...), y[:]...)
		sum.Add(sum, C)
	}
	return sum.Mod(sum, ref.Order).Cmp(ref.Hs(buf)) == 0
}

func TestVerif(t *testing.T) {
	c := vlib.New("C05")
	L, one := ref.Order, big.NewInt(1)
	var ks []key
	var ss []*big.Int
	for _, v := range []*big.Int{one, big.NewInt(2), new(big.Int).Sub(L, one), new(big.Int).Lsh(one, 252), new(big.Int).Lsh(one, 77)} {
		ss = append(ss, v)
	}
	nk := 12
	if c.Thorough {
		nk = 40
	}
	for i := 0; i < nk; i++ {
		ss = append(ss, ref.Hs([]byte{byte(i), 9}))
	}
	ks = make([]key, len(ss))
	// 1. Key images: the definition, and one for each key.
	c.Each("key images", len(ss), func(w, i int) {
		k := key{s: ss[i], sec: crypto.SecretKey(ref.ScalarBytes(ss[i])), pub: crypto.PublicKey(ref.Base.Mul(ss[i]).Bytes())}
		desc := fmt.Sprintf("secret %x", k.sec)
		c.Set(w, desc)
		im, err := crypto.GenerateKeyImage(&k.pub, &k.sec)
		if err != nil {
			c.Fail(desc, "no key image: %s", err)
		}
		if want := ref.Hp(k.pub[:]).Mul(k.s).Bytes(); [32]byte(*im) != want {
			c.Fail(desc, "key image %x, expected %x", *im, want)
		}
		again, err := crypto.GenerateKeyImage(&k.pub, &k.sec)
		if err != nil || *again != *im {
			c.Fail(desc, "second key image %x", again)
		}
		k.img = *im
		ks[i] = k
		c.Eval(2)
		c.Distinct(desc)
	})
	for i := range ks {
		for j := range ks[:i] {
			if ks[i].img == ks[j].img {
				c.Fail(fmt.Sprintf("secrets %x and %x", ks[i].sec, ks[j].sec), "the same key image %x", ks[i].img)
			}
		}
	}
	for d := int64(0); d < 3; d++ {
		s := crypto.SecretKey(ref.ScalarBytes(new(big.Int).Add(L, big.NewInt(d))))
		if im, err := crypto.GenerateKeyImage(&ks[0].pub, &s); err == nil {
			c.Fail(fmt.Sprintf("secret %x", s), "key image %x of a secret that is not canonical", im)
		}
	}
	tors := ref.Torsion()
	verify := func(h crypto.Hash, im crypto.KeyImage, pubs []crypto.PublicKey, sigs []crypto.Signature, sub bool) bool {
		h0, i0 := h, im
		p0, s0 := append([]crypto.PublicKey{}, pubs...), append([]crypto.Signature{}, sigs...)
		r := crypto.CheckRingSignature(&h, &im, &pubs, &sigs, sub)
		c.Eval(1)
		if h != h0 || im != i0 || fmt.Sprint(p0) != fmt.Sprint(pubs) || fmt.Sprint(s0) != fmt.Sprint(sigs) {
			c.Fail(fmt.Sprintf("%x %x %x %x", h0, i0, p0, s0), "the check modifies its arguments")
		}
		return r
	}
	both := func(desc string, want bool, h crypto.Hash, im crypto.KeyImage, pubs []crypto.PublicKey, sigs []crypto.Signature) {
		for _, sub := range []bool{false, true} {
			if verify(h, im, pubs, sigs, sub) != want {
				c.Fail(desc, "verifies=%v (subgroup check %v), hash %x image %x ring %x signatures %x", !want, sub, h, im, pubs, sigs)
			}
		}
	}
	hashes := []crypto.Hash{{}, crypto.Hash(ref.Keccak([]byte("m"))), crypto.Hash(bytes.Repeat([]byte{0xff}, 32))}
	max := 5
	if c.Thorough {
		max = 12
	}
	// 2. Every ring size, signer position, message and random source.
	type job struct{ n, pos, rot, h, mode int }
	var jobs []job
	for n := 1; n <= max; n++ {
		for pos := 0; pos < n; pos++ {
			for rot := 0; rot < len(ks); rot += 1 + n/2 {
				for h := range hashes {
					for mode := 0; mode < 6; mode++ {
						if mode > 0 && (h != 1 || rot > 2*(1+n/2)) {
							continue
						}
						jobs = append(jobs, job{n, pos, rot, h, mode})
					}
				}
			}
		}
	}
	ring := func(j job) ([]crypto.PublicKey, key) {
		var pubs []crypto.PublicKey
		for i := 0; i < j.n; i++ {
			pubs = append(pubs, ks[(j.rot+i)%len(ks)].pub)
		}
		return pubs, ks[(j.rot+j.pos)%len(ks)]
	}
	c.Each("signing", len(jobs), func(w, i int) {
		j := jobs[i]
		desc := fmt.Sprintf("ring of %d, signer %d, first key %d, hash %d, random source %d", j.n, j.pos, j.rot, j.h, j.mode)
		c.Set(w, desc)
		c.Distinct(desc)
		pubs, k := ring(j)
		h := hashes[j.h]
		sigs, err := sign(h, k.img, pubs, k.sec, uint64(j.pos), &source{mode: j.mode, seed: byte(i)})
		if err != nil {
			c.Fail(desc, "signing fails: %s", err)
		}
		if len(sigs) != j.n {
			c.Fail(desc, "%d signatures", len(sigs))
		}
		both(desc, true, h, k.img, pubs, sigs)
		if i%5 == 0 && !valid(h, k.img, pubs, sigs) {
			c.Fail(desc, "signature does not follow the definition: %x", sigs)
		}
		for o := range hashes {
			if o != j.h {
				both(desc+", other hash", false, hashes[o], k.img, pubs, sigs)
			}
		}
		// another image: of each other ring member and of a stranger
		for o := 0; o <= j.n; o++ {
			x := ks[(j.rot+o)%len(ks)]
			if x.img != k.img {
				both(desc+", other image", false, h, x.img, pubs, sigs)
			}
		}
		if j.mode != 0 {
			return // degenerate draws have coincidences (equal commitments)
		}
		// ring order and members
		for a := 0; a < j.n; a++ {
			for b := a + 1; b < j.n; b++ {
				p := append([]crypto.PublicKey{}, pubs...)
				p[a], p[b] = p[b], p[a]
				both(desc+", swapped ring", false, h, k.img, p, sigs)
				s := append([]crypto.Signature{}, sigs...)
				s[a], s[b] = s[b], s[a]
				if s[a] != s[b] {
					both(desc+", swapped signatures", false, h, k.img, pubs, s)
				}
				both(desc+", rotated both", false, h, k.img, p, s)
			}
			p := append([]crypto.PublicKey{}, pubs...)
			p[a] = ks[(j.rot+j.n+1)%len(ks)].pub
			if p[a] != pubs[a] {
				both(desc+", replaced member", false, h, k.img, p, sigs)
			}
			p[a] = crypto.PublicKey(ref.ScalarBytes(big.NewInt(2)))
			both(desc+", member that is no point", false, h, k.img, p, sigs)
			// numbers of signatures and members
			both(desc+", signature missing", false, h, k.img, pubs, append(append([]crypto.Signature{}, sigs[:a]...), sigs[a+1:]...))
			both(desc+", signature doubled", false, h, k.img, pubs, append(append([]crypto.Signature{}, sigs[:a+1]...), sigs[a:]...))
			both(desc+", one more signature", false, h, k.img, pubs, append(append([]crypto.Signature{}, sigs...), sigs[a]))
			if j.n > 1 {
				both(desc+", member missing", false, h, k.img, append(append([]crypto.PublicKey{}, pubs[:a]...), pubs[a+1:]...), sigs)
				both(desc+", both missing", false, h, k.img, append(append([]crypto.PublicKey{}, pubs[:a]...), pubs[a+1:]...), append(append([]crypto.Signature{}, sigs[:a]...), sigs[a+1:]...))
			}
			// scalars
			for _, r := range []bool{false, true} {
				for _, v := range []int{0, 1, 2, 3, 4} {
					s := append([]crypto.Signature{}, sigs...)
					x := &s[a].C
					if r {
						x = &s[a].R
					}
					y := ref.LE(x[:])
					switch v {
					case 0:
						y = new(big.Int)
					case 1, 2, 3:
						y.Add(y, new(big.Int).Mul(L, big.NewInt(int64(v))))
					case 4:
						y.Sub(L, y)
					}
					if y.BitLen() > 256 {
						continue
					}
					*x = ref.ScalarBytes(y)
					if *x == sigs[a].C && !r || *x == sigs[a].R && r {
						continue
					}
					both(desc+", replaced scalar", false, h, k.img, pubs, s)
				}
			}
		}
		both(desc+", no signatures", false, h, k.img, pubs, nil)
		both(desc+", nothing", false, h, k.img, nil, nil)
		// small-order parts in the image
		I, _ := ref.DecodePoint(k.img)
		for _, q := range tors[1:] {
			if verify(h, I.Add(q).Bytes(), pubs, sigs, true) {
				c.Fail(desc, "verifies for the image plus %x", q.Bytes())
			}
		}
		for _, q := range tors[1:] {
			if verify(h, q.Bytes(), pubs, sigs, true) {
				c.Fail(desc, "verifies for the small-order image %x", q.Bytes())
			}
		}
		// signing refuses what does not belong together
		refuse := func(what string, im crypto.KeyImage, p []crypto.PublicKey, s crypto.SecretKey, ix uint64) {
			c.Eval(1)
			if o, err := sign(h, im, p, s, ix, &source{}); err == nil {
				c.Fail(desc+", "+what, "signs: %x", o)
			}
		}
		for p := 0; p < j.n; p++ {
			if p != j.pos {
				refuse("other position", k.img, pubs, k.sec, uint64(p))
				refuse("image of another member", ks[(j.rot+p)%len(ks)].img, pubs, k.sec, uint64(j.pos))
				refuse("secret of another member", k.img, pubs, ks[(j.rot+p)%len(ks)].sec, uint64(j.pos))
				bad := append([]crypto.PublicKey{}, pubs...)
				bad[p] = crypto.PublicKey(ref.ScalarBytes(big.NewInt(2)))
				refuse("member that is no point", k.img, bad, k.sec, uint64(j.pos))
			}
		}
		for _, p := range []uint64{uint64(j.n), uint64(j.n) + 1, 1 << 32, 1 << 63, ^uint64(0)} {
			refuse("position beyond the ring", k.img, pubs, k.sec, p)
		}
		refuse("empty ring", k.img, nil, k.sec, 0)
		for v := int64(1); v < 8; v++ {
			y := new(big.Int).Add(k.s, new(big.Int).Mul(L, big.NewInt(v)))
			if y.BitLen() <= 256 {
				refuse("secret not canonical", k.img, pubs, crypto.SecretKey(ref.ScalarBytes(y)), uint64(j.pos))
			}
		}
		refuse("image plus small order", I.Add(tors[1]).Bytes(), pubs, k.sec, uint64(j.pos))
		// linking: the same key in another ring and message has the same image; it is fixed here by signing with it
		if j.h == 0 && j.mode == 0 {
			p2 := []crypto.PublicKey{ks[(j.rot+3)%len(ks)].pub, k.pub}
			if p2[0] != p2[1] {
				s2, err := sign(hashes[2], k.img, p2, k.sec, 1, &source{seed: 200})
				if err != nil {
					c.Fail(desc, "second signature with the same image fails: %s", err)
				}
				both(desc+", second ring", true, hashes[2], k.img, p2, s2)
				both(desc+", second ring with the first hash", false, h, k.img, p2, s2)
			}
		}
	})
	// 3. Every bit.
	var bj []job
	for n := 1; n <= 3 || c.Thorough && n <= 6; n++ {
		for pos := 0; pos < n; pos++ {
			bj = append(bj, job{n: n, pos: pos, rot: n + pos, h: 1})
		}
	}
	for _, j := range bj {
		pubs, k := ring(j)
		h := hashes[1]
		sigs, err := sign(h, k.img, pubs, k.sec, uint64(j.pos), &source{seed: byte(j.n)})
		if err != nil {
			c.Fail("sign", "%s", err)
		}
		desc := fmt.Sprintf("ring of %d, signer %d", j.n, j.pos)
		c.Each("bits of "+desc, 512+j.n*768, func(w, i int) {
			h, im := h, k.img
			p, s := append([]crypto.PublicKey{}, pubs...), append([]crypto.Signature{}, sigs...)
			switch {
			case i < 256:
				h[i/8] ^= 1 << uint(i%8)
			case i < 512:
				im[(i-256)/8] ^= 1 << uint(i%8)
			default:
				m, q := (i-512)/768, (i-512)%768
				switch {
				case q < 256:
					p[m][q/8] ^= 1 << uint(q%8)
				case q < 512:
					s[m].C[(q-256)/8] ^= 1 << uint(q%8)
				default:
					s[m].R[(q-512)/8] ^= 1 << uint(q%8)
				}
			}
			c.Set(w, fmt.Sprintf("%s bit %d", desc, i))
			c.Distinct(fmt.Sprintf("%s bit %d", desc, i))
			both(fmt.Sprintf("%s, bit %d changed", desc, i), false, h, im, p, s)
		})
	}
	c.Sample(fmt.Sprintf("%d rings of up to %d keys, %d keys", len(jobs), max, len(ks)))
	c.Done()
}
