//go:build go1.21

package calls

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/crypto/base58"
	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
)

func init() {
	groups["C01"] = group{base58Ops, 3, 4}
	groups["C02"] = group{addressOps, 3, 4}
	groups["C03"] = group{derivationOps, 2, 3}
	groups["C04"] = group{signatureOps, 2, 3}
	groups["C05"] = group{ringOps, 2, 3}
	groups["C06"] = group{merkleOps, 3, 4}
	groups["C31"] = group{listOps, 3, 4}
	groups["C33"] = group{curveOps, 2, 3}
	groups["C35"] = group{keyOps, 2, 3}
}

func base58Ops() (ops []op) {
	enc := func(b []byte) {
		ops = append(ops, op{fmt.Sprintf("Encode(%x)", b), func() res {
			in := append([]byte{}, b...)
			s := base58.Encode(in)
			return res{show: func() string { return fmt.Sprintf("%s of %x", s, in) }}
		}})
	}
	dec := func(s string) {
		ops = append(ops, op{fmt.Sprintf("Decode(%q)", s), func() res { return bytesOf(base58.Decode(s)) }})
	}
	for _, b := range [][]byte{{}, {0}, {0xff}, {1, 2}, bytes.Repeat([]byte{0xff}, 8), bytes.Repeat([]byte{7}, 9), bytes.Repeat([]byte{0xa5}, 69)} {
		enc(b)
		if len(b) > 0 {
			dec(ref.B58Encode(b))
		}
	}
	for _, s := range []string{"", "1", "0", "5R", "zzzzzzzzzzz", "z0", "1111111111é", "1111", "JPwcyDCgEuq1"} {
		dec(s)
	}
	return
}

func checksummed(tag uint64, body []byte) string {
	b := append(ref.Varint(tag), body...)
	h := ref.Keccak(b)
	return ref.B58Encode(append(b, h[:4]...))
}

func addressOps() (ops []op) {
	key := func(s string) (k crypto.PublicKey) { return crypto.PublicKey(ref.Keccak([]byte(s))) }
	type ad struct {
		tag         uint64
		spend, view crypto.PublicKey
	}
	var texts []string
	for _, a := range []ad{{111, key("a"), key("b")}, {111, key("b"), key("a")}, {0, key("a"), key("b")}, {1 << 40, key("c"), key("d")}} {
		a := a
		ops = append(ops, op{fmt.Sprintf("text of address %d %x", a.tag, a.spend[:2]), func() res {
			x := cryptonote.NewAddress(a.tag, a.spend, a.view)
			s := x.Base58()
			return res{show: func() string { return fmt.Sprint(s, x.Base58(), x.Tag, x.SpendPublicKey, x.ViewPublicKey) }}
		}})
		texts = append(texts, checksummed(a.tag, append(append([]byte{}, a.spend[:]...), a.view[:]...)))
	}
	k := key("a")
	texts = append(texts, checksummed(111, k[:]), texts[0][:len(texts[0])-1], "0"+texts[1][1:], strings.Replace(texts[0], texts[0][20:22], "zz", 1), "", "1")
	for _, s := range texts {
		s := s
		ops = append(ops, op{fmt.Sprintf("address from %q", s), func() res {
			var x cryptonote.Address
			err := x.FromString(s)
			return res{show: func() string {
				if err != nil {
					return "refused"
				}
				return fmt.Sprint(x.Tag, x.SpendPublicKey, x.ViewPublicKey, x.Base58())
			}}
		}})
	}
	return
}

type pair struct {
	s   *big.Int
	sec crypto.SecretKey
	pub crypto.PublicKey
}

func newPair(s *big.Int) pair {
	return pair{s, crypto.SecretKey(ref.ScalarBytes(s)), crypto.PublicKey(ref.Base.Mul(s).Bytes())}
}

var badPoint = func() (p [32]byte) {
	for i := 2; ; i++ {
		p = [32]byte{byte(i), 5}
		if _, ok := ref.DecodePoint(p); !ok {
			return
		}
	}
}()

var badScalar = ref.ScalarBytes(new(big.Int).Add(ref.Order, big.NewInt(3)))

func derivationOps() (ops []op) {
	ks := []pair{newPair(big.NewInt(1)), newPair(ref.Hs([]byte("a"))), newPair(ref.Hs([]byte("b")))}
	pubs := []crypto.PublicKey{ks[0].pub, ks[1].pub, ks[2].pub, badPoint, {1}}
	secs := []crypto.SecretKey{ks[1].sec, ks[2].sec, badScalar, {}}
	for i, p := range pubs {
		for j, s := range secs {
			p, s := p, s
			ops = append(ops, op{fmt.Sprintf("derivation of public key %d, secret key %d", i, j), func() res {
				d, err := crypto.GenerateKeyDerivation(p, s)
				if err != nil {
					return fixed("refused")
				}
				return res{show: func() string { return fmt.Sprintf("%x", *d) }, spoil: func() { d[3] ^= 1 }}
			}})
		}
	}
	return
}

func keyOps() (ops []op) {
	for i, s := range []crypto.SecretKey{{1}, ref.ScalarBytes(ref.Hs([]byte("a"))), ref.ScalarBytes(ref.Hs([]byte("b"))), badScalar, {}} {
		s := s
		ops = append(ops, op{fmt.Sprintf("public key of secret %d", i), func() res {
			in := s
			p, err := crypto.PublicFromSecret(&in)
			if err != nil {
				return fixed("refused")
			}
			return res{show: func() string { return fmt.Sprintf("%x of %x", *p, in) }, spoil: func() { p[3] ^= 1; in[3] ^= 1 }}
		}}, op{fmt.Sprintf("view key of secret %d", i), func() res {
			in := s
			return text("%x of %x", crypto.ViewFromSpend(&in), in)
		}}, op{fmt.Sprintf("hash of %d", i), func() res { return bytesOf(crypto.Keccak(s[:i]), nil) }})
	}
	for i, p := range []crypto.PublicKey{newPair(ref.Hs([]byte("a"))).pub, newPair(ref.Hs([]byte("b"))).pub, badPoint, {1}, {}} {
		p := p
		ops = append(ops, op{fmt.Sprintf("check of point %d", i), func() res { q := p; return text("%v %x", q.Check(), q) }})
	}
	ops = append(ops, op{"new key", func() res {
		k, err := crypto.GenerateKey()
		if err != nil || ref.LE(k[:]).Cmp(ref.Order) >= 0 {
			return text("%x %v", k, err)
		}
		l, err := crypto.GenerateKey()
		return text("below the order, again the same: %v", k == l)
	}})
	return
}

func keccakScalar(s string) *big.Int { return ref.Hs([]byte(s)) }

// makeSignature signs with a fixed nonce.
func makeSignature(k pair, h crypto.Hash, nonce string) (s crypto.Signature) {
	n := keccakScalar(nonce)
	comm := ref.Base.Mul(n).Bytes()
	x := ref.Hs(h[:], k.pub[:], comm[:])
	r := new(big.Int).Sub(n, new(big.Int).Mul(x, k.s))
	s.C, s.R = ref.ScalarBytes(x), ref.ScalarBytes(r.Mod(r, ref.Order))
	return
}

func signatureOps() (ops []op) {
	ks := []pair{newPair(ref.Hs([]byte("a"))), newPair(ref.Hs([]byte("b")))}
	hs := []crypto.Hash{{}, crypto.Hash(ref.Keccak([]byte("x")))}
	for i, k := range ks {
		for j, h := range hs {
			k, h := k, h
			ops = append(ops, op{fmt.Sprintf("Sign of message %d with key %d", j, i), func() res {
				m, sec, pub := h, k.sec, k.pub
				s, err := m.Sign(&sec)
				return res{
					show: func() string {
						if err != nil {
							return "refused"
						}
						m2, p2, s2 := h, pub, *s
						return fmt.Sprintf("valid %v, of %x", s2.Check(&m2, &p2), m)
					},
				}
			}})
		}
	}
	good := makeSignature(ks[0], hs[1], "n")
	good2 := makeSignature(ks[1], hs[1], "n")
	other := good
	other.R[0] ^= 1
	big := good
	big.C = badScalar
	check := func(what string, s crypto.Signature, h crypto.Hash, p crypto.PublicKey) {
		ops = append(ops, op{"Check of " + what, func() res {
			a, b, d := s, h, p
			ok := a.Check(&b, &d)
			return text("%v %x %x %x", ok, a, b, d)
		}})
	}
	check("a signature", good, hs[1], ks[0].pub)
	check("a signature by another key", good2, hs[1], ks[1].pub)
	check("a signature for the other key", good, hs[1], ks[1].pub)
	check("a signature for the other message", good, hs[0], ks[0].pub)
	check("a changed signature", other, hs[1], ks[0].pub)
	check("a signature with a large number", big, hs[1], ks[0].pub)
	check("a signature for no point", good, hs[1], badPoint)
	check("the empty signature", crypto.Signature{}, hs[1], ks[0].pub)
	for i, s := range []crypto.Signature{good, good2} {
		s := s
		ops = append(ops, op{fmt.Sprintf("bytes of signature %d", i), func() res { x := s; return bytesOf(x.Serialize()) }})
		ops = append(ops, op{fmt.Sprintf("signature %d from bytes", i), func() res {
			var x crypto.Signature
			err := x.Deserialize(bytes.NewReader(append(append([]byte{}, s.C[:]...), s.R[:]...)))
			return res{show: func() string { return fmt.Sprintf("%x %v", x, err) }}
		}})
	}
	ops = append(ops, op{"signature from too few bytes", func() res {
		var x crypto.Signature
		return text("%v", x.Deserialize(bytes.NewReader(good.C[:])) != nil)
	}})
	return
}

func makeRing(h crypto.Hash, ks []pair, at int, nonce string) (im crypto.KeyImage, sigs []crypto.Signature) {
	I := ref.Hp(ks[at].pub[:]).Mul(ks[at].s)
	im = I.Bytes()
	sigs = make([]crypto.Signature, len(ks))
	buf := append([]byte{}, h[:]...)
	n := keccakScalar(nonce)
	sum := new(big.Int)
	for i, k := range ks {
		var x, y [32]byte
		hp := ref.Hp(k.pub[:])
		if i == at {
			x, y = ref.Base.Mul(n).Bytes(), hp.Mul(n).Bytes()
		} else {
			C, R := keccakScalar(fmt.Sprint(nonce, "c", i)), keccakScalar(fmt.Sprint(nonce, "r", i))
			p, _ := ref.DecodePoint(k.pub)
			x = p.Mul(C).Add(ref.Base.Mul(R)).Bytes()
			y = I.Mul(C).Add(hp.Mul(R)).Bytes()
			sigs[i].C, sigs[i].R = ref.ScalarBytes(C), ref.ScalarBytes(R)
			sum.Add(sum, C)
		}
		buf = append(append(buf, x[:]...), y[:]...)
	}
	C := new(big.Int).Sub(ref.Hs(buf), sum)
	C.Mod(C, ref.Order)
	R := new(big.Int).Sub(n, new(big.Int).Mul(C, ks[at].s))
	sigs[at].C, sigs[at].R = ref.ScalarBytes(C), ref.ScalarBytes(R.Mod(R, ref.Order))
	return
}

func ringOps() (ops []op) {
	ks := []pair{newPair(ref.Hs([]byte("a"))), newPair(ref.Hs([]byte("b"))), newPair(ref.Hs([]byte("c")))}
	h, h2 := crypto.Hash(ref.Keccak([]byte("x"))), crypto.Hash{}
	pubs := func(l []pair) (out []crypto.PublicKey) {
		for _, k := range l {
			out = append(out, k.pub)
		}
		return
	}
	check := func(what string, m crypto.Hash, im crypto.KeyImage, l []crypto.PublicKey, sigs []crypto.Signature) {
		for _, images := range []bool{true, false} {
			images := images
			ops = append(ops, op{fmt.Sprintf("check of %s, key image %v", what, images), func() res {
				a, b, p, s := m, im, append([]crypto.PublicKey{}, l...), append([]crypto.Signature{}, sigs...)
				ok := crypto.CheckRingSignature(&a, &b, &p, &s, images)
				return res{show: func() string { return fmt.Sprintf("%v %x %x %x %x", ok, a, b, p, s) }}
			}})
		}
	}
	im1, s1 := makeRing(h, ks[:1], 0, "one")
	im2, s2 := makeRing(h, ks[:2], 1, "two")
	im3, s3 := makeRing(h, ks, 2, "three")
	check("a ring of one", h, im1, pubs(ks[:1]), s1)
	check("a ring of two", h, im2, pubs(ks[:2]), s2)
	check("a ring of three", h, im3, pubs(ks), s3)
	check("a ring of two for another message", h2, im2, pubs(ks[:2]), s2)
	check("a ring of two with another image", h, im1, pubs(ks[:2]), s2)
	check("a ring with no point", h, im2, []crypto.PublicKey{ks[0].pub, badPoint}, s2)
	check("a ring with a wrong image", h, badPoint, pubs(ks[:2]), s2)
	for n := 1; n <= 3; n++ {
		n := n
		ops = append(ops, op{fmt.Sprintf("ring signature of %d", n), func() res {
			m, sec := h, ks[n-1].sec
			im := crypto.KeyImage(ref.Hp(ks[n-1].pub[:]).Mul(ks[n-1].s).Bytes())
			p := pubs(ks[:n])
			s, err := crypto.GenerateRingSignature(&m, &im, &p, &sec, uint64(n-1))
			return res{show: func() string {
				if err != nil {
					return "refused"
				}
				m2, im2, p2, s2 := h, im, pubs(ks[:n]), append([]crypto.Signature{}, s...)
				return fmt.Sprintf("valid %v %x %x %x", crypto.CheckRingSignature(&m2, &im2, &p2, &s2, true), m, im, p)
			}}
		}})
	}
	for i, k := range ks[:2] {
		k := k
		ops = append(ops, op{fmt.Sprintf("key image %d", i), func() res {
			p, s := k.pub, k.sec
			im, err := crypto.GenerateKeyImage(&p, &s)
			if err != nil {
				return fixed("refused")
			}
			return res{show: func() string { return fmt.Sprintf("%x of %x %x", *im, p, s) }, spoil: func() { im[1] ^= 1; p[1] ^= 1 }}
		}})
	}
	ops = append(ops, op{"key image of a wrong secret", func() res {
		p, s := ks[0].pub, crypto.SecretKey(badScalar)
		_, err := crypto.GenerateKeyImage(&p, &s)
		return text("%v", err != nil)
	}}, op{"image times the order", func() res {
		a, b := im2, crypto.KeyImage(ref.ScalarBytes(ref.Order))
		r, err := a.ScalarMult(&b)
		if err != nil {
			return fixed("refused")
		}
		return res{show: func() string { return fmt.Sprintf("%x of %x %x", *r, a, b) }, spoil: func() { r[1] ^= 1 }}
	}}, op{"no point times a number", func() res {
		a, b := crypto.KeyImage(badPoint), im2
		_, err := a.ScalarMult(&b)
		return text("%v", err != nil)
	}})
	return
}

func hashes(n int, s string) (out crypto.HashList) {
	for i := 0; i < n; i++ {
		out = append(out, crypto.Hash(ref.Keccak([]byte(fmt.Sprint(s, i)))))
	}
	return
}

func merkleOps() (ops []op) {
	for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 33} {
		for _, s := range []string{"a", "b"} {
			if n > 5 && s == "b" {
				continue
			}
			l := hashes(n, s)
			ops = append(ops, op{fmt.Sprintf("root of %d hashes %q", n, s), func() res {
				in := append(make(crypto.HashList, 0, n+3), l...)
				h := in.MerkleRootHash()
				if h == nil {
					return fixed("none")
				}
				return res{show: func() string { return fmt.Sprintf("%x of %x", *h, in[:cap(in)]) }, spoil: func() { h[0] ^= 1; in[0][0] ^= 1 }}
			}})
		}
	}
	for n := 0; n <= 3; n++ {
		l := hashes(n, "c")
		for i := 0; i < 2; i++ {
			leaf := crypto.Hash{byte(i)}
			ops = append(ops, op{fmt.Sprintf("root from a branch of %d and leaf %d", n, i), func() res {
				in := append(crypto.HashList{}, l...)
				h := in.TreeHashFromBranch(leaf)
				return res{show: func() string { return fmt.Sprintf("%x of %x", h, in) }}
			}})
		}
	}
	return
}

func listOps() (ops []op) {
	l := hashes(4, "l")
	show := func(x *crypto.HashList) string { return fmt.Sprintf("%x", *x) }
	for i, lst := range []crypto.HashList{{}, {l[0]}, {l[0], l[1], l[0]}, {l[2], l[3], l[0], l[1], l[2]}} {
		lst := lst
		for k := 0; k < 3; k++ {
			h := l[k]
			ops = append(ops, op{fmt.Sprintf("removing hash %d from list %d", k, i), func() res {
				x, g := append(make(crypto.HashList, 0, 8), lst...), h
				x.Remove(&g)
				return res{show: func() string { return show(&x) }, spoil: func() { g[0] ^= 1; x = append(x, g) }}
			}}, op{fmt.Sprintf("finding hash %d in list %d", k, i), func() res {
				x, g := append(crypto.HashList{}, lst...), h
				return text("%d %v %s", x.Index(&g), x.Has(&g), show(&x))
			}})
		}
	}
	return
}

func curveOps() (ops []op) {
	bs := func(s string) (b [32]byte) { return ref.ScalarBytes(keccakScalar(s)) }
	a, b, d := bs("a"), bs("b"), bs("c")
	w := [64]byte{}
	for i := range w {
		w[i] = byte(i * 7)
	}
	P := [2][32]byte{ref.Base.Mul(keccakScalar("p")).Bytes(), ref.Base.Mul(keccakScalar("q")).Bytes()}
	add := func(name string, f func() string) { ops = append(ops, op{name, func() res { return fixed(f()) }}) }
	x32 := func(v [32]byte) string { return fmt.Sprintf("%x", v) }
	add("sum", func() string { x, y := a, b; return x32(ed.ScAdd(&x, &y)) })
	add("sum the other way", func() string { x, y := d, b; return x32(ed.ScAdd(&x, &y)) })
	add("difference", func() string { return x32(ed.ScSub(a, b)) })
	add("product difference", func() string { return x32(ed.ScMulSub(a, b, d)) })
	add("product sum", func() string { var s [32]byte; x, y, z := a, b, d; ed.ScMulAdd(&s, &x, &y, &z); return x32(s) })
	add("reduction of 32 bytes", func() string { return x32(ed.ScReduce32(badScalar)) })
	add("reduction of 64 bytes", func() string { return x32(ed.ScReduce(w)) })
	add("checks of numbers", func() string {
		x := badScalar
		return fmt.Sprint(ed.ScCheck(a), ed.ScCheck(badScalar), ed.ScMinimal(&x), ed.ScIsNonZero(ed.ScZero()), ed.ScIsNonZero(b))
	})
	for i, p := range P {
		p := p
		add(fmt.Sprintf("decoding and doubling point %d", i), func() string {
			in := p
			e, err := ed.GeFromBytes(&in)
			if err != nil {
				return "refused"
			}
			var c ed.CompletedGroupElement
			var r ed.ProjectiveGroupElement
			e.Double(&c)
			c.ToProjective(&r)
			return x32(r.ToBytes()) + x32(e.ToBytes())
		})
		add(fmt.Sprintf("multiplying point %d", i), func() string {
			in, s := p, a
			e, err := ed.GeFromBytes(&in)
			if err != nil {
				return "refused"
			}
			r := ed.GeScalarMult(&s, e)
			return x32(r.ToBytes()) + x32(e.ToBytes())
		})
		add(fmt.Sprintf("double product with point %d", i), func() string {
			in, s, t := p, a, b
			e, err := ed.GeFromBytes(&in)
			if err != nil {
				return "refused"
			}
			var r, q ed.ProjectiveGroupElement
			ed.GeDoubleScalarMultBaseVartime(&r, &s, e, &t)
			ed.GeDoubleScalarMultPrecompVartime(&q, &s, e, &t, ed.GeDSMPreComp(e))
			return x32(r.ToBytes()) + x32(q.ToBytes())
		})
		add(fmt.Sprintf("subgroup check of point %d", i), func() string {
			in := p
			e, err := ed.GeFromBytes(&in)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(ed.GeCheckSubGroupPreCompVartime(ed.GeDSMPreComp(e)) == 0)
		})
		add(fmt.Sprintf("mapping of bytes %d", i), func() string {
			h := ref.Keccak(p[:])
			var r ed.ProjectiveGroupElement
			err := r.FromBytes(&h)
			if err != nil {
				return "refused"
			}
			var c ed.CompletedGroupElement
			ed.GeMul8(&c, &r)
			var q ed.ProjectiveGroupElement
			c.ToProjective(&q)
			return x32(q.ToBytes())
		})
	}
	for i, s := range [][32]byte{a, b, {}} {
		s := s
		add(fmt.Sprintf("multiple %d of the base", i), func() string {
			var e ed.ExtendedGroupElement
			x := s
			ed.GeScalarMultBase(&e, &x)
			return x32(e.ToBytes())
		})
	}
	add("decoding of no point", func() string { x := badPoint; _, err := ed.GeFromBytes(&x); return fmt.Sprint(err != nil) })
	add("inverse", func() string {
		var f, g, h ed.FieldElement
		x := a
		ed.FeFromBytes(&f, &x)
		ed.FeInvert(&g, &f)
		ed.FeMul(&h, &f, &g)
		var o [2][32]byte
		ed.FeToBytes(&o[0], g)
		ed.FeToBytes(&o[1], h)
		return fmt.Sprintf("%x", o)
	})
	return
}
