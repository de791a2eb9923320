//go:build go1.21

package c01

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto/base58"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var encLen = []int{0, 2, 3, 5, 6, 7, 9, 10, 11}

func decLen(n int) int {
	for i, e := range encLen {
		if e == n {
			return i
		}
	}
	return -1
}

// Reference: blocks as big integers.
func refEncode(b []byte) string {
	var s []byte
	for len(b) > 0 {
		n := 8
		if len(b) < n {
			n = len(b)
		}
		s = append(s, encBlock(new(big.Int).SetBytes(b[:n]), encLen[n])...)
		b = b[n:]
	}
	return string(s)
}

func encBlock(v *big.Int, w int) []byte {
	v = new(big.Int).Set(v)
	out := make([]byte, w)
	m := new(big.Int)
	for i := w - 1; i >= 0; i-- {
		v.DivMod(v, big.NewInt(58), m)
		out[i] = alphabet[m.Int64()]
	}
	return out
}

func refDecode(s string) ([]byte, bool) {
	var out []byte
	for len(s) > 0 {
		n := 11
		if len(s) < n {
			n = len(s)
		}
		size := decLen(n)
		if size < 0 {
			return nil, false
		}
		v := new(big.Int)
		for i := 0; i < n; i++ {
			d := bytes.IndexByte([]byte(alphabet), s[i])
			if d < 0 {
				return nil, false
			}
			v.Mul(v, big.NewInt(58))
			v.Add(v, big.NewInt(int64(d)))
		}
		if v.BitLen() > 8*size {
			return nil, false
		}
		blk := make([]byte, size)
		v.FillBytes(blk)
		out = append(out, blk...)
		s = s[n:]
	}
	return out, true
}

func TestVerif(t *testing.T) {
	c := vlib.New("C01")

	enc := func(b []byte) {
		in := append([]byte{}, b...)
		s := base58.Encode(in)
		want := refEncode(b)
		c.Eval(1)
		if s != want {
			c.Fail(fmt.Sprintf("Encode(%x)", b), "encodes to %q, expected %q", s, want)
		}
		if !bytes.Equal(in, b) {
			c.Fail(fmt.Sprintf("Encode(%x)", b), "argument was modified")
		}
		d, err := base58.Decode(s)
		if err != nil || !bytes.Equal(d, b) {
			c.Fail(fmt.Sprintf("Decode(Encode(%x))", b), "decodes to %x, %v", d, err)
		}
		// earlier results must not be disturbed by later calls
		_ = base58.Encode([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9})
		keep := append([]byte{}, d...)
		_, _ = base58.Decode("1112111zzzz")
		if s != want || !bytes.Equal(keep, d) {
			c.Fail(fmt.Sprintf("Encode(%x)", b), "a later call changed an earlier result")
		}
	}
	dec := func(s string) {
		want, ok := refDecode(s)
		d, err := base58.Decode(s)
		c.Eval(1)
		if ok != (err == nil) {
			c.Fail(fmt.Sprintf("Decode(%q)", s), "error %v, expected accepted=%v", err, ok)
		}
		if ok {
			if !bytes.Equal(d, want) {
				c.Fail(fmt.Sprintf("Decode(%q)", s), "decodes to %x, expected %x", d, want)
			}
			if e := base58.Encode(d); e != s {
				c.Fail(fmt.Sprintf("Encode(Decode(%q))", s), "is %q", e)
			}
			c.Outcome("accepted")
		} else {
			if len(d) != 0 {
				c.Fail(fmt.Sprintf("Decode(%q)", s), "data %x with an error", d)
			}
			c.Outcome("refused")
		}
	}

	// 1. All byte strings up to two bytes; longer ones over boundary bytes.
	c.Each("bytes up to 2", 65793, func(w, i int) {
		var b []byte
		switch {
		case i == 0:
		case i <= 256:
			b = []byte{byte(i - 1)}
		default:
			b = []byte{byte((i - 257) >> 8), byte(i - 257)}
		}
		c.Set(w, fmt.Sprintf("Encode(%x)", b))
		c.Distinct(string(b))
		enc(b)
	})
	bb := []byte{0, 1, 0x7f, 0x80, 0xff}
	if c.Thorough {
		bb = []byte{0, 1, 0x39, 0x3a, 0x7f, 0x80, 0xfe, 0xff}
	}
	for n := 3; n <= 8; n++ {
		radix := make([]int, n)
		for i := range radix {
			radix[i] = len(bb)
		}
		c.Each(fmt.Sprintf("bytes %d", n), vlib.Size(radix), func(w, i int) {
			b := make([]byte, n)
			for k, x := range vlib.Unrank(i, radix) {
				b[k] = bb[x]
			}
			c.Set(w, fmt.Sprintf("Encode(%x)", b))
			c.Distinct(string(b))
			enc(b)
		})
	}

	// 2. Values around every power of 58 and of 256, in every block size; multi block data.
	vals := func(n int) []*big.Int {
		max := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
		var vs []*big.Int
		add := func(v *big.Int) {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(v, big.NewInt(d))
				if x.Sign() >= 0 && x.Cmp(max) < 0 {
					vs = append(vs, x)
				}
			}
		}
		for k := 0; k <= 11; k++ {
			p := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(k)), nil)
			for _, m := range []int64{1, 2, 29, 57} {
				add(new(big.Int).Mul(p, big.NewInt(m)))
			}
		}
		for k := 0; k <= 8; k++ {
			add(new(big.Int).Lsh(big.NewInt(1), uint(8*k)))
		}
		add(new(big.Int).Sub(max, big.NewInt(1)))
		add(big.NewInt(0))
		return vs
	}
	for first := 0; first <= 2; first++ { // number of full blocks in front
		for n := 0; n <= 8; n++ {
			vs := []*big.Int{big.NewInt(0)}
			if n > 0 {
				vs = vals(n)
			}
			fv := vals(8)
			if first == 0 {
				fv = fv[:1]
			}
			c.Each(fmt.Sprintf("boundary values, %d full blocks, last %d", first, n), len(vs)*len(fv), func(w, i int) {
				var b []byte
				f := make([]byte, 8)
				fv[i/len(vs)].FillBytes(f)
				for k := 0; k < first; k++ {
					b = append(b, f...)
				}
				l := make([]byte, n)
				vs[i%len(vs)].FillBytes(l)
				b = append(b, l...)
				c.Set(w, fmt.Sprintf("Encode(%x)", b))
				c.Distinct("v" + string(b))
				enc(b)
			})
		}
	}

	// 3. Strings: everything up to two characters over all bytes, three over the alphabet and foreigners.
	c.Each("strings up to 2", 65793, func(w, i int) {
		var b []byte
		switch {
		case i == 0:
		case i <= 256:
			b = []byte{byte(i - 1)}
		default:
			b = []byte{byte((i - 257) >> 8), byte(i - 257)}
		}
		c.Set(w, fmt.Sprintf("Decode(%q)", b))
		c.Distinct("s" + string(b))
		dec(string(b))
	})
	al := alphabet + "0OIl \x00\xff"
	c.Each("strings of 3", len(al)*len(al)*len(al), func(w, i int) {
		ix := vlib.Unrank(i, []int{len(al), len(al), len(al)})
		s := string([]byte{al[ix[0]], al[ix[1]], al[ix[2]]})
		c.Set(w, fmt.Sprintf("Decode(%q)", s))
		c.Distinct("s" + s)
		dec(s)
	})

	// 4. Every length 0..35: strings of one repeated character, strings around the overflow boundary of
	// every block, with every byte value substituted at every position.
	lens := 24
	if c.Thorough {
		lens = 35
	}
	type strc struct{ s string }
	var list []string
	for L := 1; L <= lens; L++ {
		full, last := L/11, L%11
		bases := [][]byte{bytes.Repeat([]byte{'1'}, L), bytes.Repeat([]byte{'z'}, L), bytes.Repeat([]byte{'2'}, L), bytes.Repeat([]byte{'M'}, L)}
		mk := func(delta int64) []byte {
			var b []byte
			blk := func(w, size int) {
				v := new(big.Int).Lsh(big.NewInt(1), uint(8*size))
				v.Add(v, big.NewInt(delta))
				lim := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(w)), nil)
				if v.Cmp(lim) >= 0 || size < 0 {
					v = new(big.Int)
				}
				b = append(b, encBlock(v, w)...)
			}
			for k := 0; k < full; k++ {
				blk(11, 8)
			}
			if last > 0 {
				size := decLen(last)
				if size < 0 {
					b = append(b, bytes.Repeat([]byte{'1'}, last)...)
				} else {
					blk(last, size)
				}
			}
			return b
		}
		for _, d := range []int64{-2, -1, 0, 1, 57, 58} {
			bases = append(bases, mk(d))
		}
		for _, b := range bases {
			list = append(list, string(b))
		}
	}
	c.Each("substituted strings", len(list), func(w, i int) {
		base := []byte(list[i])
		c.Set(w, fmt.Sprintf("Decode of %q with one byte replaced", base))
		dec(string(base))
		for pos := range base {
			old := base[pos]
			for x := 0; x < 256; x++ {
				base[pos] = byte(x)
				c.Distinct("s" + string(base))
				dec(string(base))
			}
			base[pos] = old
		}
	})
	// 5. Full 11-character blocks over extreme characters (overflow inside the accumulation).
	ext := "1z2KjpvG"
	if !c.Thorough {
		ext = "1zjp"
	}
	radix := make([]int, 11)
	pre := 11
	for i := range radix {
		radix[i] = len(ext)
	}
	if c.Thorough {
		pre = 8
		for i := pre; i < 11; i++ {
			radix[i] = 2
		}
	}
	n := vlib.Size(radix)
	c.Each("extreme blocks", n, func(w, i int) {
		s := make([]byte, 11)
		for k, x := range vlib.Unrank(i, radix) {
			s[k] = ext[x]
		}
		want, ok := refDecode64(string(s))
		d, err := base58.Decode(string(s))
		c.Eval(1)
		if ok != (err == nil) || (ok && !bytes.Equal(want, d)) {
			c.Fail(fmt.Sprintf("Decode(%q)", s), "decodes to %x, %v; expected %x, accepted=%v", d, err, want, ok)
		}
	})
	c.Sample("Encode(ffffffffffffffff) = " + base58.Encode(bytes.Repeat([]byte{0xff}, 8)))
	_, err := base58.Decode("jpXCZedGfVR")
	c.Sample(fmt.Sprintf("Decode(jpXCZedGfVR): %v", err))
	c.Sample("last list entry with all single-byte substitutions: " + list[len(list)-1])
	c.Done()
}

// refDecode64 is the reference for one full block in 128-bit steps (fast path of refDecode).
func refDecode64(s string) ([]byte, bool) {
	hi, lo := uint64(0), uint64(0)
	for i := 0; i < len(s); i++ {
		d := bytes.IndexByte([]byte(alphabet), s[i])
		if d < 0 {
			return nil, false
		}
		// (hi,lo) = (hi,lo)*58 + d, hi stays small for 11 digits
		l := (lo & 0xffffffff) * 58
		h := (lo >> 32) * 58
		h += l >> 32
		nlo := h<<32 | l&0xffffffff
		nhi := hi*58 + h>>32
		lo = nlo + uint64(d)
		if lo < nlo {
			nhi++
		}
		hi = nhi
	}
	if hi != 0 {
		return nil, false
	}
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(lo >> (56 - 8*uint(i)))
	}
	return b, true
}
