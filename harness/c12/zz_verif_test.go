//go:build go1.21

package c12

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

type extra struct {
	key   [32]byte
	nonce []byte
	tag   bool
	depth uint64
	root  [32]byte
}

// parse is the format: (fields, accepted, decided). Undecided are the spots the format leaves open: a tag byte
// followed by 255 or 256 zeros, numbers not in the shortest form, an empty nonce after another nonce.
func parse(b []byte) (e extra, ok, decided bool) {
	decided = true
	had := false
	for len(b) > 0 {
		t := b[0]
		b = b[1:]
		switch t {
		case 0:
			for _, x := range b {
				if x != 0 {
					return e, false, decided
				}
			}
			if len(b) > 256 {
				return e, false, decided
			}
			if len(b) > 254 {
				decided = false
			}
			b = nil
		case 1:
			if len(b) < 32 {
				return e, false, decided
			}
			copy(e.key[:], b)
			b = b[32:]
		case 2:
			n, k, short := ref.ReadVarint(b)
			if k <= 0 {
				return e, false, decided
			}
			decided = decided && short
			if n > 255 || uint64(len(b)-k) < n {
				return e, false, decided
			}
			if n == 0 && had {
				decided = false
			}
			had = had || n > 0
			e.nonce = b[k : k+int(n)]
			b = b[k+int(n):]
		case 3:
			n, k, short := ref.ReadVarint(b)
			if k <= 0 {
				return e, false, decided
			}
			decided = decided && short
			if n != 33 {
				return e, false, decided
			}
			b = b[k:]
			d, k, short := ref.ReadVarint(b)
			if k <= 0 {
				return e, false, decided
			}
			// 33 bytes are the root and one byte of depth
			decided = decided && short && k == 1
			if len(b)-k < 32 {
				return e, false, decided
			}
			e.tag, e.depth = true, d
			copy(e.root[:], b[k:])
			b = b[k+32:]
		default:
			return e, false, decided
		}
	}
	return e, true, decided
}

func TestVerif(t *testing.T) {
	c := vlib.New("C12")
	check := func(b []byte) {
		// bytes beyond the field exist in memory but are not its part
		in := make([]byte, len(b), len(b)+64)
		copy(in, b)
		over := in[:cap(in)]
		for i := len(b); i < len(over); i++ {
			over[i] = 0
		}
		for _, viaPrefix := range []bool{false, true} {
			var got *cryptonote.TransactionExtraFields
			var err error
			if viaPrefix {
				tp := cryptonote.TransactionPrefix{Extra: in}
				got, err = tp.ParseExtra()
			} else {
				got, err = cryptonote.TxExtraFromBytes(in)
			}
			c.Eval(1)
			if !bytes.Equal(in, b) {
				c.Fail(fmt.Sprintf("%x", b), "the field was modified: %x", in)
			}
			want, ok, decided := parse(b)
			if !decided {
				continue
			}
			if (err == nil) != ok {
				c.Fail(fmt.Sprintf("%x", b), "error %v, expected accepted=%v", err, ok)
			}
			if !ok {
				continue
			}
			if [32]byte(got.PublicKey) != want.key || !bytes.Equal(got.Nonce, want.nonce) {
				c.Fail(fmt.Sprintf("%x", b), "parsed to key %x nonce %x, expected %x %x", got.PublicKey, got.Nonce, want.key, want.nonce)
			}
			if (got.MiningTag != nil) != want.tag || want.tag && (got.MiningTag.Depth != want.depth || [32]byte(got.MiningTag.MerkleRoot) != want.root) {
				c.Fail(fmt.Sprintf("%x", b), "parsed to tag %+v, expected %v %d %x", got.MiningTag, want.tag, want.depth, want.root)
			}
		}
	}
	// 1. All short byte strings.
	check(nil)
	for i := 0; i < 256; i++ {
		check([]byte{byte(i)})
	}
	c.Each("two bytes", 256, func(w, i int) {
		for j := 0; j < 256; j++ {
			check([]byte{byte(i), byte(j)})
		}
	})
	low := 16
	if c.Thorough {
		low = 256
	}
	c.Each("three bytes", 256*low, func(w, i int) {
		for j := 0; j < 256; j++ {
			if low < 256 && i%low > 5 {
				break
			}
			check([]byte{byte(i % low), byte(i / low), byte(j)})
		}
	})
	// strings over structural bytes
	al := []byte{0, 1, 2, 3, 4, 33, 0x80, 0xff}
	n := 6
	if c.Thorough {
		n = 8
	}
	for k := 3; k <= n; k++ {
		radix := make([]int, k)
		for i := range radix {
			radix[i] = len(al)
		}
		c.Each(fmt.Sprintf("structural bytes, length %d", k), vlib.Size(radix), func(w, i int) {
			b := make([]byte, k)
			for p, x := range vlib.Unrank(i, radix) {
				b[p] = al[x]
			}
			check(b)
		})
	}
	// 2. Sequences of fields.
	fillb := func(n int, f byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = f + byte(i)
		}
		return b
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	frag := [][]byte{
		cat([]byte{1}, fillb(32, 9)), cat([]byte{1}, fillb(32, 0x80)), cat([]byte{1}, make([]byte, 32)),
		{2, 0}, cat([]byte{2, 1}, []byte{0}), cat([]byte{2, 33}, fillb(33, 0)), cat([]byte{2, 9}, fillb(9, 1)),
		cat([]byte{2, 0x7f}, fillb(127, 3)), cat([]byte{2, 0x80, 1}, fillb(128, 3)), cat([]byte{2, 0xff, 1}, fillb(255, 1)),
		cat([]byte{2, 0x80, 2}, fillb(256, 3)), cat([]byte{2, 0x81, 0x80, 0}, fillb(1, 3)), {2, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1},
		{2, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2}, {2, 0xff, 0xff, 0xff, 0xff, 0x0f}, {2, 0x80, 0x80, 0x80, 0x80, 0x10},
		cat([]byte{3, 33, 0}, fillb(32, 40)), cat([]byte{3, 33, 5}, fillb(32, 1)), cat([]byte{3, 33, 127}, fillb(32, 200)),
		cat([]byte{3, 33, 0x80, 1}, fillb(32, 7)), cat([]byte{3, 33, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2}, fillb(32, 7)),
		cat([]byte{3, 32}, fillb(32, 2)), cat([]byte{3, 34, 1}, fillb(33, 2)), cat([]byte{3, 0}), cat([]byte{3, 0xa1, 0}, fillb(33, 0)), cat([]byte{3, 0xa1, 1, 0}, fillb(32, 0)), cat([]byte{3, 161, 2}, fillb(33, 0)),
		{0}, make([]byte, 2), make([]byte, 255), {4}, {5, 1}, {0xde, 1, 2}, {0x80}, {0xff},
		cat(make([]byte, 200), []byte{1}, make([]byte, 40)), cat(make([]byte, 3), []byte{2, 0}),
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for k := 1; k <= depth; k++ {
		radix := make([]int, k)
		for i := range radix {
			radix[i] = len(frag)
		}
		c.Each(fmt.Sprintf("sequences of %d fields", k), vlib.Size(radix), func(w, i int) {
			var b []byte
			ix := vlib.Unrank(i, radix)
			for _, x := range ix {
				b = append(b, frag[x]...)
			}
			c.Distinct(fmt.Sprint(ix))
			check(b)
			if k <= 2 || c.Thorough && k <= 3 {
				from := 0
				for _, x := range ix[:k-1] {
					from += len(frag[x])
				}
				for cut := from; cut < len(b); cut++ { // cut in the last one
					check(b[:cut])
				}
			}
		})
	}
	// every byte of valid two-field strings replaced by boundary values
	vals := []byte{0, 1, 2, 3, 4, 32, 33, 34, 127, 128, 161, 255}
	valid := []int{0, 3, 4, 5, 6, 8, 16, 17, 18, 26}
	c.Each("one byte changed", len(valid)*len(valid), func(w, i int) {
		b := cat(frag[valid[i/len(valid)]], frag[valid[i%len(valid)]])
		for p := range b {
			o := b[p]
			for _, v := range vals {
				b[p] = v
				check(b)
			}
			b[p] = o
		}
	})
	// padding of every length, with a non-zero byte at every place
	c.Each("padding", 600, func(w, n int) {
		b := make([]byte, n+1)
		check(b)
		c.Distinct(fmt.Sprint("pad", n))
		for p := 1; p <= n; p++ {
			for _, v := range []byte{1, 2, 0xff} {
				b[p] = v
				check(b)
			}
			b[p] = 0
		}
		check(cat(frag[0], b))
		check(cat(frag[9], b))
	})
	// nonces of every length, declared and present
	c.Each("nonce", 600, func(w, n int) {
		for _, d := range []int{-2, -1, 0, 1, 33, 300} {
			if n+d < 0 {
				continue
			}
			check(cat([]byte{2}, ref.Varint(uint64(n)), make([]byte, n+d)))
			check(cat([]byte{2}, ref.Varint(uint64(n)), fillb(n+d, 1)))
			c.Distinct(fmt.Sprint("nonce", n, d))
		}
	})
	// sizes and depths around every power of two
	for k := uint(0); k < 64; k++ {
		for d := uint64(0); d < 3; d++ {
			v := ref.Varint(1<<k + d - 1)
			check(cat([]byte{2}, v, fillb(300, 1)))
			check(cat([]byte{3}, v, fillb(40, 1)))
			check(cat([]byte{3, 33}, v, fillb(32, 1)))
		}
	}
	c.Outcome("done")
	c.Sample(fmt.Sprintf("%x", cat(frag[0], frag[6], frag[17])))
	c.Sample(fmt.Sprintf("%x", cat(frag[26], frag[0])))
	c.Done()
}
