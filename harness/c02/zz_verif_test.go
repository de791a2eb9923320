//go:build go1.21

package c02

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

type addr struct {
	tag         uint64
	spend, view [32]byte
}

func withChecksum(b []byte) string {
	h := ref.Keccak(b)
	return ref.B58Encode(append(append([]byte{}, b...), h[:4]...))
}

func (a addr) text() string {
	return withChecksum(append(append(ref.Varint(a.tag), a.spend[:]...), a.view[:]...))
}

// parse is the reference: (address, accepted, decided).
func parse(s string) (addr, bool, bool) {
	b, ok := ref.B58Decode(s)
	if !ok || len(b) <= 4 {
		return addr{}, false, true
	}
	p := b[:len(b)-4]
	h := ref.Keccak(p)
	if !bytes.Equal(h[:4], b[len(p):]) {
		return addr{}, false, true
	}
	tag, n, short := ref.ReadVarint(p)
	if n <= 0 || len(p)-n != 64 {
		return addr{}, false, true
	}
	a := addr{tag: tag}
	copy(a.spend[:], p[n:])
	copy(a.view[:], p[n+32:])
	return a, true, short
}

func TestVerif(t *testing.T) {
	c := vlib.New("C02")
	var tags []uint64
	for _, v := range []uint64{0, 1, 111, 0x369488, 0xa74ad1d14, 0xa7f2119} {
		tags = append(tags, v)
	}
	for k := uint(7); k < 64; k += 7 {
		tags = append(tags, 1<<k-1, 1<<k)
	}
	tags = append(tags, 1<<63, ^uint64(0), ^uint64(0)-1)
	var keys [][32]byte
	fill := func(f func(i int) byte) {
		var k [32]byte
		for i := range k {
			k[i] = f(i)
		}
		keys = append(keys, k)
	}
	fill(func(int) byte { return 0 })
	fill(func(int) byte { return 0xff })
	fill(func(i int) byte { return byte(i) })
	fill(func(i int) byte { return byte(31*i + 7) })
	for b := 0; b < 32; b++ {
		b := b
		if b%4 != 0 && b != 31 && !c.Thorough {
			continue
		}
		fill(func(i int) byte {
			if i == b {
				return 0x80
			}
			return 0
		})
	}
	other := addr{tag: 7}
	other.spend[3], other.view[9] = 9, 4

	check := func(s string) {
		want, ok, decided := parse(s)
		if !decided {
			return
		}
		for _, fresh := range []bool{true, false} {
			var a cryptonote.Address
			if !fresh {
				if err := a.FromString(other.text()); err != nil {
					c.Fail(other.text(), "valid address refused: %s", err)
				}
				if a.Base58() != other.text() {
					c.Fail(other.text(), "is rendered %q", a.Base58())
				}
			}
			before := a
			err := a.FromString(s)
			c.Eval(1)
			if (err == nil) != ok {
				c.Fail(fmt.Sprintf("FromString(%q)", s), "error %v, expected accepted=%v", err, ok)
			}
			if !ok {
				if a != before {
					c.Fail(fmt.Sprintf("FromString(%q)", s), "a refused text changed the address to %+v", a)
				}
				if !fresh && a.Base58() != other.text() {
					c.Fail(fmt.Sprintf("FromString(%q)", s), "a refused text changed the rendering to %s", a.Base58())
				}
				continue
			}
			if a.Tag != want.tag || [32]byte(a.SpendPublicKey) != want.spend || [32]byte(a.ViewPublicKey) != want.view {
				c.Fail(fmt.Sprintf("FromString(%q)", s), "parsed to %d %x %x, expected %+v", a.Tag, a.SpendPublicKey, a.ViewPublicKey, want)
			}
			if a.Base58() != s {
				c.Fail(fmt.Sprintf("FromString(%q).Base58()", s), "is %q", a.Base58())
			}
		}
		if ok {
			c.Outcome("accepted")
		} else {
			c.Outcome("refused")
		}
	}

	// 1. All tags and key pairs round-trip.
	c.Each("round trip", len(tags)*len(keys)*len(keys), func(w, i int) {
		ix := vlib.Unrank(i, []int{len(tags), len(keys), len(keys)})
		a := addr{tags[ix[0]], keys[ix[1]], keys[ix[2]]}
		n := cryptonote.NewAddress(a.tag, a.spend, a.view)
		s := n.Base58()
		c.Set(w, fmt.Sprintf("NewAddress(%d,%x,%x)", a.tag, a.spend, a.view))
		if s != a.text() {
			c.Fail(fmt.Sprintf("NewAddress(%d,%x,%x)", a.tag, a.spend, a.view), "renders %q, expected %q", s, a.text())
		}
		if n.Base58() != s {
			c.Fail(s, "second rendering differs")
		}
		c.Distinct(s)
		check(s)
	})

	// 2. Damage: every character replaced, every pair swapped, every cut, every extension.
	base := []addr{{111, keys[2], keys[3]}, {1 << 62, keys[3], keys[1]}, {0, keys[0], keys[0]}, {300, keys[1], keys[0]}}
	chars := []byte(ref.B58Alphabet + "0OIl \x00\n\xc3\xff")
	for bi, a := range base {
		s := a.text()
		c.Each(fmt.Sprintf("replace %d", bi), len(s)*len(chars), func(w, i int) {
			b := []byte(s)
			b[i/len(chars)] = chars[i%len(chars)]
			c.Set(w, string(b))
			c.Distinct(string(b))
			check(string(b))
		})
		c.Each(fmt.Sprintf("swap %d", bi), len(s)*len(s), func(w, i int) {
			b := []byte(s)
			x, y := i/len(s), i%len(s)
			if x >= y {
				return
			}
			b[x], b[y] = b[y], b[x]
			c.Set(w, string(b))
			c.Distinct(string(b))
			check(string(b))
		})
		c.Each(fmt.Sprintf("cut, extend, delete, insert %d", bi), len(s)+1, func(w, i int) {
			c.Set(w, s[:i])
			check(s[:i])
			check(s[i:])
			if i < len(s) {
				check(s[:i] + s[i+1:])
			}
			for _, x := range chars {
				v := s[:i] + string([]byte{x}) + s[i:]
				c.Distinct(v)
				check(v)
			}
			check(s + s[:i])
		})
		if c.Thorough || bi == 0 { // two replaced characters
			small := []byte{'1', '2', 'z', 's'}
			c.Each(fmt.Sprintf("replace two %d", bi), len(s)*len(s), func(w, i int) {
				x, y := i/len(s), i%len(s)
				if x >= y {
					return
				}
				for _, p := range small {
					for _, q := range small {
						b := []byte(s)
						b[x], b[y] = p, q
						c.Distinct(string(b))
						check(string(b))
					}
				}
			})
		}
		// every bit of the decoded bytes
		raw, _ := ref.B58Decode(s)
		c.Each(fmt.Sprintf("bits %d", bi), len(raw)*8, func(w, i int) {
			b := append([]byte{}, raw...)
			b[i/8] ^= 1 << uint(i%8)
			v := ref.B58Encode(b)
			c.Distinct(v)
			check(v)
			// and the same with the checksum of the damaged payload: a different, valid address
			if i/8 < len(raw)-4 {
				check(withChecksum(b[:len(b)-4]))
			}
		})
	}
	// 3. Payload shapes with a valid checksum.
	c.Each("payload length", 200, func(w, n int) {
		for _, tag := range tags {
			p := append(ref.Varint(tag), bytes.Repeat([]byte{5}, n)...)
			s := withChecksum(p)
			c.Set(w, s)
			c.Distinct(s)
			check(s)
		}
		for _, x := range []byte{0, 0x7f, 0x80, 0xff} {
			s := withChecksum(bytes.Repeat([]byte{x}, n))
			c.Distinct(s)
			check(s)
		}
	})
	// 4. A wrong checksum byte for every position and value.
	c.Each("checksum", 4*256, func(w, i int) {
		raw, _ := ref.B58Decode(base[0].text())
		raw[len(raw)-4+i/256] = byte(i % 256)
		s := ref.B58Encode(raw)
		c.Distinct(s)
		check(s)
	})
	c.Sample("round trip of " + base[0].text())
	c.Sample("all single-character changes of " + base[1].text())
	c.Done()
}
