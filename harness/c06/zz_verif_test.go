//go:build go1.21

package c06

import (
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

func TestVerif(t *testing.T) {
	c := vlib.New("C06")
	leaf := func(kind, i int) ref.Hash {
		switch kind {
		case 0:
			return ref.Keccak([]byte{byte(i), byte(i >> 8), 1})
		case 1: // few distinct values
			return ref.Keccak([]byte{byte(i % 3)})
		case 2:
			return ref.Hash{}
		default:
			var h ref.Hash
			for k := range h {
				h[k] = 0xff
			}
			h[0] = byte(i)
			h[31] = byte(i >> 8)
			return h
		}
	}
	root := func(l []ref.Hash, what string) ref.Hash {
		// the list has spare capacity, filled with a mark, to see writes beyond or into it
		hl := make(crypto.HashList, len(l), len(l)+2)
		for i := range l {
			hl[i] = l[i]
		}
		spare := hl[:cap(hl)]
		for i := len(l); i < cap(hl); i++ {
			spare[i][5] = 0xaa
		}
		r := hl.MerkleRootHash()
		c.Eval(1)
		if r == nil {
			c.Fail(what, "no root")
		}
		out := ref.Hash(*r)
		for i := range l {
			if hl[i] != l[i] {
				c.Fail(what, "element %d of the list was modified", i)
			}
		}
		for i := len(l); i < cap(hl); i++ {
			if spare[i] != (crypto.Hash{5: 0xaa}) {
				c.Fail(what, "memory behind the list was modified")
			}
		}
		// the result must not alias the list
		r[0] ^= 0xff
		for i := range l {
			if hl[i] != l[i] {
				c.Fail(what, "the root aliases element %d of the list", i)
			}
		}
		return out
	}
	max, edit := 300, 70
	if c.Thorough {
		max, edit = 1100, 300
	}
	c.Each("lists", max*4, func(w, k int) {
		n, kind := k/4+1, k%4
		what := fmt.Sprintf("list of %d elements of kind %d", n, kind)
		c.Set(w, what)
		l := make([]ref.Hash, n)
		for i := range l {
			l[i] = leaf(kind, i)
		}
		want := ref.TreeHash(l)
		if got := root(l, what); got != want {
			c.Fail(what, "root %x, expected %x", got, want)
		}
		c.Distinct(what)
		if got := root(l, what); got != want {
			c.Fail(what, "second call returns %x, expected %x", got, want)
		}
		br := ref.TreeBranch(l)
		var hb crypto.HashList
		for _, h := range br {
			hb = append(hb, crypto.Hash(h))
		}
		if got := hb.TreeHashFromBranch(crypto.Hash(l[0])); ref.Hash(got) != want {
			c.Fail(what, "branch of the first element leads to %x, root is %x", got, want)
		}
		for i := range br {
			if ref.Hash(hb[i]) != br[i] {
				c.Fail(what, "branch was modified")
			}
		}
		c.Eval(1)
		for i := range br { // any change in the branch leads elsewhere
			hb[i][i%32] ^= 1
			if got := hb.TreeHashFromBranch(crypto.Hash(l[0])); ref.Hash(got) == want {
				c.Fail(what, "changed branch element %d leads to the root", i)
			}
			hb[i][i%32] ^= 1
			c.Eval(1)
		}
		if len(br) > 0 {
			x := l[0]
			x[31] ^= 0x80
			if got := hb.TreeHashFromBranch(crypto.Hash(x)); ref.Hash(got) == want {
				c.Fail(what, "another leaf leads to the root")
			}
		}
		if kind != 0 || n > edit {
			return
		}
		expect := func(m []ref.Hash, what string) {
			c.Distinct(what)
			w2 := ref.TreeHash(m)
			got := root(m, what)
			if got != w2 {
				c.Fail(what, "root %x, expected %x", got, w2)
			}
			if got == want {
				c.Fail(what, "same root as the unchanged list")
			}
		}
		for i := 0; i < n; i++ {
			m := append([]ref.Hash{}, l...)
			m[i][i%32] ^= 1 << uint(i%8)
			expect(m, fmt.Sprintf("%s, element %d changed", what, i))
			if n > 1 {
				m = append(append([]ref.Hash{}, l[:i]...), l[i+1:]...)
				expect(m, fmt.Sprintf("%s, element %d dropped", what, i))
			}
			m = append(append(append([]ref.Hash{}, l[:i]...), l[i]), l[i:]...)
			expect(m, fmt.Sprintf("%s, element %d doubled", what, i))
			for j := i + 1; j < n && (j == i+1 || n <= 24); j++ {
				m = append([]ref.Hash{}, l...)
				m[i], m[j] = m[j], m[i]
				expect(m, fmt.Sprintf("%s, elements %d and %d swapped", what, i, j))
			}
		}
	})
	// long lists: every length up to a bound, then around the powers of two
	var long []int
	every, far := 2200, 1<<14
	if c.Thorough {
		every, far = 9000, 1<<18
	}
	for n := max + 1; n <= every; n++ {
		long = append(long, n)
	}
	for p := 1024; p <= far; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + 2, p + p/2} {
			if n > every {
				long = append(long, n)
			}
		}
	}
	c.Each("long lists", len(long), func(w, k int) {
		n := long[len(long)-1-k]
		what := fmt.Sprintf("list of %d elements", n)
		c.Set(w, what)
		l := make([]ref.Hash, n)
		for i := range l {
			l[i] = leaf(0, i)
		}
		want := ref.TreeHash(l)
		hl := make(crypto.HashList, n)
		for i := range l {
			hl[i] = crypto.Hash(l[i])
		}
		if got := hl.MerkleRootHash(); got == nil || ref.Hash(*got) != want {
			c.Fail(what, "root %v, expected %x", got, want)
		}
		for i := range l {
			if ref.Hash(hl[i]) != l[i] {
				c.Fail(what, "the list was modified at element %d", i)
			}
		}
		c.Eval(1)
		c.Distinct(what)
		if n%64 > 1 && !c.Thorough {
			return
		}
		for _, i := range []int{0, n / 3, n - 1} {
			hl[i][7] ^= 4
			if got := hl.MerkleRootHash(); got == nil || ref.Hash(*got) == want {
				c.Fail(what, "element %d changed, the root is the same", i)
			}
			hl[i][7] ^= 4
			c.Eval(1)
		}
		var hb crypto.HashList
		for _, h := range ref.TreeBranch(l) {
			hb = append(hb, crypto.Hash(h))
		}
		if got := hb.TreeHashFromBranch(crypto.Hash(l[0])); ref.Hash(got) != want {
			c.Fail(what, "branch of the first element leads to %x, root is %x", got, want)
		}
	})
	for _, d := range []int{0, 1, 2, 5, 12, 31, 64, 256} { // branches on their own, any depth
		var hb crypto.HashList
		for i := 0; i < d; i++ {
			hb = append(hb, crypto.Hash(leaf(0, i+1000)))
		}
		h := leaf(0, 7)
		want := h
		for i := d - 1; i >= 0; i-- {
			want = ref.Keccak(want[:], hb[i][:])
		}
		if got := hb.TreeHashFromBranch(crypto.Hash(h)); ref.Hash(got) != want {
			c.Fail(fmt.Sprintf("branch of depth %d", d), "leads to %x, expected %x", got, want)
		}
		c.Eval(1)
	}
	for _, n := range []int{0, 1, 2, 3, 135, 136, 137, 271, 272, 273, 1000} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		if got := crypto.HashFromBytes(b); ref.Hash(got) != ref.Keccak(b) {
			c.Fail(fmt.Sprintf("hash of %d bytes", n), "is %x", got)
		}
		c.Eval(1)
	}
	c.Sample(fmt.Sprintf("lists of 1..%d elements, edits up to %d elements", max, edit))
	c.Done()
}
