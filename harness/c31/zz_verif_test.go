//go:build go1.21

package c31

import (
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

// Hashes that differ in one byte at the ends or in the middle, and the zero hash.
var hashes = func() (l []crypto.Hash) {
	l = append(l, crypto.Hash{})
	for _, k := range []int{0, 15, 31} {
		h := crypto.Hash{}
		h[k] = 1
		l = append(l, h)
	}
	return
}()

func equal(a crypto.HashList, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != hashes[b[i]] {
			return false
		}
	}
	return true
}

func index(l []int, x int) int {
	for i, v := range l {
		if v == x {
			return i
		}
	}
	return -1
}

func TestVerif(t *testing.T) {
	c := vlib.New("C31")
	K, depth := 3, 6
	if c.Thorough {
		K, depth = 4, 7
	}
	// operations: append x, remove x, drop the first, with room in the array behind the list or without
	ops := 2*K + 1
	name := func(o int) string {
		switch {
		case o < K:
			return fmt.Sprint("append ", o)
		case o < 2*K:
			return fmt.Sprint("remove ", o-K)
		}
		return "drop the first"
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= ops
	}
	for _, room := range []int{0, 16} {
		room := room
		c.Each(fmt.Sprint("sequences with room ", room), n, func(w, i int) {
			l := make(crypto.HashList, 0, room)
			var m []int
			var did []string
			for k, q := 0, i; k < depth; k, q = k+1, q/ops {
				o := q % ops
				did = append(did, name(o))
				switch {
				case o < K:
					l = append(l, hashes[o])
					m = append(m, o)
				case o < 2*K:
					h := hashes[o-K]
					l.Remove(&h)
					if h != hashes[o-K] {
						c.Fail(fmt.Sprint(did), "the hash asked for changed")
					}
					if at := index(m, o-K); at >= 0 {
						m = append(append([]int{}, m[:at]...), m[at+1:]...)
					}
				default:
					if len(l) > 0 {
						l, m = l[1:], m[1:]
					}
				}
				if !equal(l, m) {
					c.Fail(fmt.Sprint(did), "the list is %x, must be of hashes %v", l, m)
				}
				for x := range hashes {
					h := hashes[x]
					want := index(m, x)
					if got := l.Index(&h); got != want {
						c.Fail(fmt.Sprint(did), "index of hash %d is %d, must be %d", x, got, want)
					}
					if got := l.Has(&h); got != (want >= 0) {
						c.Fail(fmt.Sprint(did), "has hash %d: %v", x, got)
					}
				}
				c.Transition(1)
			}
			c.Eval(1)
			c.Trace(1)
			c.Distinct(fmt.Sprint(m))
		})
	}
	// removing by a pointer into the list itself
	for size := 1; size <= 8; size++ {
		for a := 0; a < size; a++ {
			for _, same := range []bool{false, true} {
				var l crypto.HashList
				var want crypto.HashList
				for i := 0; i < size; i++ {
					h := crypto.Hash{1, byte(i)}
					if same {
						h[1] = byte(i % 2)
					}
					l = append(l, h)
				}
				first := l.Index(&l[a])
				want = append(append(want, l[:first]...), l[first+1:]...)
				l.Remove(&l[a])
				c.Eval(1)
				if fmt.Sprint(l) != fmt.Sprint(want) {
					c.Fail(fmt.Sprintf("list of %d, the %d-th removed by its own address", size, a), "the list is %x, must be %x", l, want)
				}
			}
		}
	}
	c.Sample("append 0, append 1, append 0, remove 0, drop the first, remove 0")
	c.Done()
}
