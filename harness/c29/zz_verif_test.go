//go:build go1.21

package c29

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"testing"

	"github.com/r3volut1oner/go-karbo/utils"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

func TestVerif(t *testing.T) {
	c := vlib.New("C29")
	set := map[uint64]bool{}
	add := func(v uint64) { set[v] = true }
	for k := uint(0); k < 64; k++ {
		if k < 3 || k > 29 && k < 35 || k > 60 || k%4 == 0 || c.Thorough {
			for d := uint64(0); d < 3; d++ {
				add(1<<k + d - 1)
			}
			add(^uint64(0) << k)
		}
	}
	p := uint64(1)
	for i := 0; i < 20; i++ {
		add(p)
		add(p - 1)
		p *= 10
	}
	for _, v := range []uint64{240, 1000000, 0x123456789abcdef0, 0xffffffff00000000, 0xfffffffeffffffff, 0x00000001ffffffff, 0x8000000080000000, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555, ^uint64(0)} {
		add(v)
	}
	var vals []uint64
	for v := range set {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	c.Each("products", len(vals), func(w, i int) {
		for _, b := range vals {
			a := vals[i]
			lo, hi := utils.Mul128(a, b)
			wh, wl := bits.Mul64(a, b)
			c.Eval(1)
			c.Distinct(fmt.Sprint("m", a, b))
			if lo != wl || hi != wh {
				c.Fail(fmt.Sprintf("Mul128(%d,%d)", a, b), "is (%d,%d), expected (%d,%d)", lo, hi, wl, wh)
			}
			if utils.MinUint64(a, b) != min(a, b) || utils.MaxUint64(a, b) != max(a, b) {
				c.Fail(fmt.Sprintf("MinUint64/MaxUint64(%d,%d)", a, b), "wrong")
			}
			x, y := int64(a), int64(b)
			if utils.MinInt64(x, y) != min(x, y) || utils.MaxInt64(x, y) != max(x, y) {
				c.Fail(fmt.Sprintf("MinInt64/MaxInt64(%d,%d)", x, y), "wrong")
			}
			for _, d := range []uint64{1, 2, 3, 10, 240, 65535, 65536, 99999, 1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff} {
				ql, qh := utils.Div128p32(a, b, uint32(d))
				rh := a / d
				rl, _ := bits.Div64(a%d, b, d)
				c.Eval(1)
				if ql != rl || qh != rh {
					c.Fail(fmt.Sprintf("Div128p32(%d,%d,%d)", a, b, d), "is (%d,%d), expected (%d,%d)", ql, qh, rl, rh)
				}
			}
		}
	})
	cl := []int64{math.MinInt64, math.MinInt64 + 1, -1000, -1, 0, 1, 5, 1000, math.MaxInt64 - 1, math.MaxInt64}
	for _, lo := range cl {
		for _, hi := range cl {
			if lo > hi {
				continue
			}
			for _, v := range cl {
				c.Eval(1)
				c.Distinct(fmt.Sprint("c", lo, hi, v))
				if got, want := utils.ClampInt64(lo, v, hi), min(max(v, lo), hi); got != want {
					c.Fail(fmt.Sprintf("ClampInt64(%d,%d,%d)", lo, v, hi), "is %d, expected %d", got, want)
				}
			}
		}
	}
	al := []uint64{0, 1, 2, 7, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
	top := 6
	if c.Thorough {
		top = 8
	}
	median := func(s []uint64) {
		in := append([]uint64{}, s...)
		got := utils.MedianSlice(in)
		w := append([]uint64{}, s...)
		sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
		want := uint64(0)
		if n := len(w); n > 0 {
			a, b := new(big.Int).SetUint64(w[(n-1)/2]), new(big.Int).SetUint64(w[n/2])
			want = a.Add(a, b).Rsh(a, 1).Uint64()
		}
		c.Eval(1)
		if got != want {
			c.Fail(fmt.Sprintf("MedianSlice(%v)", s), "is %d, expected %d", got, want)
		}
	}
	for n := 0; n <= top; n++ {
		radix := make([]int, n)
		for i := range radix {
			radix[i] = len(al)
		}
		c.Each(fmt.Sprintf("slices of %d", n), vlib.Size(radix), func(w, i int) {
			s := make([]uint64, n)
			u := make([]uint32, n)
			for k, x := range vlib.Unrank(i, radix) {
				s[k] = al[x]
				u[k] = uint32(x)
				if x == 6 {
					u[k] = math.MaxUint32
				}
			}
			c.Distinct(fmt.Sprint("s", s))
			median(s)
			r := utils.SliceReverse(append([]uint64{}, s...))
			if len(r) != n {
				c.Fail(fmt.Sprintf("SliceReverse(%v)", s), "is %v", r)
			}
			for k := range s {
				if r[k] != s[n-1-k] {
					c.Fail(fmt.Sprintf("SliceReverse(%v)", s), "is %v", r)
				}
			}
			uniq, sorted := true, true
			for k := range u {
				for j := 0; j < k; j++ {
					uniq = uniq && u[k] != u[j]
				}
				sorted = sorted && (k == 0 || u[k-1] <= u[k])
			}
			before := fmt.Sprint(u)
			if utils.SliceIsUniqueUint32(&u) != uniq || utils.SliceIsSortedUint32(&u) != sorted || fmt.Sprint(u) != before {
				c.Fail(fmt.Sprintf("unique/sorted of %v", u), "unique should be %v, sorted %v", uniq, sorted)
			}
			c.Eval(3)
		})
	}
	// longer windows: the sizes the chain uses, sorted both ways and rotated, with one or two odd elements
	for _, n := range []int{11, 12, 13, 59, 60, 61, 99, 100, 101, 200} {
		for rot := 0; rot < n; rot++ {
			s := make([]uint64, n)
			for i := range s {
				s[i] = uint64((i+rot)%n) * 240
			}
			median(s)
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			median(s)
			s[rot] = ^uint64(0)
			s[(rot*7+1)%n] = 1 << 63
			median(s)
			c.Distinct(fmt.Sprint("w", n, rot))
		}
	}
	// small windows, all orders
	for n := 1; n <= 7; n++ {
		for _, p := range vlib.Permutations(n) {
			s := make([]uint64, n)
			for i, x := range p {
				s[i] = uint64(x*x*3 + 1)
			}
			median(s)
		}
	}
	c.Sample(fmt.Sprintf("%d values squared for products and quotients, slices over %v up to %d", len(vals), al, top))
	c.Done()
}
