//go:build go1.21

package c16

import (
	"fmt"
	"io"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	log "github.com/sirupsen/logrus"
)

// Reference: the dust is the longest low part of the decimal writing that stays within the threshold.
func model(amount, thr uint64) (chunks, dusts []uint64) {
	var digits []uint64
	for a := amount; a > 0; a /= 10 {
		digits = append(digits, a%10)
	}
	pow := func(k int) uint64 {
		p := uint64(1)
		for ; k > 0; k-- {
			p *= 10
		}
		return p
	}
	cut := len(digits)
	low := func(k int) uint64 {
		if k == 20 {
			return amount
		}
		return amount % pow(k)
	}
	for cut > 0 && low(cut) > thr {
		cut--
	}
	if d := low(cut); d != 0 && cut > 0 {
		dusts = []uint64{d}
	}
	for k := cut; k < len(digits); k++ {
		if digits[k] != 0 {
			chunks = append(chunks, digits[k]*pow(k))
		}
	}
	return
}

func eq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerif(t *testing.T) {
	c := vlib.New("C16")
	logger := log.New()
	logger.Out = io.Discard
	net := config.MainNet()
	bc := cryptonote.NewBlockChain(net, cryptonote.NewMemoryStorage(), logger)
	thrs := []uint64{0, 1, 9, 10, 11, 55, 99, 100, 500, 999, 1000, 12345, 99999999, 100000000, 100000001, 5555555555, 1000000000000, 9999999999999999, 10000000000000000000, ^uint64(0)}

	check := func(a, thr uint64) {
		ch, du := cryptonote.DecomposeAmountIntoDigits(a, thr)
		wc, wd := model(a, thr)
		c.Eval(1)
		if !eq(ch, wc) || !eq(du, wd) {
			c.Fail(fmt.Sprintf("decompose %d, threshold %d", a, thr), "chunks %v dust %v, expected %v and %v", ch, du, wc, wd)
		}
		sum := uint64(0)
		for _, x := range append(append([]uint64{}, ch...), du...) {
			if sum+x < sum {
				c.Fail(fmt.Sprintf("decompose %d, threshold %d", a, thr), "sum overflows")
			}
			sum += x
		}
		if sum != a {
			c.Fail(fmt.Sprintf("decompose %d, threshold %d", a, thr), "sums to %d", sum)
		}
	}
	whole := func(a, thr uint64) {
		got := bc.DecomposeAmount(a, thr)
		wc, wd := model(a, thr)
		if !eq(got, append(append([]uint64{}, wc...), wd...)) {
			c.Fail(fmt.Sprintf("DecomposeAmount %d, threshold %d", a, thr), "%v", got)
		}
		c.Eval(1)
	}
	isCanon := func(a uint64) bool {
		if a == 0 {
			return false
		}
		for a%10 == 0 {
			a /= 10
		}
		return a < 10
	}
	valid := func(a uint64) {
		c.Eval(1)
		if net.IsValidDecomposedAmount(a) != isCanon(a) {
			c.Fail(fmt.Sprintf("IsValidDecomposedAmount(%d)", a), "is %v", !isCanon(a))
		}
	}

	n := 1 << 17
	if c.Thorough {
		n = 1 << 21
	}
	c.Each("small amounts", n/1024, func(w, k int) {
		for i := 0; i < 1024; i++ {
			a := uint64(k*1024 + i)
			c.Distinct(fmt.Sprint(a))
			for _, thr := range thrs {
				check(a, thr)
			}
			valid(a)
		}
	})
	// up to three non-zero digits anywhere in the 64-bit range, and runs of nines
	pow := make([]uint64, 20)
	pow[0] = 1
	for i := 1; i < 20; i++ {
		pow[i] = pow[i-1] * 10
	}
	ds := []uint64{1, 5, 9}
	if c.Thorough {
		ds = []uint64{1, 2, 3, 4, 5, 6, 7, 8, 9}
	}
	digit := func(d uint64, k int) (uint64, bool) {
		if k == 19 && d > 1 {
			return 0, false
		}
		return d * pow[k], true
	}
	run := func(a uint64) {
		c.Distinct(fmt.Sprint(a))
		for _, thr := range thrs {
			check(a, thr)
		}
		for k := 0; k < 20; k++ {
			check(a, pow[k])
			check(a, pow[k]-1)
		}
		check(a, a)
		check(a, a-1)
		whole(a, 0)
		whole(a, 100000000)
		for _, d := range []uint64{0, 1, ^uint64(0), 10, ^uint64(9)} {
			valid(a + d)
		}
	}
	c.Each("digit patterns", 20*20*20, func(w, i int) {
		ix := vlib.Unrank(i, []int{20, 20, 20})
		if !(ix[0] >= ix[1] && ix[1] >= ix[2]) {
			return
		}
		for _, d0 := range ds {
			a, ok := digit(d0, ix[0])
			if !ok {
				continue
			}
			if ix[1] == ix[0] {
				if ix[2] == ix[0] {
					run(a)
				}
				continue
			}
			for _, d1 := range ds {
				if ix[2] == ix[1] {
					run(a + d1*pow[ix[1]])
					continue
				}
				for _, d2 := range ds {
					v := a + d1*pow[ix[1]] + d2*pow[ix[2]]
					c.Set(w, fmt.Sprint(v))
					run(v)
				}
			}
		}
	})
	for k := 0; k < 20; k++ {
		for j := 0; j <= k; j++ {
			run(pow[k] - pow[j])     // 9..90..0
			run(pow[k] + pow[j] - 1) // 10..09..9
		}
	}
	for _, a := range []uint64{^uint64(0), ^uint64(0) - 1, 12345678901234567890, 11111111111111111111, 10000000000000000001, 9999999999999999999, 18446744073709551610} {
		run(a)
	}
	for k := 0; k < 20; k++ {
		for d := uint64(1); d < 10; d++ {
			if v, ok := digit(d, k); ok {
				valid(v)
				valid(v + 1)
				valid(v - 1)
			}
		}
	}
	ch, du := cryptonote.DecomposeAmountIntoDigits(19050000037, 100000000)
	c.Sample(fmt.Sprintf("19050000037 at 10^8: %v + dust %v", ch, du))
	c.Sample(fmt.Sprintf("thresholds %v", thrs))
	c.Done()
}
