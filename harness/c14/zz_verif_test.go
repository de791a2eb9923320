//go:build go1.21

package c14

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

func TestVerif(t *testing.T) {
	c := vlib.New("C14")
	supply := uint64(10000000000000000000)
	tail := uint64(1000000000000)

	uniq := func(v []uint64) []uint64 {
		m := map[uint64]bool{}
		var o []uint64
		for _, x := range v {
			if !m[x] {
				m[x] = true
				o = append(o, x)
			}
		}
		sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
		return o
	}
	// amounts generated: the start, every halving, around the tail's begin and the supply
	var gen []uint64
	around := func(v uint64) { gen = append(gen, v-2, v-1, v, v+1, v+2) }
	gen = append(gen, 0, 1, 2, 38146972656250, 1<<18, 1<<18-1, 1<<18+1)
	for k := uint(1); k < 24; k++ {
		gen = append(gen, supply-supply>>k, supply-supply>>k+1)
	}
	around(supply)
	around(supply - tail)
	around(supply - tail<<18)     // base reward reaches the tail reward
	around(supply - (tail+1)<<18) //
	around(supply - (tail-1)<<18)
	around(supply + tail)
	for _, v := range []uint64{1 << 62, 1 << 63, 1<<63 - 1, 9737856000000000000, 9737855999999999999, 10000000000000000099, 10000000000000000100, 12345678901234567890, 17000000000000000000, 18000000000000000000} {
		around(v)
	}
	gen = uniq(gen)
	medians := []uint64{0, 1, 12, 50000, 99999, 100000, 100001, 131072, 600000, 999999, 1000000, 1000001, 1234567, 1545543, 16777216, 500000000, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	fees := []uint64{0, 1, 3, 100000000, 8000000000, 100000000000, 99999999999999, 1 << 53, 1<<53 + 1, 3000000000000000000}
	nets := map[string]*config.Network{"main": config.MainNet(), "test": config.TestNet()}
	if c.Thorough {
		for k := uint(1); k < 32; k++ {
			medians = append(medians, 1<<k-1, 1<<k, 1<<k+1)
		}
		medians = uniq(medians)
		for k := uint(2); k < 62; k += 3 {
			fees = append(fees, 1<<k-1, 1<<k)
		}
		fees = uniq(fees)
	}
	max64 := new(big.Int).SetUint64(^uint64(0))
	for name, n := range nets {
		n := n
		if name == "test" && !c.Thorough {
			medians = []uint64{100000, 1000000, 1000001}
		}
		c.Each("rewards "+name, 5*len(medians)*len(gen), func(w, i int) {
			ix := vlib.Unrank(i, []int{5, len(medians), len(gen)})
			v, m, g := byte(ix[0]+1), medians[ix[1]], gen[ix[2]]
			em := ref.EffectiveMedian(v, m)
			sizes := uniq([]uint64{0, 1, m, em / 2, em - 1, em, em + 1, em + 2, em + em/10, em + em/3, em + em/2, em*2 - em/7, em*2 - 2, em*2 - 1, em * 2, em*2 + 1, em * 3, 1 << 33, 1 << 40, ^uint64(0)})
			for _, s := range sizes {
				for _, f := range fees {
					what := fmt.Sprintf("version %d median %d size %d generated %d fee %d", v, m, s, g, f)
					c.Set(w, what)
					wr, we, ok := ref.Reward(v, m, s, g, f)
					if ok && wr.Cmp(max64) > 0 {
						continue // not a reward any amount can hold
					}
					r, e, err := n.GetBlockReward(v, m, s, g, f)
					c.Eval(1)
					if (err == nil) != ok {
						c.Fail(what, "error %v, expected accepted=%v", err, ok)
					}
					if !ok {
						continue
					}
					if r != wr.Uint64() {
						c.Fail(what, "reward %d, expected %s", r, wr)
					}
					mask := new(big.Int).And(we, max64) // emission change may be negative; as a 64-bit number
					if e != mask.Uint64() {
						c.Fail(what, "emission change %d, expected %s", e, we)
					}
					if e != r-f {
						c.Fail(what, "emission change %d is not reward %d minus fee", e, r)
					}
				}
			}
			c.Distinct(fmt.Sprint(name, ix))
		})
	}
	// The emission itself, block by block, with a reward each time as generated before: jumps between eras.
	n := nets["main"]
	g := uint64(0)
	steps := 200000
	if c.Thorough {
		steps = 5000000
	}
	for i := 0; i < steps; i++ {
		v := byte(1 + i%5)
		wr, we, _ := ref.Reward(v, 0, 0, g, 0)
		r, e, err := n.GetBlockReward(v, 0, 0, g, 0)
		c.Eval(1)
		if err != nil || r != wr.Uint64() || e != we.Uint64() {
			c.Fail(fmt.Sprintf("block %d, generated %d", i, g), "reward %d change %d (%v), expected %s %s", r, e, err, wr, we)
		}
		if i > steps/2 {
			r = (supply - g) / 1000
			if r == 0 {
				r = tail
			}
		}
		g += r
		if i%4096 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("emission chain stopped after %d blocks", i))
			break
		}
	}
	c.Sample(fmt.Sprintf("medians %v", medians))
	c.Sample(fmt.Sprintf("fees %v, generated: %d values", fees, len(gen)))
	c.Done()
}
