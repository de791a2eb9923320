//go:build go1.21

package c13

import (
	"fmt"
	"math"
	"sync/atomic"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vmap"
)

// The published schedule.
func version(h uint64) byte {
	switch {
	case h > 700000:
		return 5
	case h > 266000:
		return 4
	case h > 216000:
		return 3
	case h > 60000:
		return 2
	}
	return 1
}

func minFee(h uint64) uint64 {
	switch {
	case h <= 216394:
		return 100000000
	case h <= 266000:
		return 100000000000
	}
	return 10000000000
}

func validatorFee(h uint64) uint64 {
	switch {
	case h <= 266000:
		return minFee(h)
	case h < 667000:
		return 8000000000
	}
	return 10000000000
}

func TestVerif(t *testing.T) {
	c := vlib.New("C13")
	nets := []*config.Network{config.MainNet(), config.TestNet()}
	bad := func(h uint64, what string, got, want interface{}) {
		c.Fail(fmt.Sprintf("%s at height %d", what, h), "is %v, expected %v", got, want)
	}
	byHeight := func(n *config.Network, h uint64) {
		h32 := uint32(h)
		if g := n.GetBlockMajorVersion(h32); g != version(h) {
			bad(h, "block version", g, version(h))
		}
		if g, w := n.MaxBlockSize(h), 1000000+h*102400/131400; g != w {
			bad(h, "maximum block size", g, w)
		}
		w := uint64(math.MaxUint64)
		if h > 266000 {
			w = 249400
		}
		if g := n.MaxTransactionSize(h32); g != w {
			bad(h, "maximum transaction size", g, w)
		}
		if g := n.MinimalFee(h32); g != minFee(h) {
			bad(h, "minimum fee", g, minFee(h))
		}
		if g := n.MinimalFeeValidator(h32); g != validatorFee(h) {
			bad(h, "validated minimum fee", g, validatorFee(h))
		}
		w = 30000
		if h <= 216000 {
			w = 300000
		}
		if g := n.FusionMaxTxSize(h32); g != w {
			bad(h, "fusion size", g, w)
		}
	}
	limits := func(n *config.Network) {
		zone := []uint64{0, 100000, 1000000, 1000000, 1000000, 1000000}
		win := []uint32{0, 60, 60, 60, 11, 11}
		future := []uint64{0, 1680, 1680, 1680, 720, 720}
		diff := []uint32{0, 375, 17, 61, 61, 121}
		for v := byte(1); v <= 5; v++ {
			if g := n.BlockGrantedFullRewardZoneByBlockVersion(v); g != zone[v] {
				bad(uint64(v), "reward zone of version", g, zone[v])
			}
			if g := n.BlockTimestampCheckWindow(v); g != win[v] {
				bad(uint64(v), "timestamp window of version", g, win[v])
			}
			if g := n.BlockFutureTimeLimit(v); g != future[v] {
				bad(uint64(v), "future limit of version", g, future[v])
			}
			if g := n.DifficultyBlocksCountByBlockVersion(v); g != diff[v] {
				bad(uint64(v), "difficulty window of version", g, diff[v])
			}
			c.Eval(4)
		}
		fixed := []struct {
			what      string
			got, want uint64
		}{
			{"fusion inputs", uint64(n.FusionTxMinInputCount()), 12},
			{"fusion ratio", uint64(n.FusionTxMinInOutCountRatio()), 4},
			{"dust threshold", n.DefaultDustThreshold(), 100000000},
			{"unlock window", uint64(n.MinedMoneyUnlockWindow()), 10},
			{"reward window", uint64(n.RewardBlockWindow()), 100},
			{"minimum mixin", uint64(n.MinMixin()), 2},
			{"maximum mixin", uint64(n.MaxMixin()), 20},
			{"maximum height", n.MaxBlockNumber, 500000000},
			{"maximum block blob", n.MaxBlockBlobSize, 500000000},
			{"maximum transaction", n.MaxTxSize, 1000000000},
			{"address prefix", n.PublicAddressBase58Prefix, 111},
			{"minimum protocol", uint64(n.P2PMinimumVersion), 4},
			{"current protocol", uint64(n.P2PCurrentVersion), 4},
			{"target", config.DifficultyTarget, 240},
			{"extra limit", config.MaxExtraSize, 1024},
			{"unlock window constant", uint64(config.MinedMoneyUnlockWindow), 10},
			{"V2", uint64(config.UpgradeHeightV2), 60000},
			{"V3", uint64(config.UpgradeHeightV3), 216000},
			{"V3s1", uint64(config.UpgradeHeightV3s1), 216394},
			{"V4", uint64(config.UpgradeHeightV4), 266000},
			{"V4s1", uint64(config.UpgradeHeightV4s1), 300000},
			{"V4s2", uint64(config.UpgradeHeightV4s2), 500000},
			{"V4s3", uint64(config.UpgradeHeightV4s3), 667000},
			{"V5", uint64(config.UpgradeHeightV5), 700000},
		}
		for _, f := range fixed {
			c.Eval(1)
			if f.got != f.want {
				bad(0, f.what, f.got, f.want)
			}
		}
		for _, fee := range []uint64{0, 99, 100, 199, 8000000000, 10000000000, 100000000, 100000000000} {
			for s := uint64(0); s <= 2000; s++ {
				w := uint64(0)
				if s > 100 {
					w = (s - 100) * (fee / 100)
				}
				c.Eval(1)
				if g := n.GetFeePerByte(s, fee); g != w {
					bad(s, fmt.Sprintf("fee of extra bytes, minimum %d, size", fee), g, w)
				}
			}
		}
	}
	// Every order in which a table of up to 5 entries can be walked.
	perms := map[int][][]int{}
	orders := 1
	for n := 0; n <= 5; n++ {
		perms[n] = vlib.Permutations(n)
	}
	size := 0
	vmap.SetOrder(func(n int) []int {
		if n > size {
			size = n
		}
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	})
	nets[0].GetBlockMajorVersion(1)
	if size > 5 {
		c.Cap(fmt.Sprintf("a table has %d entries: only rotations of its order are tried", size))
		orders = size
	} else {
		orders = len(perms[size])
	}
	top := 710000
	if c.Thorough {
		top = 2000000
	}
	edges := map[uint64]bool{}
	for k := uint(0); k < 32; k++ {
		for d := uint64(0); d < 3; d++ {
			edges[(1<<k+d-1)&math.MaxUint32] = true
		}
	}
	for _, u := range []uint64{60000, 216000, 216394, 266000, 300000, 500000, 667000, 700000} {
		for d := uint64(0); d < 11; d++ {
			edges[u+d-5] = true
		}
	}
	edges[math.MaxUint32], edges[math.MaxUint32-1] = true, true
	var el []uint64
	for h := range edges {
		el = append(el, h)
	}
	for o := 0; o < orders; o++ {
		o := o
		vmap.SetOrder(func(n int) []int {
			if n <= 5 {
				return perms[n][o%len(perms[n])]
			}
			p := make([]int, n)
			for i := range p {
				p[i] = (i + o) % n
			}
			return p
		})
		const chunk = 2000
		c.Each(fmt.Sprintf("all heights, order %d", o), (top+chunk-1)/chunk, func(w, i int) {
			for h := i * chunk; h < (i+1)*chunk; h++ {
				if o > 0 && h%500 != 0 && !c.Thorough {
					continue
				}
				for _, n := range nets {
					byHeight(n, uint64(h))
				}
				c.Eval(12)
			}
			c.Distinct(fmt.Sprint(o, i))
		})
		for _, h := range el {
			for _, n := range nets {
				byHeight(n, h)
				byHeight(n, h) // and again: nothing is remembered
			}
			c.Eval(24)
			c.Distinct(fmt.Sprint("edge", o, h))
		}
		for _, n := range nets {
			limits(n)
		}
	}
	// heights above 32 bits exist only for the block size
	for k := uint(32); k < 45; k++ {
		h := uint64(1) << k
		if g, w := nets[0].MaxBlockSize(h), 1000000+h*102400/131400; g != w {
			bad(h, "maximum block size", g, w)
		}
	}
	c.Cov("map_orders", orders)
	c.Cov("map_walks", atomic.LoadInt64(&vmap.Ranges))
	c.Sample(fmt.Sprintf("all heights below %d and %d boundary heights under %d orders of the upgrade table", top, len(el), orders))
	c.Done()
}
