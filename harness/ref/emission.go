//go:build go1.21

package ref

import "math/big"

// Zone is the full-reward zone of a block version.
func Zone(v byte) uint64 {
	if v <= 1 {
		return 100000
	}
	return 1000000
}

func EffectiveMedian(v byte, median uint64) uint64 {
	if z := Zone(v); median < z {
		return z
	}
	return median
}

func bi(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// BaseReward is the emission curve (supply left over 2^18) until it falls below one coin, then 2% a year.
func BaseReward(generated uint64) *big.Int {
	left := new(big.Int).Sub(bi(10000000000000000000), bi(generated))
	base := new(big.Int).Rsh(left, 18) // floor
	coin := bi(1000000000000)
	if left.Cmp(coin) <= 0 || base.Cmp(coin) < 0 {
		p := new(big.Int).Div(bi(generated), bi(100))
		p.Mul(p, bi(2))
		return p.Div(p, bi(360*365))
	}
	return base
}

// Penalize multiplies by (1 - (size/median - 1)^2), rounded as the protocol does.
func Penalize(a *big.Int, median, size uint64) *big.Int {
	if size <= median {
		return a
	}
	m, s := bi(median), bi(size)
	x := new(big.Int).Sub(new(big.Int).Add(m, m), s)
	x.Mul(x, s)
	x.Mul(x, a)
	x.Div(x, m)
	return x.Div(x, m)
}

// Reward returns reward and emission change, or false for a block over twice the effective median.
func Reward(v byte, median, size, generated, fee uint64) (*big.Int, *big.Int, bool) {
	m := EffectiveMedian(v, median)
	if bi(size).Cmp(new(big.Int).Lsh(bi(m), 1)) > 0 {
		return nil, nil, false
	}
	r := new(big.Int).Add(Penalize(BaseReward(generated), m, size), Penalize(bi(fee), m, size))
	return r, new(big.Int).Sub(r, bi(fee)), true
}
