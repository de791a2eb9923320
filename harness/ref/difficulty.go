//go:build go1.21

package ref

import (
	"math/big"
	"sort"
)

const target = 240

func ib(v int64) *big.Int { return big.NewInt(v) }

// NextDifficulty is the difficulty formula of a version over a window (oldest first). h is the index of the last
// block in the window, low says that no minimum applies. The answer is an interval (a single value except where the
// protocol itself computes in floating point); decided is false for windows outside the formula's domain.
func NextDifficulty(low bool, h uint32, v byte, ts, cum []uint64) (lo, hi uint64, decided bool) {
	one := func(x *big.Int, min bool) (uint64, uint64, bool) {
		if min && !low && x.Cmp(ib(100000)) < 0 {
			x = ib(100000)
		}
		if x.Sign() < 0 || x.BitLen() > 63 {
			return 0, 0, false
		}
		return x.Uint64(), x.Uint64(), true
	}
	diff := func(a, b uint64) *big.Int { return new(big.Int).Sub(bi(a), bi(b)) }
	switch v {
	case 1:
		if len(ts) > 360 {
			ts, cum = ts[:360], cum[:360]
		}
		if len(ts) <= 1 {
			return 1, 1, true
		}
		s := append([]uint64{}, ts...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		from, to := 0, len(s)
		if len(s) > 240 {
			from = (len(s) - 240 + 1) / 2
			to = from + 240
		}
		span := diff(s[to-1], s[from])
		if span.Sign() == 0 {
			span = ib(1)
		}
		work := diff(cum[to-1], cum[from])
		if work.Sign() <= 0 {
			return 0, 0, false
		}
		x := work.Mul(work, ib(target))
		x.Add(x, span).Sub(x, ib(1)).Div(x, span)
		return one(x, false)
	case 2:
		if len(ts) > 17 {
			ts, cum = ts[:17], cum[:17]
		}
		if len(ts) <= 1 {
			return 1, 1, true
		}
		mn, mx := ts[0], ts[0]
		for _, t := range ts {
			if t < mn {
				mn = t
			}
			if t > mx {
				mx = t
			}
		}
		span := diff(mx, mn)
		if span.Sign() == 0 {
			span = ib(1)
		}
		work := diff(cum[len(cum)-1], cum[0])
		if work.Sign() <= 0 {
			return 0, 0, false
		}
		return one(new(big.Int).Div(work.Mul(work, ib(target)), span), true)
	case 3:
		n := len(ts) - 1
		if n < 3 {
			return 1, 1, true
		}
		if n > 60 {
			return 0, 0, false
		}
		sum := int64(0)
		inv := new(big.Rat)
		for i := 1; i <= n; i++ {
			st := int64(ts[i]) - int64(ts[i-1])
			if st > 7*target {
				st = 7 * target
			}
			if st < -6*target {
				st = -6 * target
			}
			sum += st * int64(i)
			d := int64(cum[i]) - int64(cum[i-1])
			if d <= 0 {
				return 0, 0, false
			}
			inv.Add(inv, big.NewRat(1, d))
		}
		lwma := big.NewRat(sum, int64(n*(n+1)/2))
		// rounding to whole seconds, half away from zero: below 12 the value is 12
		if d := new(big.Rat).Sub(lwma, big.NewRat(23, 2)); d.Abs(d).Cmp(big.NewRat(1, 1000000)) < 0 && d.Sign() != 0 {
			return 0, 0, false
		}
		if lwma.Cmp(big.NewRat(23, 2)) < 0 {
			lwma = big.NewRat(12, 1)
		}
		x := new(big.Rat).SetInt64(int64(n))
		x.Quo(x, inv).Mul(x, big.NewRat(998, 1000)).Mul(x, big.NewRat(target, 1)).Quo(x, lwma)
		q := new(big.Int).Div(x.Num(), x.Denom())
		slack := new(big.Int).Div(q, ib(1000000000))
		slack.Add(slack, ib(1))
		f := func(y *big.Int) uint64 {
			if y.Sign() < 0 {
				y = ib(0)
			}
			if !low && y.Cmp(ib(100000)) < 0 {
				return 100000
			}
			return y.Uint64()
		}
		return f(new(big.Int).Sub(q, slack)), f(new(big.Int).Add(q, slack)), true
	case 4:
		const n = 60
		if len(ts) != n+1 {
			return 0, 0, false
		}
		var l, last3 int64
		prevMax := int64(ts[0])
		for i := int64(1); i <= n; i++ {
			var st int64
			if h < 300000 {
				st = int64(ts[i]) - int64(ts[i-1])
				if st < -6*target {
					st = -6 * target
				}
			} else {
				m := int64(ts[i])
				if m <= prevMax {
					m = prevMax + 1
				}
				st = m - prevMax
				prevMax = m
			}
			if st > 6*target {
				st = 6 * target
			}
			l += st * i
			if i >= n-2 {
				last3 += st
			}
		}
		prev := diff(cum[n], cum[n-1])
		lowest := new(big.Int).Quo(new(big.Int).Mul(prev, ib(67)), ib(100))
		highest := new(big.Int).Quo(new(big.Int).Mul(prev, ib(150)), ib(100))
		if last3 < 8*target/10 {
			return one(new(big.Int).Quo(new(big.Int).Mul(prev, ib(110)), ib(100)), true)
		}
		if l <= 0 {
			a, _, ok1 := one(lowest, true)
			b, _, ok2 := one(highest, true)
			return a, b, ok1 && ok2
		}
		x := diff(cum[n], cum[0])
		x.Mul(x, ib(target*(n+1))).Quo(x, ib(2*l))
		x.Mul(x, ib(99)).Quo(x, ib(100))
		if x.Cmp(lowest) < 0 {
			x = lowest
		}
		if x.Cmp(highest) > 0 {
			x = highest
		}
		return one(x, true)
	}
	const reset = 700000
	if h == reset {
		x := new(big.Int).Quo(bi(cum[0]), ib(reset))
		x.Quo(x, ib(1000))
		return one(x, false)
	}
	if h > reset && h < reset+120 {
		keep := int(h-reset) + 1 // only blocks of the new epoch count
		if keep > len(ts) {
			return 0, 0, false
		}
		ts, cum = ts[len(ts)-keep:], cum[len(cum)-keep:]
	}
	n := int64(len(ts) - 1)
	if n < 1 {
		return 0, 0, false
	}
	if n > 120 {
		return 0, 0, false
	}
	var l int64
	prev := int64(ts[0]) - target
	for i := int64(1); i <= n; i++ {
		cur := int64(ts[i])
		if cur <= prev {
			cur = prev + 1
		}
		st := cur - prev
		if st > 6*target {
			st = 6 * target
		}
		l += i * st
		prev = cur
	}
	if m := n * n * target / 20; l < m {
		l = m
	}
	avg := new(big.Int).Quo(diff(cum[n], cum[0]), ib(n))
	k := n * (n + 1) * target * 99
	limit := new(big.Int).Quo(ib(1<<63-1), ib(k))
	var x *big.Int
	if avg.Cmp(limit) > 0 {
		x = new(big.Int).Quo(avg, ib(200*l))
		x.Mul(x, ib(k))
	} else {
		x = new(big.Int).Mul(avg, ib(k))
		x.Quo(x, ib(200*l))
	}
	for i := int64(1000000000); i > 1; i /= 10 {
		if x.Cmp(ib(i*100)) > 0 {
			x.Add(x, ib(i/2)).Quo(x, ib(i)).Mul(x, ib(i))
			break
		}
	}
	return one(x, true)
}
