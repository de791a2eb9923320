//go:build go1.21

package c15

import (
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

type window struct {
	h    uint32
	v    byte
	st   []int64 // n-1 solve times
	df   []int64 // n-1 difficulties
	cum0 uint64
}

func (w window) build() (ts, cum []uint64) {
	t := int64(1500000000)
	d := w.cum0
	ts, cum = append(ts, uint64(t)), append(cum, d)
	for i := range w.st {
		t += w.st[i]
		d += uint64(w.df[i])
		ts, cum = append(ts, uint64(t)), append(cum, d)
	}
	return
}

func rep(n int, v int64) []int64 {
	s := make([]int64, n)
	for i := range s {
		s[i] = v
	}
	return s
}

func TestVerif(t *testing.T) {
	c := vlib.New("C15")
	nets := []*config.Network{config.MainNet(), config.TestNet()}
	check := func(w window) {
		ts, cum := w.build()
		for k, n := range nets {
			lo, hi, ok := ref.NextDifficulty(k == 1, w.h, w.v, ts, cum)
			if !ok {
				continue
			}
			a, b := append([]uint64{}, ts...), append([]uint64{}, cum...)
			got, err := n.NextDifficulty(w.h, w.v, a, b)
			c.Eval(1)
			if err != nil || got < lo || got > hi {
				c.Fail(fmt.Sprintf("network %s, version %d, last index %d, timestamps %v, cumulative difficulties %v", []string{"main", "test"}[k], w.v, w.h, ts, cum),
					"difficulty is %d (%v), expected %d..%d", got, err, lo, hi)
			}
		}
	}
	type era struct {
		v       byte
		h       uint32
		lengths []int
	}
	seq := func(a, b int) (o []int) {
		for i := a; i <= b; i++ {
			o = append(o, i)
		}
		return
	}
	eras := []era{
		{1, 1000, append(append(seq(0, 30), seq(235, 250)...), seq(350, 375)...)},
		{2, 70000, seq(0, 17)},
		{3, 220000, seq(0, 61)},
		{4, 270000, []int{61}}, {4, 299998, []int{61}}, {4, 299999, []int{61}}, {4, 300000, []int{61}}, {4, 300001, []int{61}}, {4, 500000, []int{61}},
		{5, 699999, []int{121}}, {5, 700000, []int{121}}, {5, 700120, []int{121}}, {5, 700121, []int{121}}, {5, 900000, []int{121}}, {5, 700119, []int{121}}, {5, 10, seq(2, 121)},
	}
	for h := uint32(700001); h < 700119; h++ {
		eras = append(eras, era{5, h, []int{121}})
	}
	if c.Thorough {
		eras[0].lengths = seq(0, 375)
	}
	times := []int64{-2000, -1441, -1440, -239, -1, 0, 1, 11, 12, 48, 63, 64, 65, 239, 240, 241, 1439, 1440, 1441, 1679, 1680, 1681, 3000, 86400}
	diffs := []int64{1, 3, 1000, 100000, 12345678, 1000000000, 1000000000000}
	shape := func(n int, kind int, d int64) []int64 {
		s := rep(n, d)
		for i := range s {
			switch kind {
			case 1:
				s[i] = d + int64(i)*(d/100+1)
			case 2:
				if i%2 == 1 {
					s[i] = d * 2
				}
			case 3:
				s[i] = d + int64((n-i)*(n-i))
			}
		}
		return s
	}
	type job struct {
		e era
		n int
	}
	var jobs []job
	for _, e := range eras {
		for _, n := range e.lengths {
			jobs = append(jobs, job{e, n})
		}
	}
	base := func(j job, f func(w window)) {
		times, diffs, offsets := times, diffs, []uint64{0, 17, 7000000000000000}
		if !c.Thorough && j.e.h > 700001 && j.e.h < 700118 {
			times, diffs, offsets = []int64{0, 1, 200, 2000}, []int64{1000, 1000000, 1000000000000}, offsets[:1]
		}
		m := j.n - 1
		if m < 0 {
			m = 0
		}
		for _, d := range diffs {
			for kind := 0; kind < 4; kind++ {
				for _, s := range times {
					if s < 0 && m > 200 {
						continue
					}
					for _, c0 := range offsets {
						f(window{j.e.h, j.e.v, rep(m, s), shape(m, kind, d), c0})
					}
				}
			}
		}
	}
	c.Each("uniform windows", len(jobs), func(w, i int) {
		j := jobs[i]
		if j.n == 0 {
			for k, n := range nets {
				if got, err := n.NextDifficulty(j.e.h, j.e.v, nil, nil); j.e.v < 4 && (err != nil || got != 1) {
					c.Fail(fmt.Sprintf("empty window, version %d, network %d", j.e.v, k), "is %d %v", got, err)
				}
			}
			return
		}
		base(j, func(x window) {
			c.Set(w, fmt.Sprintf("%+v", x))
			c.Distinct(fmt.Sprint(x.v, x.h, x.st, x.df, x.cum0))
			check(x)
		})
	})
	second := func(n int, h uint32, s, d int64) bool {
		if c.Thorough {
			return n <= 17 || n == 61 || n == 121 && (h%10 == 9 || h%100 < 3) || n%40 == 0 || n == 375
		}
		return s == 240 && d == 1000000 && (n <= 17 || n == 40 || n == 61 || n == 121 && h%40 == 0 || n == 375)
	}
	// One and two deviating solve times, one deviating difficulty, at every position.
	dev := []int64{-2000, -300, 0, 1, 100, 1500, 5000}
	devd := []int64{1, 50000, 500000, 100000000}
	c.Each("deviating windows", len(jobs), func(wk, i int) {
		j := jobs[i]
		m := j.n - 1
		if m < 1 {
			return
		}
		for _, s := range []int64{60, 240, 400} {
			for _, d := range []int64{1000, 1000000} {
				st, df := rep(m, s), shape(m, 0, d)
				run := func() {
					x := window{j.e.h, j.e.v, st, df, 1000}
					check(x)
				}
				for p := 0; p < m; p++ {
					c.Set(wk, fmt.Sprintf("version %d height %d length %d base %d %d, position %d", j.e.v, j.e.h, j.n, s, d, p))
					for _, v := range dev {
						st[p] = v
						run()
						c.Distinct(fmt.Sprint("d", j.e.v, j.e.h, j.n, s, d, p, v))
						// a second one; all positions for short windows, the neighbourhood and the ends for long ones
						for q := p + 1; q < m; q++ {
							if !second(j.n, j.e.h, s, d) {
								break
							}
							if m > 20 && q > p+2 && q < m-3 && !(c.Thorough && m <= 120) {
								continue
							}
							for _, u := range dev {
								st[q] = u
								run()
							}
							st[q] = s
						}
						st[p] = s
					}
					for _, v := range devd {
						df[p] = v
						run()
						df[p] = d
					}
				}
			}
		}
	})
	// Short windows: every sequence of solve times and every sequence of difficulties.
	al := []int64{-300, 0, 1, 100, 240, 2000}
	dal := []int64{1, 1000, 200000}
	top := 4
	if c.Thorough {
		top = 6
	}
	for _, v := range []byte{1, 2, 3, 5} {
		for m := 1; m <= top; m++ {
			var radix []int
			for k := 0; k < m; k++ {
				radix = append(radix, len(al))
			}
			for k := 0; k < m && k < 3; k++ {
				radix = append(radix, len(dal))
			}
			c.Each(fmt.Sprintf("all short windows, version %d, %d steps", v, m), vlib.Size(radix), func(wk, i int) {
				ix := vlib.Unrank(i, radix)
				st, df := make([]int64, m), make([]int64, m)
				for k := range st {
					st[k] = al[ix[k]]
					df[k] = dal[ix[m+k%3%m]]
				}
				c.Distinct(fmt.Sprint("s", v, ix))
				check(window{1000, v, st, df, 5})
			})
		}
	}
	// Version 4: every combination of the last four and the first two solve times (the fast-block rule, LWMA-2 and 3).
	c.Each("version 4 ends", vlib.Size([]int{6, 6, 6, 6, 6, 4}), func(wk, i int) {
		ix := vlib.Unrank(i, []int{6, 6, 6, 6, 6, 4})
		x := []int64{-1500, 0, 50, 64, 240, 2000}
		st := rep(60, []int64{30, 240, 300, 1000}[ix[5]])
		st[59], st[58], st[57], st[56], st[0] = x[ix[0]], x[ix[1]], x[ix[2]], x[ix[3]], x[ix[4]]
		for _, h := range []uint32{280000, 300000} {
			for kind := 0; kind < 3; kind++ {
				c.Distinct(fmt.Sprint("v4", ix, h, kind))
				check(window{h, 4, st, shape(60, kind, 1000000), 3})
			}
		}
	})
	// Results do not depend on earlier calls: the same call between others.
	w0 := window{900000, 5, rep(120, 200), shape(120, 1, 5000000), 9}
	for _, e := range eras {
		n := e.lengths[len(e.lengths)-1]
		check(window{e.h, e.v, rep(n-1, 77), shape(n-1, 0, 333333), 1})
		check(w0)
	}
	c.Sample(fmt.Sprintf("%d eras and lengths, solve times %v, difficulties %v", len(jobs), times, diffs))
	c.Sample("version 3 is compared within 1e-9 (the protocol uses floating point)")
	c.Done()
}
