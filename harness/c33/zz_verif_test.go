//go:build go1.21

package c33

import (
	"fmt"
	"math/big"
	"testing"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var (
	c    *vlib.Ctx
	P, L = ref.P25519, ref.Order
	one  = big.NewInt(1)
)

func bi(v int64) *big.Int             { return big.NewInt(v) }
func shl(v int64, k uint) *big.Int    { return new(big.Int).Lsh(bi(v), k) }
func add(a, b *big.Int) *big.Int      { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int      { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int      { return new(big.Int).Mul(a, b) }
func mod(a, m *big.Int) *big.Int      { return new(big.Int).Mod(a, m) }
func bytes32(v *big.Int) (b [32]byte) { return ref.ScalarBytes(v) }

func bytes64(v *big.Int) (b [64]byte) {
	s := v.Bytes()
	for i := range s {
		b[i] = s[len(s)-1-i]
	}
	return
}

// list is a set of numbers of a number of bits, in the order they came.
type list struct {
	bits int
	l    []*big.Int
	seen map[string]bool
}

func (s *list) put(vs ...*big.Int) {
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	for _, v := range vs {
		if v.Sign() < 0 || v.BitLen() > s.bits || s.seen[string(v.Bytes())] {
			continue
		}
		s.seen[string(v.Bytes())] = true
		s.l = append(s.l, v)
	}
}

// limbs makes a number of the widths of its limbs.
func limbs(width []uint, at func(i int) int64) *big.Int {
	v := new(big.Int)
	pos := uint(0)
	for i, w := range width {
		v.Add(v, new(big.Int).Lsh(bi(at(i)&(1<<w-1)), pos))
		pos += w
	}
	return v
}

var (
	wide32 = []uint{21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 25}
	wide64 = []uint{21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 29}
	wideFe = []uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
)

// intervals fills every run of limbs with a value over a background.
func (s *list) intervals(width []uint, vals []int64) {
	for i := range width {
		for j := i + 1; j <= len(width); j++ {
			for _, a := range vals {
				for _, b := range vals {
					s.put(limbs(width, func(k int) int64 {
						if k >= i && k < j {
							return a
						}
						return b
					}))
				}
			}
		}
	}
}

// masks gives every limb one of two values, in all ways.
func (s *list) masks(width []uint, from, to int, a, b int64) {
	for m := 0; m < 1<<uint(to-from); m++ {
		s.put(limbs(width, func(k int) int64 {
			if k >= from && k < to && m>>uint(k-from)&1 == 1 {
				return a
			}
			return b
		}))
	}
}

func (s *list) around(d int64, vs ...*big.Int) {
	for _, v := range vs {
		for k := -d; k <= d; k++ {
			s.put(add(v, bi(k)))
		}
	}
}

func multiples(n int64, m *big.Int) (out []*big.Int) {
	for k := int64(0); k <= n; k++ {
		out = append(out, mul(bi(k), m))
	}
	return
}

func powers(n uint) (out []*big.Int) {
	for k := uint(0); k <= n; k++ {
		out = append(out, shl(1, k))
	}
	return
}

// scalars of 32 bytes: few for products, many for functions of one.
func scalars(many bool) []*big.Int {
	s := &list{bits: 256}
	s.around(2, multiples(16, L)...)
	s.around(1, powers(256)...)
	s.put(new(big.Int).Rsh(L, 1), sub(shl(1, 256), one), sub(shl(1, 252), one))
	if !many {
		s.intervals(wide32, []int64{-1, 0})
		for k := uint(0); k < 32; k++ {
			s.put(shl(0xff, 8*k), shl(0x80, 8*k))
		}
		return s.l
	}
	for k := uint(0); k < 32; k++ {
		for v := int64(1); v < 256; v++ {
			s.put(shl(v, 8*k), sub(sub(shl(1, 256), one), shl(v, 8*k)), add(L, shl(v, 8*k)), sub(L, shl(v, 8*k)))
		}
	}
	s.intervals(wide32, []int64{-1, 0, 1, 1 << 20, 1<<20 - 1, 1<<20 + 1})
	for _, v := range []int64{-1, 1, 1 << 20, 1<<20 - 1} {
		s.masks(wide32, 0, 12, v, 0)
	}
	s.masks(wide32, 0, 12, 1<<20, 1<<20-1)
	s.masks(wide32, 0, 12, 1, -1)
	for _, m := range []int64{2, 3, 5, 7, 15} {
		for _, x := range powers(252) {
			s.put(add(mul(bi(m), L), x), sub(mul(bi(m), L), x))
		}
	}
	return s.l
}

// targets are results at the edges of a reduced number's range: between 2^252 and L, and near 0.
func targets() []*big.Int {
	s := &list{bits: 253}
	s.around(1, bi(1), sub(L, bi(2)), shl(1, 252), new(big.Int).Rsh(L, 1), shl(1, 251), add(shl(1, 252), shl(1, 124)), add(shl(1, 252), shl(1, 63)))
	for k := uint(21); k < 252; k += 21 {
		s.around(1, shl(1, k), sub(L, shl(1, k)))
	}
	return s.l
}

func wide(thorough bool) []*big.Int {
	s := &list{bits: 512}
	s.around(2, multiples(16, L)...)
	s.around(1, powers(512)...)
	for k := uint(0); k < 260; k++ {
		for _, m := range []int64{1, 3, 0xffff, 15} {
			s.around(1, new(big.Int).Lsh(mul(bi(m), L), k))
		}
	}
	for k := uint(0); k <= 259; k++ {
		for _, t := range targets() {
			s.put(add(new(big.Int).Lsh(L, k), t), add(mul(sub(shl(1, k), one), L), t))
		}
	}
	l2 := mul(L, L)
	s.around(3, l2, mul(l2, bi(2)), mul(L, sub(shl(1, 256), one)))
	for k := uint(0); k < 64; k++ {
		for v := int64(1); v < 256; v++ {
			s.put(shl(v, 8*k), sub(sub(shl(1, 512), one), shl(v, 8*k)))
		}
	}
	s.intervals(wide64, []int64{-1, 0, 1, 1 << 20, 1<<20 - 1, 1<<20 + 1})
	n := 12
	if thorough {
		n = 16
	}
	for from := 0; from+n <= 24; from += 4 {
		s.masks(wide64, from, from+n, -1, 0)
		s.masks(wide64, from, from+n, 1<<20, 1<<20-1)
		s.masks(wide64, from, from+n, 1<<20-1, 1<<20)
		s.masks(wide64, from, from+n, 0, -1)
	}
	return s.l
}

func elements() []*big.Int {
	s := &list{bits: 255}
	s.around(20, bi(0), P, shl(1, 254), new(big.Int).Rsh(P, 1))
	s.around(1, powers(255)...)
	s.put(sub(shl(1, 255), one))
	s.intervals(wideFe, []int64{-1, 0, 1 << 24, 1<<24 - 1, 1 << 25, 1<<25 - 1})
	return s.l
}

func hex(v *big.Int) string { return fmt.Sprintf("%x", v) }

// ---- scalars

func scalarChecks() {
	all := scalars(true)
	c.Each("scalars", len(all), func(w, i int) {
		v := all[i]
		b := bytes32(v)
		less := v.Cmp(L) < 0
		bad := func(what string, got, want interface{}) {
			c.Fail(what+" "+hex(v), "%s: %v, must be %v", what, got, want)
		}
		if r := ed.ScReduce32(b); r != bytes32(mod(v, L)) {
			bad("ScReduce32", fmt.Sprintf("%x", r), mod(v, L))
		}
		if r := ed.ScCheck(b); r != less {
			bad("ScCheck", r, less)
		}
		if r := ed.ScMinimal(&b); r != less {
			bad("ScMinimal", r, less)
		}
		if r := ed.ScIsNonZero(b); r != (v.Sign() > 0) {
			bad("ScIsNonZero", r, v.Sign() > 0)
		}
		if b != bytes32(v) {
			bad("argument", fmt.Sprintf("%x", b), v)
		}
		c.Eval(4)
		c.Distinct("s" + hex(v))
	})
	ws := wide(c.Thorough)
	c.Each("wide numbers", len(ws), func(w, i int) {
		if r := ed.ScReduce(bytes64(ws[i])); r != bytes32(mod(ws[i], L)) {
			c.Fail("ScReduce "+hex(ws[i]), "ScReduce: %x, must be %x", r, bytes32(mod(ws[i], L)))
		}
		c.Eval(1)
		c.Distinct("w" + hex(ws[i]))
	})
	ts := targets()
	two := scalars(false)
	var few []*big.Int
	step := 23
	if c.Thorough {
		step = 5
	}
	for i := 0; i < len(two); i += step {
		few = append(few, two[i])
	}
	few = append(few, sub(L, one), L, sub(shl(1, 256), one))
	c.Each("pairs of scalars", len(two), func(w, i int) {
		a := two[i]
		x := bytes32(a)
		for j, b := range two {
			y := bytes32(b)
			desc := func(f string) string { return fmt.Sprintf("%s %x %x", f, a, b) }
			if r, want := ed.ScAdd(&x, &y), bytes32(mod(add(a, b), L)); r != want {
				c.Fail(desc("ScAdd"), "ScAdd: %x, must be %x", r, want)
			}
			if r, want := ed.ScSub(x, y), bytes32(mod(sub(a, b), L)); r != want {
				c.Fail(desc("ScSub"), "ScSub: %x, must be %x", r, want)
			}
			c.Eval(2)
			p := mul(a, b)
			for k, t := range ts {
				if !c.Thorough && j != 0 && (i+2*j+k)%8 != 0 {
					continue
				}
				var r [32]byte
				z := bytes32(mod(sub(t, p), L))
				ed.ScMulAdd(&r, &x, &y, &z)
				if r != bytes32(t) {
					c.Fail(desc("ScMulAdd")+" "+hex(t), "ScMulAdd: %x, must be %x", r, t)
				}
				z = bytes32(mod(add(t, p), L))
				if r := ed.ScMulSub(x, y, z); r != bytes32(t) {
					c.Fail(desc("ScMulSub")+" "+hex(t), "ScMulSub: %x, must be %x", r, t)
				}
				c.Eval(2)
				if j == 0 || c.Thorough {
					z = bytes32(mod(sub(t, a), L))
					if r := ed.ScAdd(&x, &z); r != bytes32(t) {
						c.Fail(desc("ScAdd")+" "+hex(t), "ScAdd: %x, must be %x", r, t)
					}
					z = bytes32(mod(sub(a, t), L))
					if r := ed.ScSub(x, z); r != bytes32(t) {
						c.Fail(desc("ScSub")+" "+hex(t), "ScSub: %x, must be %x", r, t)
					}
					c.Eval(2)
				}
			}
			for k, d := range few {
				if !c.Thorough && (i+j+k)%4 != 0 {
					continue
				}
				z := bytes32(d)
				var r [32]byte
				ed.ScMulAdd(&r, &x, &y, &z)
				if want := bytes32(mod(add(p, d), L)); r != want {
					c.Fail(desc("ScMulAdd")+" "+hex(d), "ScMulAdd: %x, must be %x", r, want)
				}
				if r, want := ed.ScMulSub(x, y, z), bytes32(mod(sub(d, p), L)); r != want {
					c.Fail(desc("ScMulSub")+" "+hex(d), "ScMulSub: %x, must be %x", r, want)
				}
				c.Eval(2)
			}
		}
	})
}

// ---- the field

func fe(v *big.Int) (f ed.FieldElement) {
	b := bytes32(v)
	ed.FeFromBytes(&f, &b)
	return
}

func value(f ed.FieldElement) (b [32]byte) {
	ed.FeToBytes(&b, f)
	return
}

func fieldChecks() {
	all := elements()
	is := func(what string, f ed.FieldElement, want *big.Int) {
		want = mod(want, P)
		if r := value(f); r != bytes32(want) {
			c.Fail(what, "%s: %x, must be %x", what, r, bytes32(want))
		}
		if r := ed.FeIsNegative(&f); uint(r) != want.Bit(0) {
			c.Fail(what, "%s: FeIsNegative %d of %x", what, r, want)
		}
		if r := ed.FeIsNonZero(&f); (r != 0) != (want.Sign() != 0) {
			c.Fail(what, "%s: FeIsNonZero %d of %x", what, r, want)
		}
		c.Eval(1)
	}
	fes := make([]ed.FieldElement, len(all))
	for i := range all {
		fes[i] = fe(all[i])
	}
	c.Each("field elements", len(all), func(w, i int) {
		v, f := all[i], fes[i]
		is("element "+hex(v), f, v)
		if v.BitLen() < 256 {
			over := add(v, shl(1, 255)) // the top bit counts
			is("element "+hex(over), fe(over), over)
		}
		var r, s ed.FieldElement
		ed.FeNeg(&r, &f)
		is("FeNeg "+hex(v), r, new(big.Int).Neg(v))
		ed.FeSquare(&r, &f)
		is("FeSquare "+hex(v), r, mul(v, v))
		ed.FeSquare2(&r, &f)
		is("FeSquare2 "+hex(v), r, mul(bi(2), mul(v, v)))
		ed.FeInvert(&r, &f)
		want := new(big.Int)
		if m := mod(v, P); m.Sign() != 0 {
			want.ModInverse(m, P)
		}
		is("FeInvert "+hex(v), r, want)
		ed.FeCopy(&s, &f)
		is("FeCopy", s, v)
		ed.FeCMove(&s, &r, 0)
		is("FeCMove 0", s, v)
		ed.FeCMove(&s, &r, 1)
		is("FeCMove 1", s, want)
		ed.FeZero(&s)
		is("FeZero", s, bi(0))
		ed.FeOne(&s)
		is("FeOne", s, one)
		for j, u := range all {
			d := func(what string) string { return fmt.Sprintf("%s %x %x", what, v, u) }
			var a, m, p ed.FieldElement
			ed.FeAdd(&a, &f, &fes[j])
			is(d("FeAdd"), a, add(v, u))
			ed.FeSub(&m, &f, &fes[j])
			is(d("FeSub"), m, sub(v, u))
			ed.FeMul(&p, &f, &fes[j])
			is(d("FeMul"), p, mul(v, u))
			ed.FeMul(&p, &a, &m)
			is(d("FeMul of sum and difference"), p, mul(add(v, u), sub(v, u)))
			ed.FeSquare(&p, &m)
			is(d("FeSquare of difference"), p, mul(sub(v, u), sub(v, u)))
			ed.FeSquare2(&p, &a)
			is(d("FeSquare2 of sum"), p, mul(bi(2), mul(add(v, u), add(v, u))))
		}
		c.Distinct("f" + hex(v))
	})
}

// ---- the curve

type point struct {
	name string
	r    ref.Point
	g    ed.ExtendedGroupElement // with some Z
}

func decode(b [32]byte) (g ed.ExtendedGroupElement) {
	if !g.FromBytes(&b) {
		c.Fail(fmt.Sprintf("%x", b), "FromBytes refuses a point")
	}
	return
}

// doubles are the multiples by powers of two, for quick reference products.
type doubles []ref.Point

func doublesOf(p ref.Point) (d doubles) {
	for k := 0; k < 256; k++ {
		d = append(d, p)
		p = p.Add(p)
	}
	return
}

func (d doubles) mul(s *big.Int) ref.Point {
	r := ref.Identity()
	for k := 0; k < s.BitLen(); k++ {
		if s.Bit(k) == 1 {
			r = r.Add(d[k])
		}
	}
	return r
}

func points() (out []point) {
	tor := ref.Torsion()
	put := func(name string, r ref.Point) {
		g := decode(r.Bytes())
		out = append(out, point{name, r, g})
		// the same one with another Z: (P + 3B) - 3B
		three := decode(ref.Base.Mul(bi(3)).Bytes())
		var k ed.CachedGroupElement
		var t ed.CompletedGroupElement
		three.ToCached(&k)
		ed.GeAdd(&t, &g, &k)
		t.ToExtended(&g)
		ed.GeSub(&t, &g, &k)
		t.ToExtended(&g)
		out = append(out, point{name + " with another Z", r, g})
	}
	for i, t := range tor {
		put(fmt.Sprintf("T%d", i), t)
		put(fmt.Sprintf("B+T%d", i), ref.Base.Add(t))
	}
	for _, k := range []*big.Int{bi(2), bi(3), bi(8), sub(L, one), sub(L, bi(2)), shl(1, 251)} {
		put(fmt.Sprintf("%x*B", k), ref.Base.Mul(k))
	}
	return
}

func sums(ps []point) {
	c.Each("pairs of points", len(ps), func(w, i int) {
		p := ps[i]
		enc := p.r.Bytes()
		bad := func(what string, got [32]byte, want ref.Point) {
			if got != want.Bytes() {
				c.Fail(what+" "+p.name, "%s %s: %x, must be %x", what, p.name, got, want.Bytes())
			}
			c.Eval(1)
		}
		var t ed.CompletedGroupElement
		var e ed.ExtendedGroupElement
		var pr, pr2 ed.ProjectiveGroupElement
		bad("ToBytes", p.g.ToBytes(), p.r)
		p.g.ToProjective(&pr)
		bad("ToProjective", pr.ToBytes(), p.r)
		p.g.Double(&t)
		t.ToExtended(&e)
		bad("Double", e.ToBytes(), p.r.Add(p.r))
		pr.Double(&t)
		t.ToProjective(&pr2)
		bad("projective Double", pr2.ToBytes(), p.r.Add(p.r))
		ed.GeMul8(&t, &pr)
		t.ToExtended(&e)
		bad("GeMul8", e.ToBytes(), p.r.Mul(bi(8)))
		t.ToProjective(&pr2)
		bad("GeMul8 projective", pr2.ToBytes(), p.r.Mul(bi(8)))
		if x := p.r.Bytes(); x != enc {
			panic("reference")
		}
		for _, q := range ps {
			var k ed.CachedGroupElement
			q.g.ToCached(&k)
			ed.GeAdd(&t, &p.g, &k)
			t.ToExtended(&e)
			bad("GeAdd "+q.name+" to", e.ToBytes(), p.r.Add(q.r))
			// T of the result is used in the next sum
			e.ToCached(&k)
			ed.GeAdd(&t, &p.g, &k)
			t.ToProjective(&pr2)
			bad("GeAdd twice "+q.name+" to", pr2.ToBytes(), p.r.Add(q.r).Add(p.r))
			q.g.ToCached(&k)
			ed.GeSub(&t, &p.g, &k)
			t.ToExtended(&e)
			bad("GeSub "+q.name+" from", e.ToBytes(), p.r.Add(q.r.Neg()))
			c.Distinct("p" + p.name + q.name)
		}
		pre := ed.GeDSMPreComp(&p.g)
		for k := 0; k < 8; k++ {
			var z ed.ExtendedGroupElement
			z.Zero()
			ed.GeAdd(&t, &z, &pre[k])
			t.ToExtended(&e)
			bad(fmt.Sprint("GeDSMPreComp ", k), e.ToBytes(), p.r.Mul(bi(int64(2*k+1))))
		}
		in := p.r.Mul(L).Bytes() == ref.Identity().Bytes()
		if r := ed.GeCheckSubGroupPreCompVartime(pre); (r == 0) != in {
			c.Fail("GeCheckSubGroupPreCompVartime "+p.name, "in the group: %v, the function says %d", in, r)
		}
	})
}

// windows are numbers with few digits, at every place: each entry of each table is used, alone and next to another.
func windows() []*big.Int {
	s := &list{bits: 255}
	for k := uint(0); k < 252; k += 4 {
		for v := int64(0); v < 256; v++ {
			s.put(shl(v, k))
		}
	}
	for v := int64(0); v < 128; v++ {
		s.put(shl(v, 248))
	}
	return s.l
}

// odd are the digits of sliding windows.
func odd() []*big.Int {
	s := &list{bits: 253}
	for k := uint(0); k < 252; k++ {
		for v := int64(1); v < 64; v += 2 {
			s.put(shl(v, k))
		}
	}
	return s.l
}

func boundary(bits int) []*big.Int {
	s := &list{bits: bits}
	s.around(2, multiples(7, L)...)
	s.around(1, powers(255)...)
	s.intervals(wide32, []int64{-1, 0})
	for v := int64(0); v < 16; v++ { // the same digit everywhere
		x := new(big.Int)
		for k := uint(0); k < 63; k++ {
			x.Add(x, shl(v, 4*k))
		}
		s.put(x, add(x, shl(7, 252)))
	}
	return s.l
}

func products(ps []point) {
	base := doublesOf(ref.Base)
	ws := append(windows(), boundary(255)...)
	c.Each("multiples of the base point", len(ws), func(w, i int) {
		b := bytes32(ws[i])
		var g ed.ExtendedGroupElement
		ed.GeScalarMultBase(&g, &b)
		if r, want := g.ToBytes(), base.mul(ws[i]).Bytes(); r != want {
			c.Fail("GeScalarMultBase "+hex(ws[i]), "%x, must be %x", r, want)
		}
		c.Eval(1)
		c.Distinct("b" + hex(ws[i]))
	})
	// all points with the boundary numbers, two with all windows
	bs := boundary(255)
	ds := make([]doubles, len(ps))
	for i, p := range ps {
		ds[i] = doublesOf(p.r)
	}
	c.Each("multiples of points", len(ps)*len(bs), func(w, i int) {
		k, s := i/len(bs), bs[i%len(bs)]
		b := bytes32(s)
		g := ps[k].g
		r := ed.GeScalarMult(&b, &g)
		if r, want := r.ToBytes(), ds[k].mul(s).Bytes(); r != want {
			c.Fail("GeScalarMult "+hex(s)+" of "+ps[k].name, "%x, must be %x", r, want)
		}
		c.Eval(1)
		c.Distinct(fmt.Sprint("m", i))
	})
	some := []int{3, 24, 27}
	c.Each("windows of points", len(ws), func(w, i int) {
		b := bytes32(ws[i])
		for _, k := range some {
			g := ps[k].g
			r := ed.GeScalarMult(&b, &g)
			if r, want := r.ToBytes(), ds[k].mul(ws[i]).Bytes(); r != want {
				c.Fail("GeScalarMult "+hex(ws[i])+" of "+ps[k].name, "%x, must be %x", r, want)
			}
			c.Eval(1)
		}
		c.Distinct("n" + hex(ws[i]))
	})
	// double products
	double := func(a, b *big.Int, k, m int) {
		x, y := bytes32(a), bytes32(b)
		g := ps[k].g
		var r ed.ProjectiveGroupElement
		ed.GeDoubleScalarMultBaseVartime(&r, &x, &g, &y)
		am := ds[k].mul(a)
		if r, want := r.ToBytes(), am.Add(base.mul(b)).Bytes(); r != want {
			c.Fail(fmt.Sprintf("GeDoubleScalarMultBaseVartime %x %s %x", a, ps[k].name, b), "%x, must be %x", r, want)
		}
		h := ps[m].g
		ed.GeDoubleScalarMultPrecompVartime(&r, &x, &g, &y, ed.GeDSMPreComp(&h))
		if r, want := r.ToBytes(), am.Add(ds[m].mul(b)).Bytes(); r != want {
			c.Fail(fmt.Sprintf("GeDoubleScalarMultPrecompVartime %x %s %x %s", a, ps[k].name, b, ps[m].name), "%x, must be %x", r, want)
		}
		c.Eval(2)
	}
	os := odd()
	zero := new(big.Int)
	c.Each("sliding windows", len(os), func(w, i int) {
		double(os[i], zero, some[i%3], some[(i+1)%3])
		double(zero, os[i], some[i%3], some[(i+1)%3])
		c.Distinct("o" + hex(os[i]))
	})
	vs := []int64{1, 15, 17, 31, 33}
	c.Each("two windows", 248, func(w, i int) {
		for d := 0; d < 7; d++ {
			for _, u := range vs {
				for _, v := range vs {
					if i+d < 246 {
						double(shl(u, uint(i)), shl(v, uint(i+d)), some[d%3], some[(d+1)%3])
						double(shl(u, uint(i+d)), shl(v, uint(i)), some[d%3], some[(d+1)%3])
						double(add(shl(u, uint(i)), shl(v, uint(i+d))), shl(u, uint(i)), some[d%3], some[(d+1)%3])
					}
				}
			}
		}
		c.Distinct(fmt.Sprint("t", i))
	})
	small := boundary(252)
	c.Each("pairs of boundary numbers", len(small), func(w, i int) {
		for j := i % 7; j < len(small); j += 7 {
			if c.Thorough || j%2 == 0 {
				double(small[i], small[j], some[(i+j)%3], some[(i+j+1)%3])
			}
		}
		k := i % len(ps)
		double(small[i], small[len(small)-1-i], k, (k+5)%len(ps))
		c.Distinct("d" + hex(small[i]))
	})
}

func encodings() {
	s := &list{bits: 256}
	top := shl(1, 255)
	n := int64(1500)
	if c.Thorough {
		n = 20000
	}
	for _, sign := range []*big.Int{bi(0), top} {
		for v := int64(0); v < n; v++ {
			s.put(add(bi(v), sign), add(sub(P, bi(v)), sign))
		}
		for v := int64(0); v < 19; v++ { // not reduced
			s.put(add(add(P, bi(v)), sign))
		}
		for _, v := range elements() {
			s.put(add(v, sign))
		}
	}
	c.Each("encodings", len(s.l), func(w, i int) {
		b := bytes32(s.l[i])
		in := b
		want, ok := ref.DecodePoint(b)
		var g ed.ExtendedGroupElement
		got := g.FromBytes(&b)
		q, err := ed.GeFromBytes(&b)
		if (err == nil) != got || b != in {
			c.Fail("decoding "+hex(s.l[i]), "FromBytes says %v, GeFromBytes %v", got, err)
		}
		if got != ok {
			c.Fail("decoding "+hex(s.l[i]), "accepted: %v, must be %v", got, ok)
		}
		if ok && (g.ToBytes() != in || q.ToBytes() != in || want.Bytes() != in) {
			c.Fail("decoding "+hex(s.l[i]), "comes back as %x and %x", g.ToBytes(), q.ToBytes())
		}
		// and as a hash, to a point
		var p ed.ProjectiveGroupElement
		var t ed.CompletedGroupElement
		var e ed.ExtendedGroupElement
		if err := p.FromBytes(&b); err != nil {
			c.Fail("mapping "+hex(s.l[i]), "refused: %v", err)
		}
		ed.GeMul8(&t, &p)
		t.ToExtended(&e)
		if r, m := e.ToBytes(), ref.MapToPoint(in); m.X == nil || r != m.Bytes() {
			c.Fail("mapping "+hex(s.l[i]), "%x, must be %x", r, m.Bytes())
		}
		c.Eval(3)
		c.Distinct("e" + hex(s.l[i]))
		c.Outcome(fmt.Sprint("is a point: ", ok))
	})
}

func TestVerif(t *testing.T) {
	c = vlib.New("C33")
	scalarChecks()
	fieldChecks()
	ps := points()
	sums(ps)
	products(ps)
	encodings()
	c.Sample("GeDoubleScalarMultBaseVartime f800 B+T4 1f0")
	c.Done()
}
