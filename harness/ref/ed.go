//go:build go1.21

package ref

import (
	"math/big"
)

// Edwards curve -x^2+y^2 = 1+d x^2 y^2 over 2^255-19, straight from the definition.
var (
	P25519, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	Order, _  = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edD       = func() *big.Int {
		x := new(big.Int).ModInverse(big.NewInt(121666), P25519)
		x.Mul(x, big.NewInt(-121665))
		return x.Mod(x, P25519)
	}()
	sqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P25519, big.NewInt(1)), 2), P25519)
	Base   = func() Point {
		y := new(big.Int).ModInverse(big.NewInt(5), P25519)
		y.Mul(y, big.NewInt(4)).Mod(y, P25519)
		p, _ := DecodePoint(le(y))
		return p
	}()
)

// Point in extended coordinates (x=X/Z, y=Y/Z, T=XY/Z).
type Point struct{ X, Y, Z, T *big.Int }

func le(v *big.Int) (b [32]byte) {
	s := v.Bytes()
	for i := range s {
		b[i] = s[len(s)-1-i]
	}
	return
}

// LE reads a little-endian number.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return new(big.Int).SetBytes(r)
}

func ScalarBytes(v *big.Int) [32]byte { return le(v) }

func Identity() Point {
	return Point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

func fm(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, P25519) }
func fa(a, b *big.Int) *big.Int { x := new(big.Int).Add(a, b); return x.Mod(x, P25519) }
func fs(a, b *big.Int) *big.Int { x := new(big.Int).Sub(a, b); return x.Mod(x, P25519) }

// Add is the complete addition law.
func (p Point) Add(q Point) Point {
	a := fm(p.X, q.X)
	b := fm(p.Y, q.Y)
	c := fm(fm(p.T, q.T), edD)
	d := fm(p.Z, q.Z)
	e := fs(fs(fm(fa(p.X, p.Y), fa(q.X, q.Y)), a), b)
	f, g, h := fs(d, c), fa(d, c), fa(b, a)
	return Point{fm(e, f), fm(g, h), fm(f, g), fm(e, h)}
}

func (p Point) Neg() Point {
	return Point{fs(new(big.Int), p.X), p.Y, p.Z, fs(new(big.Int), p.T)}
}

func (p Point) Mul(s *big.Int) Point {
	r := Identity()
	for i := s.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if s.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

func (p Point) Bytes() [32]byte {
	zi := new(big.Int).ModInverse(p.Z, P25519)
	x, y := fm(p.X, zi), fm(p.Y, zi)
	b := le(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// DecodePoint accepts exactly the canonical encodings of curve points.
func DecodePoint(b [32]byte) (Point, bool) {
	sign := uint(b[31] >> 7)
	b[31] &= 127
	y := LE(b[:])
	if y.Cmp(P25519) >= 0 {
		return Point{}, false
	}
	yy := fm(y, y)
	u := fs(yy, big.NewInt(1))
	v := fa(fm(edD, yy), big.NewInt(1))
	xx := fm(u, new(big.Int).ModInverse(v, P25519))
	x, ok := sqrt(xx)
	if !ok {
		return Point{}, false
	}
	if x.Sign() == 0 && sign == 1 {
		return Point{}, false
	}
	if x.Bit(0) != sign {
		x = fs(new(big.Int), x)
	}
	return Point{x, y, big.NewInt(1), fm(x, y)}, true
}

func sqrt(a *big.Int) (*big.Int, bool) {
	e := new(big.Int).Add(P25519, big.NewInt(3))
	x := new(big.Int).Exp(a, e.Rsh(e, 3), P25519)
	if fm(x, x).Cmp(a) == 0 {
		return x, true
	}
	x = fm(x, sqrtM1)
	return x, fm(x, x).Cmp(a) == 0
}

// Hs is the hash to a scalar.
func Hs(b ...[]byte) *big.Int {
	h := Keccak(b...)
	x := LE(h[:])
	return x.Mod(x, Order)
}

// Hp is the hash to a curve point: the Elligator-like map of CryptoNote, times 8. With u the hash as a field element,
// the Montgomery x coordinate is -2Au^2/w... resolved here through the curve equation: of the two candidates the one
// on the curve is taken, with the sign the map prescribes.
func Hp(b []byte) Point {
	h := Keccak(b)
	return MapToPoint(h)
}

func MapToPoint(h [32]byte) Point {
	u := LE(h[:])
	u.Mod(u, P25519)
	A := big.NewInt(486662)
	w := fa(fm(big.NewInt(2), fm(u, u)), big.NewInt(1)) // 2u^2+1
	// y = (z-w)/(z+w) with z = -2Au^2 (then x has sign 0 in terms of u) or z = -A
	try := func(z *big.Int) (*big.Int, *big.Int, bool) {
		den := fa(z, w)
		if den.Sign() == 0 {
			return nil, nil, false
		}
		y := fm(fs(z, w), new(big.Int).ModInverse(den, P25519))
		yy := fm(y, y)
		v := fa(fm(edD, yy), big.NewInt(1))
		x, ok := sqrt(fm(fs(yy, big.NewInt(1)), new(big.Int).ModInverse(v, P25519)))
		return x, y, ok
	}
	z := fm(fs(new(big.Int), fm(big.NewInt(2), A)), fm(u, u))
	x, y, ok := try(z)
	sign := uint(0)
	if !ok {
		z = fs(new(big.Int), A)
		x, y, ok = try(z)
		sign = 1
	}
	if !ok {
		return Point{}
	}
	// the map fixes the sign of x*1 before the multiplication by Z=z+w: rx is the value whose parity is prescribed,
	// and x = rx*Z/Z in affine terms
	if x.Bit(0) != sign {
		x = fs(new(big.Int), x)
	}
	p := Point{x, y, big.NewInt(1), fm(x, y)}
	return p.Mul(big.NewInt(8))
}

// Torsion are the eight points of small order.
func Torsion() []Point {
	var t Point
	for y := int64(2); ; y++ {
		p, ok := DecodePoint(le(big.NewInt(y)))
		if !ok {
			continue
		}
		t = p.Mul(Order)
		if q := t.Mul(big.NewInt(4)).Bytes(); q != Identity().Bytes() {
			break
		}
	}
	var o []Point
	p := Identity()
	for i := 0; i < 8; i++ {
		o = append(o, p)
		p = p.Add(t)
	}
	return o
}
