//go:build go1.23

package ref

import (
	"math/big"
)

// Edwards25519 in affine coordinates on math/big.
var (
	P    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	D    = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), P)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, P)
	}()
	sqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2), P)
)

// Point on the curve.
type Point struct{ X, Y *big.Int }

// Identity of the group.
func Identity() Point { return Point{big.NewInt(0), big.NewInt(1)} }

// Base point.
func Base() Point {
	y := new(big.Int).ModInverse(big.NewInt(5), P)
	y.Mul(y, big.NewInt(4))
	y.Mod(y, P)
	return Point{xFromY(y, 0), y}
}

// LE is the number of little-endian bytes.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ToLE is 32 little-endian bytes.
func ToLE(v *big.Int) (out [32]byte) {
	b := v.FillBytes(make([]byte, 32))
	for i := range b {
		out[31-i] = b[i]
	}
	return
}

// Sqrt mod P or nil.
func Sqrt(a *big.Int) *big.Int {
	a = new(big.Int).Mod(a, P)
	e := new(big.Int).Add(P, big.NewInt(3))
	e.Rsh(e, 3)
	r := new(big.Int).Exp(a, e, P)
	for i := 0; i < 2; i++ {
		s := new(big.Int).Mul(r, r)
		if s.Mod(s, P).Cmp(a) == 0 {
			return r
		}
		r.Mul(r, sqrtM1)
		r.Mod(r, P)
	}
	return nil
}

func mod(v *big.Int) *big.Int { return v.Mod(v, P) }

func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }

func xFromY(y *big.Int, sign uint) *big.Int {
	y2 := mul(y, y)
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(mul(D, y2), big.NewInt(1)))
	x := Sqrt(mul(u, new(big.Int).ModInverse(v, P)))
	if x == nil {
		return nil
	}
	if x.Sign() == 0 {
		if sign == 1 {
			return nil
		}
		return x
	}
	if x.Bit(0) != sign {
		x.Sub(P, x)
	}
	return x
}

// Decode accepts the canonical encoding of a curve point only.
func Decode(b [32]byte) (Point, bool) {
	sign := uint(b[31] >> 7)
	b[31] &= 0x7f
	y := LE(b[:])
	if y.Cmp(P) >= 0 {
		return Point{}, false
	}
	x := xFromY(y, sign)
	if x == nil {
		return Point{}, false
	}
	return Point{x, y}, true
}

// Encode a point.
func (p Point) Encode() [32]byte {
	b := ToLE(p.Y)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// projective coordinates for speed
type proj struct{ x, y, z *big.Int }

func (p Point) proj() proj { return proj{p.X, p.Y, big.NewInt(1)} }

func (p proj) affine() Point {
	zi := new(big.Int).ModInverse(p.z, P)
	return Point{mul(p.x, zi), mul(p.y, zi)}
}

func (p proj) add(q proj) proj {
	a := mul(p.z, q.z)
	b := mul(a, a)
	c := mul(p.x, q.x)
	d := mul(p.y, q.y)
	e := mul(D, mul(c, d))
	f := mod(new(big.Int).Sub(b, e))
	g := mod(new(big.Int).Add(b, e))
	s := mul(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	s.Sub(s, c)
	s.Sub(s, d)
	mod(s)
	return proj{mul(a, mul(f, s)), mul(a, mul(g, new(big.Int).Add(d, c))), mul(f, g)}
}

func (p proj) double() proj {
	b := new(big.Int).Add(p.x, p.y)
	b = mul(b, b)
	c := mul(p.x, p.x)
	d := mul(p.y, p.y)
	f := mod(new(big.Int).Sub(d, c)) // e = -c, f = e + d
	h := mul(p.z, p.z)
	j := mod(new(big.Int).Sub(new(big.Int).Sub(f, h), h))
	s := mod(b.Sub(b, new(big.Int).Add(c, d)))
	g := new(big.Int).Add(c, d)
	return proj{mul(s, j), mod(g.Neg(mul(f, g))), mul(f, j)}
}

// Add points.
func (p Point) Add(q Point) Point { return p.proj().add(q.proj()).affine() }

// Neg of a point.
func (p Point) Neg() Point {
	return Point{mod(new(big.Int).Neg(p.X)), new(big.Int).Set(p.Y)}
}

// Mul by a non-negative number.
func (p Point) Mul(k *big.Int) Point {
	r, b := Identity().proj(), p.proj()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.double()
		if k.Bit(i) == 1 {
			r = r.add(b)
		}
	}
	return r.affine()
}

var basePowers = func() (t [256]proj) {
	t[0] = Base().proj()
	for i := 1; i < 256; i++ {
		t[i] = t[i-1].double().affine().proj()
	}
	return
}()

// MulBase multiplies the base point by a number below 2^256.
func MulBase(k *big.Int) Point {
	r := Identity().proj()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.add(basePowers[i])
		}
	}
	return r.affine()
}

// Equal points.
func (p Point) Equal(q Point) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }

// ScalarOf a hash: little-endian value mod L.
func ScalarOf(b []byte) *big.Int { v := LE(b); return v.Mod(v, L) }

// HashToPoint is 8 times the CryptoNote map of 32 bytes to the curve.
func HashToPoint(s [32]byte) Point {
	A := big.NewInt(486662)
	one := big.NewInt(1)
	u := mod(LE(s[:]))
	v := mod(new(big.Int).Lsh(mul(u, u), 1)) // 2u^2
	w := mod(new(big.Int).Add(v, one))       // 2u^2+1
	A2 := mul(A, A)
	xp := mod(new(big.Int).Sub(mul(w, w), mul(A2, v))) // w^2-2A^2u^2
	ratio := new(big.Int)
	if xp.Sign() != 0 {
		ratio = mul(w, new(big.Int).ModInverse(xp, P))
	}
	AA2 := mul(A, new(big.Int).Add(A, big.NewInt(2)))
	var X, z *big.Int
	var sign uint
	if r := Sqrt(ratio); r != nil {
		X = mul(Sqrt(mul(big.NewInt(2), mul(AA2, ratio))), u)
		z = mod(new(big.Int).Neg(mul(A, v)))
		sign = 0
	} else {
		X = Sqrt(mul(AA2, ratio))
		z = mod(new(big.Int).Neg(A))
		sign = 1
	}
	if X.Bit(0) != sign {
		X = mod(new(big.Int).Neg(X))
	}
	// x = X, y = (z-w)/(z+w)
	den := mod(new(big.Int).Add(z, w))
	y := mul(mod(new(big.Int).Sub(z, w)), new(big.Int).ModInverse(den, P))
	return Point{X, y}.Mul(big.NewInt(8))
}

// LowOrder are the eight points of order dividing eight.
func LowOrder() []Point {
	// a point of order 8: L times a point outside the prime-order subgroup
	for y := int64(2); ; y++ {
		x := xFromY(big.NewInt(y), 0)
		if x == nil {
			continue
		}
		t := Point{x, big.NewInt(y)}.Mul(L)
		if t.Mul(big.NewInt(4)).Equal(Identity()) {
			continue
		}
		l := []Point{Identity()}
		for i := 1; i < 8; i++ {
			l = append(l, l[i-1].Add(t))
		}
		return l
	}
}
