//go:build go1.23

// Package eccgen draws scalars, points and encodings.
package eccgen

import (
	"math/big"

	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

var Top = new(big.Int).Lsh(big.NewInt(1), 256)

// Num draws a 256-bit number: small, around multiples of the order and of the field prime, around powers of two,
// constant digits of any radix up to 16 bits, or random.
func Num(rt *rapid.T, name string) *big.Int {
	v := new(big.Int)
	delta := func() *big.Int { return big.NewInt(int64(rapid.IntRange(-3, 3).Draw(rt, name+"Delta"))) }
	switch rapid.IntRange(0, 8).Draw(rt, name+"Kind") {
	case 0:
		v.SetInt64(int64(rapid.IntRange(0, 40).Draw(rt, name)))
	case 1:
		v.Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 15).Draw(rt, name+"Times"))))
		v.Add(v, delta())
	case 2:
		v.Mul(ref.P, big.NewInt(int64(rapid.IntRange(1, 2).Draw(rt, name+"Times"))))
		v.Add(v, delta())
	case 3:
		v.Lsh(big.NewInt(1), uint(rapid.IntRange(0, 256).Draw(rt, name+"Shift")))
		v.Add(v, delta())
	case 4:
		w := rapid.IntRange(1, 16).Draw(rt, name+"Width")
		d := big.NewInt(int64(rapid.IntRange(0, 1<<w-1).Draw(rt, name+"Digit")))
		for i := 0; i < 256; i += w {
			v.Lsh(v, uint(w)).Or(v, d)
		}
	default:
		b := kit.Expand(rapid.Uint64().Draw(rt, name+"Seed"), 32)
		v = ref.LE(b)
		if rapid.Bool().Draw(rt, name+"Low") {
			v.Mod(v, ref.L)
		}
	}
	return v.Mod(v.Add(v, Top), Top)
}

// Scalar draws a number below the order.
func Scalar(rt *rapid.T, name string) *big.Int {
	v := Num(rt, name)
	return v.Mod(v, ref.L)
}

func Big(b [32]byte) *big.Int { return ref.LE(b[:]) }

var Low = ref.LowOrder()

func Mul8(p ref.Point) ref.Point { p = p.Add(p); p = p.Add(p); return p.Add(p) }

// Point draws a curve point: of the prime-order subgroup, with a small-order component, or of small order.
func Point(rt *rapid.T, name string) (ref.Point, string) {
	kind := rapid.IntRange(0, 9).Draw(rt, name+"Kind")
	if kind == 9 {
		return Low[rapid.IntRange(0, 7).Draw(rt, name+"Low")], "small order"
	}
	seed := rapid.Uint64().Draw(rt, name+"Seed")
	for {
		p, ok := ref.Decode([32]byte(kit.Expand(seed, 32)))
		if !ok {
			seed++
			continue
		}
		p = Mul8(p)
		if kind < 6 {
			return p, "prime order"
		}
		return p.Add(Low[rapid.IntRange(1, 7).Draw(rt, name+"Torsion")]), "mixed order"
	}
}

// Encoding draws 32 bytes that may or may not encode a point: the reference decides.
func Encoding(rt *rapid.T, name string) (b [32]byte, kind string) {
	switch k := rapid.IntRange(0, 7).Draw(rt, name+"Kind"); k {
	case 0:
		// small y, and the same plus the prime, with either sign
		y := big.NewInt(int64(rapid.IntRange(0, 30).Draw(rt, name+"Y")))
		if rapid.Bool().Draw(rt, name+"Over") {
			if y.Cmp(big.NewInt(18)) <= 0 {
				y.Add(y, ref.P)
			}
		}
		b, kind = ref.ToLE(y), "edge"
	case 1:
		// large y
		y := new(big.Int).Sub(ref.P, big.NewInt(int64(rapid.IntRange(1, 30).Draw(rt, name+"Y"))))
		b, kind = ref.ToLE(y), "edge"
	case 2:
		b, kind = Low[rapid.IntRange(0, 7).Draw(rt, name+"Low")].Encode(), "small order"
	case 3:
		b, kind = ref.ToLE(Num(rt, name)), "pattern"
	case 4, 5:
		p, _ := Point(rt, name)
		b, kind = p.Encode(), "point"
		if k == 5 {
			i := rapid.IntRange(0, 255).Draw(rt, name+"Bit")
			b[i/8] ^= 1 << (i % 8)
			return b, "edited point"
		}
	default:
		return [32]byte(kit.Expand(rapid.Uint64().Draw(rt, name+"Seed"), 32)), "random"
	}
	if kind != "point" && rapid.Bool().Draw(rt, name+"Sign") {
		b[31] ^= 0x80
	}
	return
}

// Invalid draws 32 bytes that encode no point.
func Invalid(rt *rapid.T, name string) [32]byte {
	seed := rapid.Uint64().Draw(rt, name+"Seed")
	if rapid.IntRange(0, 3).Draw(rt, name+"Kind") == 0 {
		// zero x with a sign, or y not reduced
		b := [32]byte{1}
		switch seed % 3 {
		case 0:
			b = ref.ToLE(new(big.Int).Sub(ref.P, big.NewInt(1)))
		case 1:
			b = ref.ToLE(new(big.Int).Add(ref.P, big.NewInt(int64(seed/3%19))))
		}
		b[31] |= 0x80
		return b
	}
	for {
		b := [32]byte(kit.Expand(seed, 32))
		if _, ok := ref.Decode(b); !ok {
			return b
		}
		seed++
	}
}

// Limbs draws a number of up to size bits from limbs of the given width, most of them at the edges where carries are
// decided: all zeros, all ones, one half, and their neighbours.
func Limbs(rt *rapid.T, name string, width, size uint) *big.Int {
	v := new(big.Int)
	seed := kit.Expand(rapid.Uint64().Draw(rt, name+"Limbs"), 4*int(size/width+1))
	plain := rapid.IntRange(0, 8).Draw(rt, name+"Plain") // how many in 8 limbs are random
	one, top := int64(1), int64(1)<<width
	for i := uint(0); i*width < size; i++ {
		s := seed[4*i:]
		r := int64(s[0]) | int64(s[1])<<8 | int64(s[2])<<16
		l := r % top
		if int(s[3]%8) >= plain {
			l = []int64{0, 1, top/2 - 1, top / 2, top/2 + one, top - 2, top - 1, top - 1}[s[0]%8]
		}
		v.Or(v, new(big.Int).Lsh(big.NewInt(l), i*width))
	}
	return v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), size), big.NewInt(1)))
}

// Wide draws a number of up to size bits: products and sums around multiples of the order, limbs at their edges, or random.
func Wide(rt *rapid.T, name string, size uint) *big.Int {
	full := new(big.Int).Lsh(big.NewInt(1), size)
	v := new(big.Int)
	switch rapid.IntRange(0, 5).Draw(rt, name+"Wide") {
	case 0:
		// a multiple of the order, and its neighbours
		v = ref.LE(kit.Expand(rapid.Uint64().Draw(rt, name+"Times"), int(size/8)))
		v.Rsh(v, uint(rapid.IntRange(0, int(size)).Draw(rt, name+"Shift")))
		v.Sub(v, new(big.Int).Mod(v, ref.L))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(rt, name+"Delta"))))
	case 1, 2, 3:
		v = Limbs(rt, name, 21, size)
	case 4:
		v = Num(rt, name)
	default:
		v = ref.LE(kit.Expand(rapid.Uint64().Draw(rt, name+"Seed"), int(size/8)))
	}
	return v.Mod(v.Add(v, full), full)
}
