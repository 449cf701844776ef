//go:build go1.23

package edwards25519_test

import (
	"math/big"
	"testing"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/zzverif/eccgen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func le(b [32]byte) *big.Int { return ref.LE(b[:]) }

func TestVerifC32Scalars(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 1000000,
		Rule: "triples of 256-bit numbers and a 512-bit number, most of them with 21-bit limbs at the edges where carries are decided or next to multiples of the order: sums, differences, products with sums and differences and reductions against big integers, always canonical, and the range and zero checks; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			a, b, s := eccgen.Wide(rt, "a", 256), eccgen.Wide(rt, "b", 256), eccgen.Wide(rt, "s", 256)
			w := eccgen.Wide(rt, "w", 512)
			ab, bb, sb := ref.ToLE(a), ref.ToLE(b), ref.ToLE(s)
			check := func(what string, got [32]byte, want *big.Int) {
				want.Mod(want, ref.L)
				if le(got).Cmp(want) != 0 {
					rt.Fatalf("%s of %x, %x, %x (%x) is %x, expected %x", what, ab, bb, sb, w, got, ref.ToLE(want))
				}
			}
			prod := new(big.Int).Mul(a, b)
			check("sum", ed.ScAdd(&ab, &bb), new(big.Int).Add(a, b))
			check("difference", ed.ScSub(ab, bb), new(big.Int).Sub(a, b))
			check("c-ab", ed.ScMulSub(ab, bb, sb), new(big.Int).Sub(s, prod))
			var r [32]byte
			ed.ScMulAdd(&r, &ab, &bb, &sb)
			check("ab+c", r, new(big.Int).Add(prod, s))
			check("reduction", ed.ScReduce32(ab), new(big.Int).Set(a))
			var wb [64]byte
			for i, x := range w.Bytes() {
				wb[len(w.Bytes())-1-i] = x
			}
			check("wide reduction", ed.ScReduce(wb), new(big.Int).Set(w))
			if ab != ref.ToLE(a) || bb != ref.ToLE(b) || sb != ref.ToLE(s) {
				rt.Fatalf("operand changed")
			}
			below := a.Cmp(ref.L) < 0
			if ed.ScMinimal(&ab) != below || ed.ScCheck(ab) != below {
				rt.Fatalf("range check of %x: %v %v, below the order: %v", ab, ed.ScMinimal(&ab), ed.ScCheck(ab), below)
			}
			if ed.ScIsNonZero(ab) != (a.Sign() != 0) || ed.ScZero() != [32]byte{} {
				rt.Fatalf("zero check of %x: %v", ab, ed.ScIsNonZero(ab))
			}
			// aliases: the result over an operand
			x, y, z := ab, bb, sb
			ed.ScMulAdd(&x, &x, &y, &z)
			if x != r {
				rt.Fatalf("ab+c over a is %x, expected %x", x, r)
			}
			c.Hit(ab[:], bb[:], sb[:], wb[:])
			c.Sample("%x %x %x %x", ab, bb, sb, wb)
		})
}

// value of limbs, modulo the field prime
func value(f *ed.FieldElement) *big.Int {
	v := new(big.Int)
	for i, l := range f {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(l)), uint(51*i+1)/2))
	}
	return v.Mod(v, ref.P)
}

// drawFe draws limbs within tenths of the bound 2^25, 2^24, 2^25 and so on, most of them at its edges.
func drawFe(rt *rapid.T, name string, tenths int64) (f ed.FieldElement) {
	seed := kit.Expand(rapid.Uint64().Draw(rt, name), 50)
	plain := rapid.IntRange(0, 8).Draw(rt, name+"Plain")
	for i := range f {
		s := seed[5*i:]
		bound := int64(1) << 25
		if i%2 == 1 {
			bound = 1 << 24
		}
		max := bound * tenths / 10
		r := int64(s[0]) | int64(s[1])<<8 | int64(s[2])<<16 | int64(s[3])<<24
		l := r%(2*max+1) - max
		if int(s[4]%8) >= plain {
			l = []int64{0, 1, -1, bound, bound - 1, -bound, 1 - bound, max, -max, max - 1, bound / 2, 2*bound - 1}[s[0]%12]
			if l > max {
				l = max
			}
		}
		f[i] = int32(l)
	}
	return
}

func TestVerifC32Field(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 600000,
		Rule: "field elements of limbs up to the documented bounds, most of them at the edges where carries are decided, and 32-byte encodings of all kinds: sums, differences, products, squares, doubled squares, inverses, negation, selection, sign and zero tests, encoding and decoding against big integers modulo 2^255-19; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			enc := func(what string, f ed.FieldElement, want *big.Int) {
				var b [32]byte
				ed.FeToBytes(&b, f)
				if le(b).Cmp(new(big.Int).Mod(want, ref.P)) != 0 {
					rt.Fatalf("%s is %x, expected %x", what, b, ref.ToLE(new(big.Int).Mod(want, ref.P)))
				}
			}
			// inputs of products may be up to 1.65*2^26 and so on, of sums and encodings 1.1*2^25 and so on
			f, g := drawFe(rt, "f", 33), drawFe(rt, "g", 33)
			fv, gv := value(&f), value(&g)
			var h ed.FieldElement
			ed.FeMul(&h, &f, &g)
			enc("product", h, new(big.Int).Mul(fv, gv))
			ed.FeSquare(&h, &f)
			enc("square", h, new(big.Int).Mul(fv, fv))
			ed.FeSquare2(&h, &f)
			enc("doubled square", h, new(big.Int).Mul(big.NewInt(2), new(big.Int).Mul(fv, fv)))
			if rapid.IntRange(0, 7).Draw(rt, "invert") == 0 {
				ed.FeInvert(&h, &f)
				inv := new(big.Int).Exp(fv, new(big.Int).Sub(ref.P, big.NewInt(2)), ref.P)
				enc("inverse", h, inv)
			}
			x, y := drawFe(rt, "x", 11), drawFe(rt, "y", 11)
			xv, yv := value(&x), value(&y)
			keepX, keepY := x, y
			ed.FeAdd(&h, &x, &y)
			if value(&h).Cmp(new(big.Int).Mod(new(big.Int).Add(xv, yv), ref.P)) != 0 {
				rt.Fatalf("%v + %v is %v", x, y, h)
			}
			ed.FeSub(&h, &x, &y)
			if value(&h).Cmp(new(big.Int).Mod(new(big.Int).Sub(xv, yv), ref.P)) != 0 {
				rt.Fatalf("%v - %v is %v", x, y, h)
			}
			ed.FeNeg(&h, &x)
			enc("negation", h, new(big.Int).Neg(xv))
			enc("element", x, xv)
			if ed.FeIsNegative(&x) != byte(xv.Bit(0)) {
				rt.Fatalf("sign of %x", ref.ToLE(xv))
			}
			if ed.FeIsNonZero(&x) != int32(xv.Sign()) {
				rt.Fatalf("zero test of %x: %d", ref.ToLE(xv), ed.FeIsNonZero(&x))
			}
			h = x
			move := int32(rapid.IntRange(0, 1).Draw(rt, "move"))
			ed.FeCMove(&h, &y, move)
			if (move == 0 && h != keepX) || (move == 1 && h != keepY) || x != keepX || y != keepY {
				rt.Fatalf("selection %d of %v, %v is %v", move, keepX, keepY, h)
			}
			ed.FeCopy(&h, &x)
			if h != x {
				rt.Fatalf("copy of %v is %v", x, h)
			}
			ed.FeZero(&h)
			enc("zero", h, new(big.Int))
			ed.FeOne(&h)
			enc("one", h, big.NewInt(1))
			var b [32]byte
			if rapid.Bool().Draw(rt, "limbs") {
				b = ref.ToLE(eccgen.Limbs(rt, "bytes", 17, 256))
			} else {
				b = ref.ToLE(eccgen.Num(rt, "bytes"))
			}
			ed.FeFromBytes(&h, &b)
			bv := le(b) // all 256 bits, as hashing to a point needs
			enc("decoded element", h, bv)
			c.Hit(f, g, x, y, b[:])
			c.Sample("%v %v %v %v %x", f, g, x, y, b)
		})
}

// affine gives the point that projective coordinates stand for.
func affine(X, Y, Z *ed.FieldElement) ref.Point {
	inv := new(big.Int).ModInverse(value(Z), ref.P)
	if inv == nil {
		return ref.Point{X: big.NewInt(-1), Y: big.NewInt(-1)}
	}
	x, y := new(big.Int).Mul(value(X), inv), new(big.Int).Mul(value(Y), inv)
	return ref.Point{X: x.Mod(x, ref.P), Y: y.Mod(y, ref.P)}
}

func TestVerifC32Group(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1500, Thorough: 40000,
		Rule: "points of prime, mixed and small order in randomly scaled coordinates and scalars below 2^255 of all kinds, many with limbs at the edges: decoding, encoding, sums, differences, doubles, eightfolds, base, single, double and precomputed double multiples and the order test against the reference curve, all coordinate forms consistent; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			scalar := func(name string) (*big.Int, [32]byte) {
				v := eccgen.Wide(rt, name, 255)
				if rapid.IntRange(0, 3).Draw(rt, name+"Reduced") > 0 {
					v.Mod(v, ref.L)
				}
				return v, ref.ToLE(v)
			}
			a, ab := scalar("a")
			b, bb := scalar("b")
			get := func(name string) (ref.Point, *ed.ExtendedGroupElement, string) {
				p, kind := eccgen.Point(rt, name)
				pb := p.Encode()
				e, err := ed.GeFromBytes(&pb)
				if err != nil {
					rt.Fatalf("point %x (%s) refused: %v", pb, kind, err)
				}
				if e.ToBytes() != pb {
					rt.Fatalf("point %x encodes as %x", pb, e.ToBytes())
				}
				// the same point in other coordinates
				z := drawFe(rt, name+"Z", 11)
				if value(&z).Sign() != 0 {
					ed.FeMul(&e.X, &e.X, &z)
					ed.FeMul(&e.Y, &e.Y, &z)
					ed.FeMul(&e.Z, &e.Z, &z)
					ed.FeMul(&e.T, &e.T, &z)
				}
				if e.ToBytes() != pb {
					rt.Fatalf("point %x in coordinates scaled by %v encodes as %x", pb, z, e.ToBytes())
				}
				return p, e, kind
			}
			p, pe, kind := get("p")
			q, qe, _ := get("q")
			pb, qb := p.Encode(), q.Encode()
			keepP, keepQ := *pe, *qe
			var qc ed.CachedGroupElement
			qe.ToCached(&qc)
			same := func(what string, pr *ed.ProjectiveGroupElement, want ref.Point) {
				if !affine(&pr.X, &pr.Y, &pr.Z).Equal(want) || pr.ToBytes() != want.Encode() {
					rt.Fatalf("%s of %x, %x (%s) by %v, %v is %x, expected %x", what, pb, qb, kind, a, b, pr.ToBytes(), want.Encode())
				}
			}
			completed := func(what string, co *ed.CompletedGroupElement, want ref.Point) {
				var pr ed.ProjectiveGroupElement
				var ex ed.ExtendedGroupElement
				co.ToProjective(&pr)
				co.ToExtended(&ex)
				same(what, &pr, want)
				var back ed.ProjectiveGroupElement
				ex.ToProjective(&back)
				same(what+" in extended form", &back, want)
				if ex.ToBytes() != want.Encode() {
					rt.Fatalf("%s of %x, %x in extended form encodes as %x", what, pb, qb, ex.ToBytes())
				}
				zt, xy := new(big.Int).Mul(value(&ex.Z), value(&ex.T)), new(big.Int).Mul(value(&ex.X), value(&ex.Y))
				if zt.Sub(zt, xy).Mod(zt, ref.P).Sign() != 0 {
					rt.Fatalf("%s of %x, %x: extended coordinates do not agree", what, pb, qb)
				}
			}
			var co ed.CompletedGroupElement
			var pr ed.ProjectiveGroupElement
			ed.GeAdd(&co, pe, &qc)
			completed("sum", &co, p.Add(q))
			ed.GeSub(&co, pe, &qc)
			completed("difference", &co, p.Add(q.Neg()))
			pe.Double(&co)
			completed("double", &co, p.Add(p))
			pe.ToProjective(&pr)
			same("projective form", &pr, p)
			pr.Double(&co)
			completed("projective double", &co, p.Add(p))
			ed.GeMul8(&co, &pr)
			completed("eightfold", &co, eccgen.Mul8(p))
			var none ed.CachedGroupElement
			none.Zero()
			ed.GeAdd(&co, pe, &none)
			completed("sum with nothing", &co, p)
			move := int32(rapid.IntRange(0, 1).Draw(rt, "move"))
			none.CMove(&qc, move)
			ed.GeAdd(&co, pe, &none)
			if move == 1 {
				completed("sum with a selected point", &co, p.Add(q))
			} else {
				completed("sum with no selected point", &co, p)
			}
			var o ed.ExtendedGroupElement
			o.Zero()
			pr.Zero()
			same("identity", &pr, ref.Identity())
			ed.GeAdd(&co, &o, &qc)
			completed("sum with the identity", &co, q)

			ap, bq := p.Mul(a), q.Mul(b)
			pr = ed.GeScalarMult(&ab, pe)
			same("product", &pr, ap)
			var base ed.ExtendedGroupElement
			ed.GeScalarMultBase(&base, &ab)
			base.ToProjective(&pr)
			same("product of the base", &pr, ref.MulBase(a))
			ed.GeDoubleScalarMultBaseVartime(&pr, &ab, pe, &bb)
			same("double product with the base", &pr, ap.Add(ref.MulBase(b)))
			pre := ed.GeDSMPreComp(qe)
			ed.GeDoubleScalarMultPrecompVartime(&pr, &ab, pe, &bb, pre)
			same("double product", &pr, ap.Add(bq))
			inside := p.Mul(ref.L).Equal(ref.Identity())
			if got := ed.GeCheckSubGroupPreCompVartime(ed.GeDSMPreComp(pe)); (got == 0) != inside {
				rt.Fatalf("order test of %x (%s) is %d", pb, kind, got)
			}
			if *pe != keepP || *qe != keepQ || ab != ref.ToLE(a) || bb != ref.ToLE(b) {
				rt.Fatalf("operand changed")
			}
			c.Label(kind)
			c.Hit(ab[:], bb[:], pb[:], qb[:])
			c.Sample("%s point %x, %x, scalars %v %v", kind, pb, qb, a, b)
		})
}

func TestVerifC32Encodings(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 200000,
		Rule: "32 bytes of all kinds (points, edited points, small and unreduced ordinates, wrong signs, limbs at the edges, random): decoded exactly when they are the canonical encoding of a point; non-trivial: encodings of points"},
		func(rt *rapid.T, c *kit.Case) {
			b, kind := eccgen.Encoding(rt, "b")
			if rapid.IntRange(0, 3).Draw(rt, "limbs") == 0 {
				b, kind = ref.ToLE(eccgen.Limbs(rt, "b", 17, 256)), "limbs"
			}
			keep := b
			want, ok := ref.Decode(b)
			e, err := ed.GeFromBytes(&b)
			if (err == nil) != ok {
				rt.Fatalf("%x (%s) decoded: %v, a point: %v", b, kind, err, ok)
			}
			if b != keep {
				rt.Fatalf("bytes changed")
			}
			c.Label(kind)
			if ok {
				if !affine(&e.X, &e.Y, &e.Z).Equal(want) || e.ToBytes() != b {
					rt.Fatalf("%x (%s) decoded as %x", b, kind, e.ToBytes())
				}
				c.Hit(b[:])
			}
			c.Sample("%s %x: %v", kind, b, ok)
		})
}
