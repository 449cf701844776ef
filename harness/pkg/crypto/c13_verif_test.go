//go:build go1.23

package crypto

import (
	"math/big"
	"testing"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func TestVerifC13Public(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 4000, Thorough: 80000,
		Rule: "256-bit secrets, random and around multiples of the order, powers of two and digit patterns: public key against the reference multiple of the base point, refused from the order on; view secret against the reference; generated keys below the order; non-trivial: secret below the order and not zero"},
		func(rt *rapid.T, c *kit.Case) {
			kit.SeedCrypto(rt)
			v := vNum(rt, "v")
			s := SecretKey(ref.ToLE(v))
			pub, err := PublicFromSecret(&s)
			if s != SecretKey(ref.ToLE(v)) {
				rt.Fatalf("secret changed")
			}
			if v.Cmp(ref.L) >= 0 {
				if err == nil {
					rt.Fatalf("secret %v accepted, key %x", v, *pub)
				}
				c.Label("refused")
			} else {
				if err != nil {
					rt.Fatalf("secret %v refused: %v", v, err)
				}
				want := ref.MulBase(v).Encode()
				if *pub != PublicKey(want) {
					rt.Fatalf("public key of %v is %x, expected %x", v, *pub, want)
				}
				if !pub.Check() {
					rt.Fatalf("public key of %v refused", v)
				}
				if v.Sign() != 0 {
					c.Hit(s[:])
					c.Sample("secret %x public %x", s, *pub)
				}
			}
			k := ref.Keccak256(s[:])
			if got := ViewFromSpend(&s); vBig(got).Cmp(ref.ScalarOf(k[:])) != 0 {
				rt.Fatalf("view secret of %x is %x", s, got)
			}
			k1, err1 := GenerateKey()
			k2, err2 := GenerateKey()
			if err1 != nil || err2 != nil || k1 == k2 || vBig(k1).Cmp(ref.L) >= 0 || vBig(k2).Cmp(ref.L) >= 0 {
				rt.Fatalf("generated keys %x %x", k1, k2)
			}
		})
}

func TestVerifC13Check(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 600000,
		Rule: "32-byte strings: encodings of points of every kind, the same with one bit changed, y small, large or not reduced with either sign, digit patterns, random: accepted exactly when the reference decodes them, and then the decoded point encodes to the same bytes; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			b, kind := vEncoding(rt, "b")
			p, want := ref.Decode(b)
			k := PublicKey(b)
			if got := k.Check(); got != want {
				rt.Fatalf("PublicKey %x (%s): Check() = %v", b, kind, got)
			}
			e := EllipticCurvePoint(b)
			if got := e.Check(); got != want {
				rt.Fatalf("point %x (%s): Check() = %v", b, kind, got)
			}
			if k != PublicKey(b) || e != EllipticCurvePoint(b) {
				rt.Fatalf("check changed the key")
			}
			g, err := ed.GeFromBytes(&b)
			if (err == nil) != want {
				rt.Fatalf("point %x (%s) read with %v", b, kind, err)
			}
			if want {
				if g.ToBytes() != b || p.Encode() != b {
					rt.Fatalf("point %x (%s) writes as %x", b, kind, g.ToBytes())
				}
				c.Label("valid " + kind)
			} else {
				c.Label("invalid " + kind)
			}
			c.Hit(b[:])
			c.Sample("%s %x valid=%v", kind, b, want)
		})
}

// group operations the keys are built from
func TestVerifC13Arithmetic(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1500, Thorough: 30000,
		Rule: "scalars of all kinds and points of prime, mixed and small order: sums, differences, products and double products against the reference curve, scalar sums and products against big integers; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			a, b, s := vScalar(rt, "a"), vScalar(rt, "b"), vScalar(rt, "s")
			ab, bb, sb := ref.ToLE(a), ref.ToLE(b), ref.ToLE(s)
			check := func(what string, got [32]byte, want *big.Int) {
				want.Mod(want, ref.L)
				if vBig(got).Cmp(want) != 0 {
					rt.Fatalf("%s of %v, %v, %v is %x, expected %v", what, a, b, s, got, want)
				}
			}
			check("sum", ed.ScAdd(&ab, &bb), new(big.Int).Add(a, b))
			check("difference", ed.ScSub(ab, bb), new(big.Int).Sub(a, b))
			prod := new(big.Int).Mul(a, b)
			check("c-ab", ed.ScMulSub(ab, bb, sb), new(big.Int).Sub(s, prod))
			var r [32]byte
			ed.ScMulAdd(&r, &ab, &bb, &sb)
			check("ab+c", r, new(big.Int).Add(prod, s))
			if ab != ref.ToLE(a) || bb != ref.ToLE(b) || sb != ref.ToLE(s) {
				rt.Fatalf("scalar changed")
			}
			p, kind := vPoint(rt, "p")
			q, _ := vPoint(rt, "q")
			pb, qb := p.Encode(), q.Encode()
			pe, err1 := ed.GeFromBytes(&pb)
			qe, err2 := ed.GeFromBytes(&qb)
			if err1 != nil || err2 != nil {
				rt.Fatalf("points refused: %v %v", err1, err2)
			}
			var qc ed.CachedGroupElement
			qe.ToCached(&qc)
			var co ed.CompletedGroupElement
			var pr ed.ProjectiveGroupElement
			point := func(what string, want ref.Point) {
				if pr.ToBytes() != want.Encode() {
					rt.Fatalf("%s of %x, %x (%s) by %v, %v is %x, expected %x", what, pb, qb, kind, a, b, pr.ToBytes(), want.Encode())
				}
			}
			ed.GeAdd(&co, pe, &qc)
			co.ToProjective(&pr)
			point("sum", p.Add(q))
			ed.GeSub(&co, pe, &qc)
			co.ToProjective(&pr)
			point("difference", p.Add(q.Neg()))
			ap := p.Mul(a)
			ed.GeDoubleScalarMultBaseVartime(&pr, &ab, pe, &bb)
			point("double product", ap.Add(ref.MulBase(b)))
			pr = ed.GeScalarMult(&ab, pe)
			point("product", ap)
			ed.GeMul8(&co, &pr)
			co.ToProjective(&pr)
			point("eightfold", vMul8(ap))
			c.Label(kind)
			c.Hit(ab[:], pb[:])
			c.Sample("%s point %x scalars %v %v", kind, pb, a, b)
		})
}
