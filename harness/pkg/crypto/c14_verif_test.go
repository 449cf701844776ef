//go:build go1.23

package crypto

import (
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// vOutputScalar is the scalar of one output of a transaction.
func vOutputScalar(d [32]byte, index uint64) *big.Int {
	h := ref.Hash(d[:], ref.Varint(index))
	return ref.ScalarOf(h[:])
}

func TestVerifC14Owner(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 700, Thorough: 15000,
		Rule: "two key pairs (random and edge scalars), output indexes of all varint widths: both sides derive the same value, the one the reference computes; one-time public key, one-time secret and undone derivation against the reference and each other; other index or other derivation gives other keys; non-trivial: both secrets above 8"},
		func(rt *rapid.T, c *kit.Case) {
			r, v, s := vScalar(rt, "sender"), vScalar(rt, "view"), vScalar(rt, "spend")
			i := kit.U64(rt, "index")
			rs, vs, ss := SecretKey(ref.ToLE(r)), SecretKey(ref.ToLE(v)), SecretKey(ref.ToLE(s))
			public := func(k *SecretKey) PublicKey {
				p, err := PublicFromSecret(k)
				if err != nil {
					rt.Fatalf("secret %x: %v", *k, err)
				}
				return *p
			}
			R, V, S := public(&rs), public(&vs), public(&ss)
			d1, err1 := GenerateKeyDerivation(V, rs)
			d2, err2 := GenerateKeyDerivation(R, vs)
			if err1 != nil || err2 != nil {
				rt.Fatalf("derivation: %v %v", err1, err2)
			}
			product := new(big.Int).Mul(r, v)
			product.Mul(product, big.NewInt(8)).Mod(product, ref.L)
			want := ref.MulBase(product).Encode()
			if *d1 != KeyDerivation(want) || *d2 != *d1 {
				rt.Fatalf("sender %x derives %x, recipient %x derives %x, expected %x", rs, *d1, vs, *d2, want)
			}
			keepD, keepS := *d1, S
			p, err := d1.derivePublicKey(i, &S)
			if err != nil {
				rt.Fatalf("one-time key: %v", err)
			}
			base := PublicKey(ss)
			x, err := d1.deriveSecretKey(i, &base)
			if err != nil {
				rt.Fatalf("one-time secret: %v", err)
			}
			one := new(big.Int).Add(vOutputScalar(want, i), s)
			one.Mod(one, ref.L)
			if vBig(*x).Cmp(one) != 0 {
				rt.Fatalf("one-time secret of index %d is %x, expected %v", i, *x, one)
			}
			if wantP := ref.MulBase(one).Encode(); *p != PublicKey(wantP) {
				rt.Fatalf("one-time key of index %d is %x, expected %x", i, *p, wantP)
			}
			if public(x) != *p {
				rt.Fatalf("one-time secret does not match the one-time key")
			}
			u, err := d1.underivePublicKey(i, p)
			if err != nil || *u != S {
				rt.Fatalf("undoing gives %v (%v), expected %x", u, err, S)
			}
			if *d1 != keepD || S != keepS || base != PublicKey(ss) {
				rt.Fatalf("argument changed")
			}
			j := kit.U64(rt, "other index")
			if j != i {
				q, err := d1.derivePublicKey(j, &S)
				if err != nil || *q == *p {
					rt.Fatalf("indexes %d and %d give the same key (%v)", i, j, err)
				}
			}
			e := KeyDerivation(kit.Arr32(rt, "other derivation"))
			if e != *d1 {
				q, err := e.derivePublicKey(i, &S)
				if err != nil || *q == *p {
					rt.Fatalf("derivations %x and %x give the same key (%v)", *d1, e, err)
				}
				if w, err := e.underivePublicKey(i, p); err != nil || *w == S {
					rt.Fatalf("another derivation undoes to the same key (%v)", err)
				}
			}
			if r.Cmp(big.NewInt(8)) > 0 && v.Cmp(big.NewInt(8)) > 0 {
				c.Hit(rs[:], vs[:], i)
				c.Sample("index %d derivation %x key %x", i, *d1, *p)
			}
			c.Label(map[bool]string{true: "index below 128", false: "long index"}[i < 128])
		})
}

func TestVerifC14Foreign(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 700, Thorough: 15000,
		Rule: "foreign points of prime, mixed and small order and strings that encode no point, secrets on both sides of the order: derivation equal to eight times the product, one-time keys and their undoing against the reference, refused when the point or secret is invalid; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			v := vNum(rt, "secret")
			sec := SecretKey(ref.ToLE(v))
			i := kit.U64(rt, "index")
			d := KeyDerivation(kit.Arr32(rt, "derivation"))
			scalar := ref.MulBase(vOutputScalar(d, i))
			if rapid.IntRange(0, 2).Draw(rt, "invalid") == 0 {
				bad := PublicKey(vInvalid(rt, "bad"))
				low := SecretKey(ref.ToLE(new(big.Int).Mod(v, ref.L)))
				kit.NoPanic(rt, "derivation", func() {
					if r, err := GenerateKeyDerivation(bad, low); err == nil {
						rt.Fatalf("derivation from %x accepted: %x", bad, *r)
					}
					if r, err := d.derivePublicKey(i, &bad); err == nil {
						rt.Fatalf("one-time key of %x accepted: %x", bad, *r)
					}
					if r, err := d.underivePublicKey(i, &bad); err == nil {
						rt.Fatalf("undone key of %x accepted: %x", bad, *r)
					}
				})
				c.Label("no point")
				c.Hit(bad[:])
				return
			}
			p, kind := vPoint(rt, "p")
			pub := PublicKey(p.Encode())
			base := PublicKey(sec)
			r, err := GenerateKeyDerivation(pub, sec)
			x, errx := d.deriveSecretKey(i, &base)
			if v.Cmp(ref.L) >= 0 {
				if err == nil || errx == nil {
					rt.Fatalf("secret %v accepted", v)
				}
				c.Label("secret refused")
			} else {
				if want := vMul8(p.Mul(v)).Encode(); err != nil || *r != KeyDerivation(want) {
					rt.Fatalf("derivation of %x (%s) by %v is %v, expected %x (%v)", pub, kind, v, r, want, err)
				}
				want := new(big.Int).Add(v, vOutputScalar(d, i))
				if errx != nil || vBig(*x).Cmp(want.Mod(want, ref.L)) != 0 {
					rt.Fatalf("one-time secret of %v is %v, expected %v (%v)", v, x, want, errx)
				}
			}
			q, err := d.derivePublicKey(i, &pub)
			if want := p.Add(scalar).Encode(); err != nil || *q != PublicKey(want) {
				rt.Fatalf("one-time key of %x (%s) is %v, expected %x (%v)", pub, kind, q, want, err)
			}
			u, err := d.underivePublicKey(i, &pub)
			if want := p.Add(scalar.Neg()).Encode(); err != nil || *u != PublicKey(want) {
				rt.Fatalf("undone key of %x (%s) is %v, expected %x (%v)", pub, kind, u, want, err)
			}
			c.Label(kind)
			c.Hit(pub[:], sec[:])
			c.Sample("%s point %x secret %v", kind, pub, v)
		})
}
