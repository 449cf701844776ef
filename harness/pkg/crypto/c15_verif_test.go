//go:build go1.23

package crypto

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// vSigned tells whether (c, r) signs the hash under the key.
func vSigned(h [32]byte, key [32]byte, s *Signature) bool {
	p, ok := ref.Decode(key)
	c, r := vBig(s.C), vBig(s.R)
	if !ok || c.Cmp(ref.L) >= 0 || r.Cmp(ref.L) >= 0 || c.Sign() == 0 {
		return false
	}
	k := p.Mul(c).Add(ref.MulBase(r))
	if k.Equal(ref.Identity()) {
		return false
	}
	e := k.Encode()
	x := ref.Hash(h[:], key[:], e[:])
	return ref.ScalarOf(x[:]).Cmp(c) == 0
}

func vPass(rt *rapid.T, s *Signature, h Hash, key PublicKey) (ok bool) {
	keep, kh, kk := *s, h, key
	kit.NoPanic(rt, "Signature.Check", func() { ok = s.Check(&h, &key) })
	if *s != keep || h != kh || key != kk {
		rt.Fatalf("verification changed its arguments")
	}
	return
}

func TestVerifC15Sign(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 800, Thorough: 15000,
		Rule: "secrets random and at the edges, hashes random and patterned: the signature verifies, satisfies the equation of the reference, survives serialisation, and fails after one change: another message, another key, a bit of c or r, c or r raised by the order, scalars swapped, negated or zeroed; non-trivial: secret above 1"},
		func(rt *rapid.T, c *kit.Case) {
			kit.SeedCrypto(rt)
			s := vScalar(rt, "secret")
			sec := SecretKey(ref.ToLE(s))
			h := vHash(rt, "h")
			pub, err := PublicFromSecret(&sec)
			if err != nil {
				rt.Fatalf("public key: %v", err)
			}
			sig, err := h.Sign(&sec)
			if err != nil {
				rt.Fatalf("signing with %v: %v", s, err)
			}
			if !vPass(rt, sig, h, *pub) {
				rt.Fatalf("own signature of %x by %v refused", h, s)
			}
			if !vSigned(h, *pub, sig) {
				rt.Fatalf("signature %x of %x by %v does not satisfy the equation", *sig, h, s)
			}
			b, err := sig.Serialize()
			if err != nil || !bytes.Equal(b, append(append([]byte{}, sig.C[:]...), sig.R[:]...)) {
				rt.Fatalf("signature %x serialised as %x (%v)", *sig, b, err)
			}
			var back Signature
			r := bytes.NewReader(append(b, 1, 2, 3))
			if err := back.Deserialize(r); err != nil || back != *sig || r.Len() != 3 {
				rt.Fatalf("signature %x read back as %x (%v, %d bytes left)", *sig, back, err, r.Len())
			}
			if err := back.Deserialize(bytes.NewReader(b[:rapid.IntRange(0, 63).Draw(rt, "cut")])); err == nil {
				rt.Fatalf("cut signature accepted")
			}
			m, mh, mk := *sig, h, *pub
			cv, rv := vBig(sig.C), vBig(sig.R)
			kind := rapid.SampledFrom([]string{"message bit", "other key", "key bit", "c bit", "r bit", "c over", "r over", "swap", "negate r", "negate c", "zero r", "zero c", "zero both", "order", "c plus 1", "negated key", "torsion key"}).Draw(rt, "kind")
			bit := func(b *[32]byte) {
				i := rapid.IntRange(0, 255).Draw(rt, "bit")
				b[i/8] ^= 1 << (i % 8)
			}
			switch kind {
			case "message bit":
				bit((*[32]byte)(&mh))
			case "key bit":
				bit((*[32]byte)(&mk))
			case "other key":
				o := SecretKey(ref.ToLE(vScalar(rt, "other")))
				p, _ := PublicFromSecret(&o)
				mk = *p
			case "c bit":
				bit((*[32]byte)(&m.C))
			case "r bit":
				bit((*[32]byte)(&m.R))
			case "c over", "r over":
				v := &m.C
				n := new(big.Int).Set(cv)
				if kind == "r over" {
					v, n = &m.R, rv
				}
				n = new(big.Int).Add(n, new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "times")))))
				*v = ref.ToLE(n)
			case "swap":
				m.C, m.R = m.R, m.C
			case "negate r":
				m.R = ref.ToLE(new(big.Int).Mod(new(big.Int).Neg(rv), ref.L))
			case "negate c":
				m.C = ref.ToLE(new(big.Int).Mod(new(big.Int).Neg(cv), ref.L))
			case "zero r":
				m.R = Z
			case "zero c":
				m.C = Z
			case "zero both":
				m = Signature{}
			case "order":
				m.C = L
			case "c plus 1":
				m.C = ref.ToLE(new(big.Int).Mod(new(big.Int).Add(cv, big.NewInt(1)), ref.L))
			case "negated key":
				p, _ := ref.Decode(mk)
				mk = PublicKey(p.Neg().Encode())
			case "torsion key":
				p, _ := ref.Decode(mk)
				mk = PublicKey(p.Add(vLow[rapid.IntRange(1, 7).Draw(rt, "low")]).Encode())
			}
			if (m != *sig || mh != h || mk != *pub) && vPass(rt, &m, mh, mk) {
				rt.Fatalf("%s: signature %x of %x under %x accepted", kind, m, mh, mk)
			}
			c.Label(kind)
			if s.BitLen() > 1 {
				c.Hit(sec[:], h[:])
				c.Sample("%s hash %x key %x signature %x", kind, h, *pub, *sig)
			}
			bad := SecretKey(ref.ToLE(new(big.Int).Add(ref.L, s)))
			if _, err := h.Sign(&bad); err == nil {
				rt.Fatalf("signing with %x accepted", bad)
			}
		})
}

func TestVerifC15Forge(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 800, Thorough: 15000,
		Rule: "signatures built by the reference with a chosen nonce, including nonce 0 (refused), over edge secrets and keys of mixed and small order, and arbitrary scalars and key strings: verdict equal to the reference equation; non-trivial: the key is a point"},
		func(rt *rapid.T, c *kit.Case) {
			h := vHash(rt, "h")
			var sig Signature
			var key [32]byte
			kind := rapid.SampledFrom([]string{"built", "nonce 0", "mixed key", "small key", "any"}).Draw(rt, "kind")
			solve := func(p ref.Point, s, k *big.Int) {
				key = p.Encode()
				e := ref.MulBase(k).Encode()
				x := ref.Hash(h[:], key[:], e[:])
				cv := ref.ScalarOf(x[:])
				sig.C = ref.ToLE(cv)
				rv := new(big.Int).Sub(k, cv.Mul(cv, s))
				sig.R = ref.ToLE(rv.Mod(rv, ref.L))
			}
			s := vScalar(rt, "secret")
			switch kind {
			case "built":
				solve(ref.MulBase(s), s, vScalar(rt, "nonce"))
			case "nonce 0":
				solve(ref.MulBase(s), s, new(big.Int))
			case "mixed key":
				solve(ref.MulBase(s).Add(vLow[rapid.IntRange(1, 7).Draw(rt, "low")]), s, vScalar(rt, "nonce"))
			case "small key":
				solve(vLow[rapid.IntRange(0, 7).Draw(rt, "low")], new(big.Int), vScalar(rt, "nonce"))
			case "any":
				key, _ = vEncoding(rt, "key")
				sig.C, sig.R = ref.ToLE(vNum(rt, "c")), ref.ToLE(vNum(rt, "r"))
			}
			want := vSigned(h, key, &sig)
			if got := vPass(rt, &sig, h, PublicKey(key)); got != want {
				rt.Fatalf("%s: signature %x of %x under %x: verdict %v, expected %v", kind, sig, h, key, got, want)
			}
			if kind == "nonce 0" && want {
				rt.Fatalf("VERIF-INFRA nonce 0 accepted by the reference")
			}
			if _, ok := ref.Decode(key); ok {
				c.Hit(key[:], sig.C[:], sig.R[:])
				c.Sample("%s key %x verdict %v", kind, key, want)
			}
			if want {
				kind += " accepted"
			}
			c.Label(kind)
		})
}
