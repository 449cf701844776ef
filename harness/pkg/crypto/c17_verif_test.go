//go:build go1.23

package crypto

import (
	"math/big"
	"testing"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func TestVerifC17Image(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1200, Thorough: 20000,
		Rule: "secrets random and at the edges, two outputs: image against the reference, the same again and within ring signatures of different messages and rings, different for different outputs, times the order the identity; secrets from the order on refused; non-trivial: secret not zero"},
		func(rt *rapid.T, c *kit.Case) {
			kit.SeedCrypto(rt)
			v := vNum(rt, "secret")
			sec := SecretKey(ref.ToLE(v))
			if v.Cmp(ref.L) >= 0 {
				pub := PublicKey(ref.MulBase(new(big.Int).Mod(v, ref.L)).Encode())
				if im, err := GenerateKeyImage(&pub, &sec); err == nil {
					rt.Fatalf("secret %v accepted: image %x", v, *im)
				}
				c.Label("refused")
				return
			}
			pub, err := PublicFromSecret(&sec)
			if err != nil {
				rt.Fatalf("public key: %v", err)
			}
			keep := *pub
			im, err := GenerateKeyImage(pub, &sec)
			if err != nil {
				rt.Fatalf("image of %v: %v", v, err)
			}
			hp := ref.HashToPoint(ref.Keccak256(pub[:]))
			if want := hp.Mul(v).Encode(); *im != KeyImage(want) {
				rt.Fatalf("image of %v is %x, expected %x", v, *im, want)
			}
			if *pub != keep || sec != SecretKey(ref.ToLE(v)) {
				rt.Fatalf("arguments changed")
			}
			order := KeyImage(L)
			top, err := im.ScalarMult(&order)
			if err != nil || *top != KeyImage(I) {
				rt.Fatalf("image of %v times the order is %v (%v)", v, top, err)
			}
			if L != ref.ToLE(ref.L) || I != ref.Identity().Encode() || Z != [32]byte{} || G != ref.Base().Encode() {
				rt.Fatalf("constants changed")
			}
			// an image used by the ring signer is this one, whatever the message
			for i := 0; i < 2; i++ {
				h := vHash(rt, "h")
				ring := []PublicKey{*pub}
				if i == 1 {
					p, _ := vPoint(rt, "member")
					ring = append(ring, PublicKey(p.Encode()))
				}
				if _, err := GenerateRingSignature(&h, im, &ring, &sec, 0); err != nil {
					rt.Fatalf("signer refuses the image: %v", err)
				}
			}
			o := vScalar(rt, "other")
			if o.Cmp(v) != 0 {
				os := SecretKey(ref.ToLE(o))
				op, err := PublicFromSecret(&os)
				if err != nil {
					rt.Fatalf("public key: %v", err)
				}
				oi, err := GenerateKeyImage(op, &os)
				if err != nil || *oi == *im {
					rt.Fatalf("outputs %x and %x have the same image (%v)", *pub, *op, err)
				}
			}
			if again, err := GenerateKeyImage(pub, &sec); err != nil || *again != *im {
				rt.Fatalf("image differs the second time (%v)", err)
			}
			if v.Sign() != 0 {
				c.Hit(sec[:])
				c.Sample("secret %v image %x", v, *im)
			}
		})
}

func TestVerifC17Domain(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 900, Thorough: 15000,
		Rule: "images of prime, mixed and small order and strings that are no point, factors 0, 1, 8, the order, patterns and random below 2^255: product against the reference, order times image the identity exactly in the subgroup, by both ways the code decides it; non-trivial: a point not of small order"},
		func(rt *rapid.T, c *kit.Case) {
			if rapid.IntRange(0, 9).Draw(rt, "invalid") == 0 {
				bad := KeyImage(vInvalid(rt, "bad"))
				order := KeyImage(L)
				if r, err := bad.ScalarMult(&order); err == nil {
					rt.Fatalf("product of %x accepted: %x", bad, *r)
				}
				c.Label("no point")
				return
			}
			p, kind := vPoint(rt, "p")
			im := KeyImage(p.Encode())
			var f *big.Int
			switch rapid.IntRange(0, 5).Draw(rt, "factor") {
			case 0:
				f = big.NewInt(int64(rapid.IntRange(0, 9).Draw(rt, "f")))
			case 1:
				f = new(big.Int).Set(ref.L)
			default:
				f = vNum(rt, "f")
				f.SetBit(f, 255, 0)
			}
			a := KeyImage(ref.ToLE(f))
			r, err := im.ScalarMult(&a)
			want := p.Mul(f).Encode()
			if err != nil || *r != KeyImage(want) {
				rt.Fatalf("%x (%s) times %v is %v, expected %x (%v)", im, kind, f, r, want, err)
			}
			if im != KeyImage(p.Encode()) || a != KeyImage(ref.ToLE(f)) {
				rt.Fatalf("arguments changed")
			}
			order := KeyImage(L)
			top, err := im.ScalarMult(&order)
			if err != nil {
				rt.Fatalf("%x times the order: %v", im, err)
			}
			in := kind == "prime order" || p.Equal(ref.Identity())
			if (*top == KeyImage(I)) != in {
				rt.Fatalf("%x (%s) times the order is %x", im, kind, *top)
			}
			g, err := ed.GeFromBytes((*[32]byte)(&im))
			if err != nil {
				rt.Fatalf("%x refused: %v", im, err)
			}
			if (ed.GeCheckSubGroupPreCompVartime(ed.GeDSMPreComp(g)) == 0) != in {
				rt.Fatalf("subgroup check of %x (%s) wrong", im, kind)
			}
			c.Label(kind)
			if kind != "small order" {
				c.Hit(im[:], a[:])
				c.Sample("%s image %x factor %v", kind, im, f)
			}
		})
}
