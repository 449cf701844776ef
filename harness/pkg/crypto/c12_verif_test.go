//go:build go1.23

package crypto

import (
	"bytes"
	"math/big"
	"testing"

	ed "github.com/r3volut1oner/go-karbo/crypto/edwards25519"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func TestVerifC12Hash(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 5000, Thorough: 60000,
		Rule: "byte strings of 0 to 2000 bytes, some of up to 4 MiB, all lengths around the 136-byte block: three ways to hash against the reference Keccak, input unchanged; non-trivial: at least one byte"},
		func(rt *rapid.T, c *kit.Case) {
			n := rapid.IntRange(0, 300).Draw(rt, "n")
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				n = 136*rapid.IntRange(1, 12).Draw(rt, "blocks") + rapid.IntRange(-3, 3).Draw(rt, "delta")
			case 1:
				n = rapid.IntRange(0, 2000).Draw(rt, "n")
			}
			data := []byte(nil)
			if kit.Even(rt, 20, "long") == 0 {
				n = 1<<(11+kit.Even(rt, 12, "shift")) + kit.Even(rt, 300, "more") - 150
				if kit.Even(rt, 2, "edge") == 0 { // at a multiple of a power of two
					n = (1+kit.Even(rt, 8, "times"))<<(10+kit.Even(rt, 10, "shift")) + kit.Even(rt, 3, "delta") - 1
				}
				data = kit.Expand(rapid.Uint64().Draw(rt, "seed"), n)
			} else {
				data = kit.Blob(rt, n, "data")
			}
			short := func(b []byte) []byte { return b[:min(len(b), 3000)] }
			keep := append([]byte{}, data...)
			want := ref.Keccak256(data)
			if got := Keccak(data); !bytes.Equal(got, want[:]) {
				rt.Fatalf("Keccak(%x) of %d = %x, expected %x", short(data), n, got, want)
			}
			if got := HashFromBytes(data); got != Hash(want) {
				rt.Fatalf("HashFromBytes(%x) of %d = %x, expected %x", short(data), n, got, want)
			}
			h := vHash(rt, "before")
			h.FromBytes(data)
			if h != Hash(want) {
				rt.Fatalf("FromBytes(%x) of %d = %x, expected %x", short(data), n, h, want)
			}
			if !bytes.Equal(keep, data) {
				rt.Fatalf("hashing changed its input")
			}
			if n > 0 {
				c.Hit(data)
				c.Sample("%d bytes, %x", n, want)
			}
		})
}

func TestVerifC12Scalar(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 600000,
		Rule: "256-bit and 512-bit numbers, random and around multiples of the group order, powers of two and constant digit patterns: reduction against big integers, and which ones count as reduced; non-trivial: not below the order"},
		func(rt *rapid.T, c *kit.Case) {
			v := vNum(rt, "v")
			h := Hash(ref.ToLE(v))
			want := new(big.Int).Mod(v, ref.L)
			if got := h.toScalar(); vBig(got).Cmp(want) != 0 {
				rt.Fatalf("scalar of %x is %x, expected %v", h, got, want)
			}
			if h != Hash(ref.ToLE(v)) {
				rt.Fatalf("reduction changed the hash")
			}
			if got := ed.ScCheck(h); got != (v.Cmp(ref.L) < 0) {
				rt.Fatalf("ScCheck(%x) = %v", h, got)
			}
			if got := ed.ScIsNonZero(h); got != (v.Sign() != 0) {
				rt.Fatalf("ScIsNonZero(%x) = %v", h, got)
			}
			if [32]byte(L) != ref.ToLE(ref.L) || [32]byte(Z) != [32]byte{} || [32]byte(I) != [32]byte{1} || [32]byte(G) != ref.Base().Encode() {
				rt.Fatalf("the order is %x, zero %x, one %x, the base point %x", L, Z, I, G)
			}
			w := vNum(rt, "w")
			wide := new(big.Int).Add(new(big.Int).Lsh(w, 256), v)
			var b [64]byte
			lo, hi := ref.ToLE(v), ref.ToLE(w)
			copy(b[:], lo[:])
			copy(b[32:], hi[:])
			if got := ed.ScReduce(b); vBig(got).Cmp(wide.Mod(wide, ref.L)) != 0 {
				rt.Fatalf("ScReduce(%x) = %x, expected %v", b, got, wide)
			}
			if v.Cmp(ref.L) >= 0 {
				c.Hit(h[:])
				c.Sample("%v", v)
			}
		})
}

func TestVerifC12Point(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 150000,
		Rule: "hashes random and around 0, the field prime, its double, powers of two and digit patterns: point of the hash against the reference map times eight, valid and (every 50th) of prime order; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			h := vHash(rt, "h")
			if rapid.IntRange(0, 2).Draw(rt, "edge") == 0 {
				h = Hash(ref.ToLE(vNum(rt, "edge")))
			}
			keep := h
			want := ref.HashToPoint(h)
			p, err := h.toPoint()
			if err != nil {
				rt.Fatalf("toPoint(%x): %v", h, err)
			}
			if *p != EllipticCurvePoint(want.Encode()) {
				rt.Fatalf("point of %x is %x, expected %x", h, *p, want.Encode())
			}
			if !p.Check() {
				rt.Fatalf("point of %x is refused", h)
			}
			e, err := h.toEc()
			if err != nil || e.ToBytes() != *p {
				rt.Fatalf("toEc(%x) differs from toPoint: %v", h, err)
			}
			if h != keep {
				rt.Fatalf("hash changed")
			}
			if rapid.IntRange(0, 49).Draw(rt, "order") == 0 {
				if !want.Mul(ref.L).Equal(ref.Identity()) {
					rt.Fatalf("point of %x is not of prime order", h)
				}
				c.Label("prime order shown")
			}
			c.Hit(h[:])
			c.Sample("%x -> %x", h, *p)
		})
}
