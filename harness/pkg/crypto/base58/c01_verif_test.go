//go:build go1.23

package base58_test

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto/base58"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// blockBytes draws bytes whose blocks are random or extreme.
func blockBytes(rt *rapid.T, n int) []byte {
	var out []byte
	for len(out) < n {
		k := min(8, n-len(out))
		switch rapid.IntRange(0, 4).Draw(rt, "block") {
		case 0:
			out = append(out, make([]byte, k)...)
		case 1:
			out = append(out, bytes.Repeat([]byte{0xff}, k)...)
		case 2: // small value: leading zero bytes
			b := make([]byte, k)
			z := rapid.IntRange(0, k-1).Draw(rt, "zeros")
			copy(b[z:], kit.Blob(rt, k-z, "tail"))
			out = append(out, b...)
		case 3: // power of 58 plus or minus one
			v := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(rapid.IntRange(0, 10).Draw(rt, "pow"))), nil)
			v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "delta"))))
			v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(8*k)))
			out = append(out, v.FillBytes(make([]byte, k))...)
		default:
			out = append(out, kit.Blob(rt, k, "rnd")...)
		}
	}
	return out
}

func TestVerifC01Encode(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 60000, Thorough: 1500000,
		Rule: "byte strings of length 0..80 built from extreme and random 8-byte blocks; non-trivial: at least one byte"},
		func(rt *rapid.T, c *kit.Case) {
			b := blockBytes(rt, rapid.IntRange(0, 80).Draw(rt, "len"))
			if rapid.IntRange(0, 49).Draw(rt, "long") == 0 {
				b = append(kit.Bytes(rt, rapid.SampledFrom([]int{700, 9000}).Draw(rt, "longest"), "prefix"), b...)
			}
			in := append([]byte{}, b...)
			got := base58.Encode(in)
			want := ref.B58Encode(b)
			if got != want {
				rt.Fatalf("Encode(%x) = %q, format says %q", b, got, want)
			}
			if !bytes.Equal(in, b) {
				rt.Fatalf("Encode changed its input %x to %x", b, in)
			}
			back, err := base58.Decode(got)
			if err != nil || !bytes.Equal(back, b) {
				rt.Fatalf("Decode(Encode(%x)) = %x, %v", b, back, err)
			}
			if len(b) > 0 {
				c.Hit(b)
				c.Sample("Encode(%x) = %s", b, got)
			}
			switch len(b) % 8 {
			case 0:
				c.Label("whole blocks")
			default:
				c.Label("short last block")
			}
		})
}

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// text draws texts near the border of the valid ones.
func text(rt *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(rt, "kind") {
	case 0: // value of a block at, just below or above its limit
		s := ref.B58Encode(blockBytes(rt, 8*rapid.IntRange(0, 2).Draw(rt, "pre")))
		n := rapid.IntRange(1, 8).Draw(rt, "size")
		v := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
		d := int64(rapid.IntRange(-3, 60).Draw(rt, "delta"))
		v.Add(v, big.NewInt(d))
		return s + ref.B58Block(v, ref.B58Digits(n))
	case 1: // any digits, any length
		n := rapid.IntRange(0, 40).Draw(rt, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[rapid.IntRange(0, 57).Draw(rt, "digit")]
		}
		return string(b)
	case 2: // a full block with the highest digits, or a number of digits no block has
		n := rapid.IntRange(1, 11).Draw(rt, "n")
		b := bytes.Repeat([]byte{'z'}, n)
		if rapid.Bool().Draw(rt, "lower") {
			b[0] = alphabet[rapid.IntRange(0, 57).Draw(rt, "first")]
		}
		return string(b)
	case 3: // multiples of 2^64 hidden by wrapping arithmetic: large high digits
		b := make([]byte, 11)
		for i := range b {
			b[i] = alphabet[rapid.IntRange(0, 57).Draw(rt, "digit")]
		}
		b[0] = alphabet[rapid.IntRange(36, 57).Draw(rt, "top")]
		return string(b)
	default: // one edit of a valid text
		s := []byte(ref.B58Encode(blockBytes(rt, rapid.IntRange(1, 40).Draw(rt, "len"))))
		i := rapid.IntRange(0, len(s)-1).Draw(rt, "pos")
		switch rapid.IntRange(0, 3).Draw(rt, "edit") {
		case 0:
			s[i] = rapid.Byte().Draw(rt, "byte")
		case 1:
			s[i] = []byte("0OIl+/ \x00\xff\x80")[rapid.IntRange(0, 9).Draw(rt, "foreign")]
		case 2:
			s = append(s[:i], s[i+1:]...)
		case 3:
			s = append(s[:i], append([]byte{alphabet[rapid.IntRange(0, 57).Draw(rt, "ins")]}, s[i:]...)...)
		}
		return string(s)
	}
}

func TestVerifC01Decode(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 80000, Thorough: 2000000,
		Rule: "texts at the limits of a block value, of impossible lengths, and one edit away from valid texts; non-trivial: not empty"},
		func(rt *rapid.T, c *kit.Case) {
			s := text(rt)
			got, err := base58.Decode(s)
			want, werr := ref.B58Decode(s)
			if (err == nil) != (werr == nil) {
				rt.Fatalf("Decode(%q) = %x, %v; format says %x, %v", s, got, err, want, werr)
			}
			if err == nil {
				if !bytes.Equal(got, want) {
					rt.Fatalf("Decode(%q) = %x, want %x", s, got, want)
				}
				if back := base58.Encode(got); back != s {
					rt.Fatalf("Decode(%q) accepted, but Encode gives %q", s, back)
				}
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
			if s != "" {
				c.Hit(s)
				c.Sample("Decode(%q) = %x, %v", s, got, err)
			}
		})
}
