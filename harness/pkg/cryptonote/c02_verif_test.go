//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func addressPayload(tag uint64, spend, view [32]byte) []byte {
	return append(append(ref.Varint(tag), spend[:]...), view[:]...)
}

func addressText(payload []byte) string {
	sum := ref.Keccak256(payload)
	return ref.B58Encode(append(append([]byte{}, payload...), sum[:4]...))
}

func drawTag(rt *rapid.T) uint64 {
	if rapid.IntRange(0, 3).Draw(rt, "tagKind") == 0 {
		return rapid.SampledFrom([]uint64{111, 0x369488, 0xa74ad1d14, 0xa7f2119, 0, 127, 128}).Draw(rt, "tag")
	}
	return kit.U64(rt, "tag")
}

func TestVerifC02RoundTrip(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 25000, Thorough: 500000,
		Rule: "tags of every varint width, key pairs random and extreme; every case is non-trivial"},
		func(rt *rapid.T, c *kit.Case) {
			tag := drawTag(rt)
			spend, view := kit.Arr32(rt, "spend"), kit.Arr32(rt, "view")
			want := addressText(addressPayload(tag, spend, view))
			a := cryptonote.NewAddress(tag, crypto.PublicKey(spend), crypto.PublicKey(view))
			got := a.Base58()
			if got != want {
				rt.Fatalf("address of tag %d spend %x view %x is %q, want %q", tag, spend, view, got, want)
			}
			if again := a.Base58(); again != want {
				rt.Fatalf("second Base58 gives %q, first %q", again, want)
			}
			var b cryptonote.Address
			if err := b.FromString(want); err != nil {
				rt.Fatalf("FromString(%q): %v", want, err)
			}
			if b.Tag != tag || b.SpendPublicKey != crypto.PublicKey(spend) || b.ViewPublicKey != crypto.PublicKey(view) {
				rt.Fatalf("FromString(%q) = tag %d %x %x, want %d %x %x", want, b.Tag, b.SpendPublicKey, b.ViewPublicKey, tag, spend, view)
			}
			if s := b.Base58(); s != want {
				rt.Fatalf("text changed from %q to %q", want, s)
			}
			c.Hit(want)
			c.Sample("tag %d -> %s", tag, want)
			c.Label("tag width " + string('0'+rune(len(ref.Varint(tag))%10)))
		})
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// parseAddress says what a text means, if anything.
func parseAddress(s string) (tag uint64, spend, view [32]byte, ok bool) {
	raw, err := ref.B58Decode(s)
	if err != nil || len(raw) < 4+64+1 {
		return
	}
	body := raw[:len(raw)-4]
	sum := ref.Keccak256(body)
	if !bytes.Equal(sum[:4], raw[len(raw)-4:]) {
		return
	}
	copy(spend[:], body[len(body)-64:])
	copy(view[:], body[len(body)-32:])
	tb := body[:len(body)-64]
	// the tag must be the shortest encoding of a 64-bit number
	if len(tb) > 10 {
		return
	}
	for i, x := range tb {
		if (x&0x80 != 0) == (i == len(tb)-1) {
			return
		}
		if i == 9 && x > 1 {
			return
		}
		tag |= uint64(x&0x7f) << (7 * i)
	}
	ok = bytes.Equal(tb, ref.Varint(tag))
	return
}

func TestVerifC02Corrupt(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 50000, Thorough: 1000000,
		Rule: "valid addresses changed in text (one edit, truncation, extension, case) or in payload with the checksum recomputed (padded or overlong tag, missing or extra bytes, changed byte) or in checksum, read into a new or a used value, which prints the text of what it holds afterwards; non-trivial: the text differs from the valid one"},
		func(rt *rapid.T, c *kit.Case) {
			tag := drawTag(rt)
			spend, view := kit.Arr32(rt, "spend"), kit.Arr32(rt, "view")
			payload := addressPayload(tag, spend, view)
			valid := addressText(payload)
			s := valid
			kind := rapid.IntRange(0, 9).Draw(rt, "kind")
			switch kind {
			case 0: // edit a character
				b := []byte(s)
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] = b58[rapid.IntRange(0, 57).Draw(rt, "digit")]
				s = string(b)
			case 1: // truncate
				s = s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
			case 2: // extend
				n := rapid.IntRange(1, 22).Draw(rt, "n")
				for i := 0; i < n; i++ {
					s += string(b58[rapid.IntRange(0, 57).Draw(rt, "digit")])
				}
			case 3: // swap two neighbours
				b := []byte(s)
				i := rapid.IntRange(0, len(b)-2).Draw(rt, "pos")
				b[i], b[i+1] = b[i+1], b[i]
				s = string(b)
			case 4: // tag with zero continuation bytes, checksum right
				tb := ref.Varint(tag)
				tb[len(tb)-1] |= 0x80
				for i := rapid.IntRange(0, 2).Draw(rt, "pad"); i > 0; i-- {
					tb = append(tb, 0x80)
				}
				tb = append(tb, 0)
				s = addressText(append(tb, payload[len(ref.Varint(tag)):]...))
			case 5: // tag beyond 64 bits, checksum right
				tb := bytes.Repeat([]byte{0xff}, rapid.IntRange(9, 12).Draw(rt, "n"))
				tb = append(tb, rapid.Byte().Draw(rt, "last")&0x7f)
				s = addressText(append(tb, payload[len(ref.Varint(tag)):]...))
			case 6: // payload of another length, checksum right
				n := rapid.IntRange(0, len(payload)+10).Draw(rt, "n")
				p := append([]byte{}, payload...)
				for len(p) < n {
					p = append(p, rapid.Byte().Draw(rt, "extra"))
				}
				s = addressText(p[:n])
			case 7: // any payload, checksum right
				s = addressText(kit.Bytes(rt, 90, "payload"))
			case 8: // checksum wrong in one bit
				sum := ref.Keccak256(payload)
				bit := rapid.IntRange(0, 31).Draw(rt, "bit")
				sum[bit/8] ^= 1 << (bit % 8)
				s = ref.B58Encode(append(append([]byte{}, payload...), sum[:4]...))
			case 9: // payload bit flipped, checksum of the valid one
				sum := ref.Keccak256(payload)
				p := append([]byte{}, payload...)
				bit := rapid.IntRange(0, 8*len(p)-1).Draw(rt, "bit")
				p[bit/8] ^= 1 << (bit % 8)
				s = ref.B58Encode(append(p, sum[:4]...))
			}
			wtag, wspend, wview, ok := parseAddress(s)
			var a cryptonote.Address
			switch rapid.IntRange(0, 2).Draw(rt, "reuse") { // the value may hold an address already, its text known or not
			case 1:
				if err := a.FromString(addressText(addressPayload(tag+1, view, spend))); err != nil {
					rt.Fatalf("FromString of a valid address: %v", err)
				}
			case 2:
				a = cryptonote.NewAddress(tag+1, crypto.PublicKey(view), crypto.PublicKey(spend))
				if rapid.Bool().Draw(rt, "printed") {
					a.Base58()
				}
			}
			err := a.FromString(s)
			if p := a; p.Base58() != addressText(addressPayload(p.Tag, p.SpendPublicKey, p.ViewPublicKey)) {
				rt.Fatalf("after FromString(%q) = %v the address of tag %d keys %x %x prints %q", s, err, p.Tag, p.SpendPublicKey, p.ViewPublicKey, p.Base58())
			}
			if (err == nil) != ok {
				rt.Fatalf("FromString(%q) error %v, should be accepted: %v", s, err, ok)
			}
			if ok {
				if a.Tag != wtag || a.SpendPublicKey != crypto.PublicKey(wspend) || a.ViewPublicKey != crypto.PublicKey(wview) {
					rt.Fatalf("FromString(%q) = %d %x %x, want %d %x %x", s, a.Tag, a.SpendPublicKey, a.ViewPublicKey, wtag, wspend, wview)
				}
				fresh := cryptonote.NewAddress(a.Tag, a.SpendPublicKey, a.ViewPublicKey)
				if fresh.Base58() != s {
					rt.Fatalf("accepted %q, whose address has text %q", s, fresh.Base58())
				}
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
			if s != valid {
				c.Hit(s)
				c.Sample("kind %d: %q -> %v", kind, s, err)
			}
		})
}
