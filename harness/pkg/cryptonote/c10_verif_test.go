//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

type extraModel struct {
	raw    []byte
	starts []int // offsets at which a field starts
	pub    [32]byte
	nonce  []byte
	depth  uint64
	root   [32]byte
	tag    bool
	fields int
}

func drawExtra(rt *rapid.T) *extraModel {
	m := &extraModel{}
	n := rapid.IntRange(0, 6).Draw(rt, "fields")
	for i := 0; i < n; i++ {
		m.starts = append(m.starts, len(m.raw))
		switch rapid.IntRange(0, 2).Draw(rt, "field") {
		case 0:
			m.pub = kit.Arr32(rt, "key")
			m.raw = append(append(m.raw, 1), m.pub[:]...)
		case 1:
			l := rapid.IntRange(1, 40).Draw(rt, "nonceLen")
			if rapid.IntRange(0, 4).Draw(rt, "nonceKind") == 0 {
				l = rapid.SampledFrom([]int{126, 127, 128, 129, 254, 255}).Draw(rt, "nonceLen")
			}
			if rapid.IntRange(0, 9).Draw(rt, "empty") == 0 && m.nonce == nil {
				l = 0 // an empty nonce counts as none, so it only comes while there is none
			}
			b := kit.Blob(rt, l, "nonce")
			m.raw = append(m.raw, 2)
			m.raw = append(m.raw, ref.Varint(uint64(l))...)
			m.raw = append(m.raw, b...)
			if l > 0 {
				m.nonce = b
			}
		case 2:
			m.depth = uint64(rapid.IntRange(0, 127).Draw(rt, "depth"))
			m.root = kit.Arr32(rt, "root")
			m.tag = true
			m.raw = append(m.raw, ref.MMTag(m.depth, m.root)...)
		}
		m.fields++
	}
	return m
}

func parseExtra(rt *rapid.T, b []byte) (f *cryptonote.TransactionExtraFields, err error) {
	_, err = guarded(rt, "TxExtraFromBytes", b, func(*bytes.Reader) (e error) { f, e = cryptonote.TxExtraFromBytes(b); return })
	return
}

func TestVerifC10Fields(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 300000,
		Rule: "up to 6 well-formed fields in any order with repetitions, optionally ended by up to 254 zero bytes, parsed directly and through a transaction; non-trivial: at least two fields"},
		func(rt *rapid.T, c *kit.Case) {
			m := drawExtra(rt)
			if rapid.Bool().Draw(rt, "padding") {
				m.raw = append(m.raw, make([]byte, rapid.IntRange(1, 254).Draw(rt, "paddingLen"))...)
				c.Label("padded")
			}
			b := append([]byte{}, m.raw...)
			for pass := 0; pass < 2; pass++ {
				f, err := parseExtra(rt, b)
				if pass == 1 {
					tp := cryptonote.TransactionPrefix{Extra: b}
					f, err = tp.ParseExtra()
				}
				if err != nil {
					rt.Fatalf("well-formed extra refused: %v\n%s", err, short(m.raw))
				}
				if f.PublicKey != m.pub || !bytes.Equal(f.Nonce, m.nonce) || (f.MiningTag != nil) != m.tag {
					rt.Fatalf("extra %s\n parsed as %+v\nexpected %+v", short(m.raw), f, m)
				}
				if m.tag && (f.MiningTag.Depth != m.depth || f.MiningTag.MerkleRoot != m.root) {
					rt.Fatalf("extra %s\n merge-mining tag %+v\nexpected %d %x", short(m.raw), f.MiningTag, m.depth, m.root)
				}
			}
			if !bytes.Equal(b, m.raw) {
				rt.Fatalf("parsing changed the bytes")
			}
			if m.fields > 1 {
				c.Hit(m.raw)
				c.Sample("%d fields: %s", m.fields, short(m.raw))
			}
		})
}

func TestVerifC10Refuse(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 300000,
		Rule: "well-formed fields followed by exactly one defect: unknown tag, field cut short, nonce over 255 bytes, merge-mining size other than 33 or not covering its content, non-zero padding, padding of 256 bytes or more; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			m := drawExtra(rt)
			b := m.raw
			kind := rapid.SampledFrom([]string{"tag", "cut", "cut", "nonce", "mm size", "mm depth", "padding", "long padding"}).Draw(rt, "defect")
			rest := func(n int) []byte { return kit.Blob(rt, n, "rest") }
			switch kind {
			case "tag":
				b = append(b, byte(rapid.IntRange(4, 255).Draw(rt, "tag")))
				b = append(b, kit.Bytes(rt, 40, "rest")...)
			case "cut":
				x := drawExtra(rt)
				for len(x.raw) == 0 {
					x.raw = append([]byte{1}, make([]byte, 32)...)
					x.starts = []int{0}
				}
				b = append(b, x.raw...)
				for _, s := range x.starts {
					m.starts = append(m.starts, len(m.raw)+s)
				}
				at := len(m.raw) + rapid.IntRange(1, len(x.raw)-1).Draw(rt, "at")
				for _, s := range m.starts {
					if s == at {
						at-- // between two fields: back into the first
						break
					}
				}
				for _, s := range m.starts {
					if s == at {
						at += 2
						break
					}
				}
				b = b[:at]
				for _, s := range m.starts {
					if s == at {
						c.Label("no place")
						return
					}
				}
			case "nonce":
				n := uint64(256)
				if rapid.Bool().Draw(rt, "huge") {
					n = kit.U64(rt, "size") | 256
				} else {
					n = uint64(rapid.IntRange(256, 400).Draw(rt, "size"))
				}
				b = append(b, 2)
				b = append(b, ref.Varint(n)...)
				b = append(b, rest(rapid.SampledFrom([]int{0, 40, 300, 450}).Draw(rt, "restLen"))...)
			case "mm size":
				n := rapid.SampledFrom([]uint64{0, 1, 31, 32, 34, 35, 64, 33 + 128, 33 + 256, 1 << 32, 33 + 1<<32, 1 << 63}).Draw(rt, "size")
				b = append(b, 3)
				b = append(b, ref.Varint(n)...)
				b = append(b, ref.Varint(uint64(rapid.IntRange(0, 127).Draw(rt, "depth")))...)
				b = append(b, rest(32)...)
				if n > 33 && n < 200 {
					b = append(b, rest(int(n-33))...)
				}
			case "mm depth": // a longer depth does not fit into 33 bytes
				b = append(b, 3, 33)
				b = append(b, ref.Varint(128+kit.U64(rt, "depth")>>1)...)
				b = append(b, rest(32)...)
			case "padding":
				b = append(b, make([]byte, rapid.IntRange(1, 254).Draw(rt, "zeros"))...)
				b = append(b, byte(rapid.IntRange(1, 255).Draw(rt, "byte")))
				b = append(b, make([]byte, rapid.IntRange(0, 30).Draw(rt, "more"))...)
			case "long padding":
				b = append(b, make([]byte, rapid.IntRange(257, 700).Draw(rt, "zeros"))...)
			}
			c.Label(kind)
			c.Hit(b)
			c.Sample("%s: %s", kind, short(b))
			if f, err := parseExtra(rt, b); err == nil {
				rt.Fatalf("%s: accepted %s as %+v", kind, short(b), f)
			}
		})
}

func TestVerifC10Survive(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 40000, Thorough: 400000,
		Rule: "random bytes over the tag alphabet and edited well-formed extras: no panic, no outsized allocation; non-trivial: at least two bytes"},
		func(rt *rapid.T, c *kit.Case) {
			var b []byte
			if rapid.Bool().Draw(rt, "raw") {
				b = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 33, 0x7f, 0x80, 0xff}), 0, 80).Draw(rt, "bytes")
			} else {
				b = drawExtra(rt).raw
				if len(b) > 0 {
					b = edit(rt, b, 4)
				}
			}
			if len(b) > 1 {
				c.Hit(b)
			}
			c.Sample("%s", short(b))
			if _, err := parseExtra(rt, b); err == nil {
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
		})
}

// TestVerifC10Many is about extras of many fields.
func TestVerifC10Many(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 500, Thorough: 6000,
		Rule: "extras of 7 to 6000 well-formed fields of all kinds or of one kind, up to 200 kB, with or without a padding, then with an unknown tag or a cut at the end; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			n := 7 + kit.Even(rt, 200, "fields")
			if kit.Even(rt, 4, "many") == 0 {
				n = 7 + kit.Even(rt, 6000, "fields")
			}
			only := -1
			if kit.Even(rt, 3, "one") == 0 {
				only = kit.Even(rt, 3, "kind")
			}
			early := kit.Even(rt, n, "early") // the only tag, or the only key, may come early
			seed := rapid.Uint64().Draw(rt, "seed")
			b := kit.Expand(seed, 64*n)
			m := &extraModel{}
			tags := kit.Even(rt, 3, "tags")
			for i := 0; i < n; i++ {
				x := b[64*i : 64*i+64]
				kind := int(x[0]) % 3
				if only >= 0 && i != early {
					kind = only
				} else if i > early && kind == tags {
					kind = (kind + 1) % 3 // the last of this kind is not after the early one
				}
				switch kind {
				case 0:
					copy(m.pub[:], x[1:33])
					m.raw = append(append(m.raw, 1), m.pub[:]...)
				case 1:
					m.nonce = x[1 : 2+int(x[63])%60]
					m.raw = append(append(m.raw, 2, byte(len(m.nonce))), m.nonce...)
				case 2:
					m.depth, m.tag = uint64(x[33]&127), true
					copy(m.root[:], x[1:33])
					m.raw = append(m.raw, ref.MMTag(m.depth, m.root)...)
				}
			}
			if rapid.Bool().Draw(rt, "padding") {
				m.raw = append(m.raw, make([]byte, 1+kit.Even(rt, 254, "paddingLen"))...)
			} else {
				bad := append(append([]byte{}, m.raw...), byte(4+kit.Even(rt, 252, "tag")))
				if f, err := parseExtra(rt, bad); err == nil {
					rt.Fatalf("unknown tag %d after %d fields accepted: %+v", bad[len(bad)-1], n, f)
				}
				bad = append(append([]byte{}, m.raw...), 1)
				bad = append(bad, b[:kit.Even(rt, 32, "cut")]...)
				if f, err := parseExtra(rt, bad); err == nil {
					rt.Fatalf("cut field after %d fields accepted: %+v", n, f)
				}
			}
			f, err := parseExtra(rt, append([]byte{}, m.raw...))
			if err != nil {
				rt.Fatalf("well-formed extra of %d fields refused: %v\n%s", n, err, short(m.raw))
			}
			if f.PublicKey != m.pub || !bytes.Equal(f.Nonce, m.nonce) || (f.MiningTag != nil) != m.tag ||
				m.tag && (f.MiningTag.Depth != m.depth || f.MiningTag.MerkleRoot != m.root) {
				rt.Fatalf("extra of %d fields %s\n parsed as key %x, nonce %x, tag %+v\nexpected key %x, nonce %x, tag %v %d %x", n, short(m.raw), f.PublicKey, f.Nonce, f.MiningTag, m.pub, m.nonce, m.tag, m.depth, m.root)
			}
			c.Hit(n, seed)
			c.Sample("%d fields, %d bytes", n, len(m.raw))
		})
}
