//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func sameBlock(a, b *ref.Block) bool {
	if a == nil || b == nil {
		return a == b
	}
	flat := func(b *ref.Block) string {
		s := fmt.Sprintf("%d %d %d %x %d %x %x|", b.Major, b.Minor, b.Timestamp, b.Prev, b.Nonce, b.Sig, b.Txs)
		if p := b.Parent; p != nil {
			s += fmt.Sprintf("%d %d %d %x %d %d %x %x", p.Major, p.Minor, p.Timestamp, p.Prev, p.Nonce, p.TxCount, p.Branch, p.Chain)
		}
		return s
	}
	if (a.Parent == nil) != (b.Parent == nil) || a.Parent != nil && !sameTx(&a.Parent.Base, &b.Parent.Base) {
		return false
	}
	return flat(a) == flat(b) && sameTx(&a.Base, &b.Base)
}

func drawBlock(rt *rapid.T) *ref.Block {
	return cngen.Block(rt, byte(rapid.IntRange(1, 5).Draw(rt, "major")))
}

func TestVerifC08RoundTrip(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 80000,
		Rule: "a random block of versions 1 to 5 (parent with up to 65535 transactions and 127 blockchain branches, up to 20000 transaction hashes) serialised, hashed, and read back with foreign bytes behind it; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			m := drawBlock(rt)
			want := m.Bytes()
			h := m.Hash()
			x := cngen.BlockOf(m)
			kit.NoPanic(rt, "encoding", func() {
				if got := x.Serialize(); !bytes.Equal(got, want) {
					rt.Fatalf("%+v\nserialised %s\n  expected %s", m, short(got), short(want))
				}
				if got := x.HashingBytes(); !bytes.Equal(got, m.HashingBytes()) {
					rt.Fatalf("hashing blob %x, expected %x", got, m.HashingBytes())
				}
				if got := *x.Hash(); got != h {
					rt.Fatalf("hash of the built block %x, expected %x: %s", got, h, short(want))
				}
			})
			tail := kit.Bytes(rt, 20, "tail")
			y, n, err := readBlock(rt, append(append([]byte{}, want...), tail...))
			if err != nil {
				rt.Fatalf("valid block refused: %v\n%s", err, short(want))
			}
			if n != len(want) {
				rt.Fatalf("read %d bytes of a block of %d: %s", n, len(want), short(want))
			}
			back, err := cngen.RefBlock(y)
			if err != nil || !sameBlock(back, m) {
				rt.Fatalf("block\n%+v\nread as\n%+v\n%v", m, back, err)
			}
			if !bytes.Equal(y.Serialize(), want) {
				rt.Fatalf("serialised again: %s, expected %s", short(y.Serialize()), short(want))
			}
			if got := *y.Hash(); got != h {
				rt.Fatalf("hash of the read block %x, expected %x: %s", got, h, short(want))
			}
			if !bytes.Equal(y.Serialize(), want) || *y.Hash() != h {
				rt.Fatalf("changed by hashing")
			}
			if rapid.IntRange(0, 3).Draw(rt, "others") == 0 {
				o := drawBlock(rt)
				other := cngen.BlockOf(o)
				work := []func(){func() { other.Serialize() }, func() { other.HashingBytes() }, func() { other.Hash() }, func() { readBlock(rt, o.Bytes()) }}
				kit.Owned(rt, "Serialize", want, x.Serialize, work...)
				kit.Owned(rt, "HashingBytes", m.HashingBytes(), x.HashingBytes, work...)
				if *x.Hash() != h || *y.Hash() != h {
					rt.Fatalf("hash changed")
				}
			}
			c.Hit(want)
			c.Label(fmt.Sprint("version ", m.Major))
			c.Sample("version %d: %s", m.Major, short(want))
		})
}

func TestVerifC08Canonical(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 12000, Thorough: 120000,
		Rule: "a random block with one varint padded or overflowing (refused), or with a few bytes edited (accepted only if re-serialising gives the bytes read); non-trivial: padded, or edited and accepted"},
		func(rt *rapid.T, c *kit.Case) {
			m := drawBlock(rt)
			if rapid.IntRange(0, 2).Draw(rt, "pad") == 0 {
				e := ref.NewEnc()
				e.Block(m)
				p := ref.NewEnc()
				p.PadAt = rapid.IntRange(0, e.Varints()-1).Draw(rt, "padAt")
				p.Pad = rapid.IntRange(1, 4).Draw(rt, "pad")
				p.Over = rapid.IntRange(0, 3).Draw(rt, "over") == 0
				p.Block(m)
				c.Label("padded")
				c.Hit(p.B)
				c.Sample("varint %d padded: %s", p.PadAt, short(p.B))
				if _, n, err := readBlock(rt, p.B); err == nil {
					rt.Fatalf("padded varint %d accepted (%d of %d bytes read): %s", p.PadAt, n, len(p.B), short(p.B))
				}
				return
			}
			b := edit(rt, m.Bytes(), 3)
			x, n, err := readBlock(rt, b)
			if err != nil {
				c.Label("refused")
				return
			}
			c.Label("accepted")
			if !bytes.Equal(b, m.Bytes()) {
				c.Hit(b)
				c.Sample("edited and accepted: %s", short(b))
			}
			kit.NoPanic(rt, "serialising what was accepted", func() {
				if got := x.Serialize(); !bytes.Equal(got, b[:n]) {
					rt.Fatalf("accepted %s\nre-serialised %s", short(b[:n]), short(got))
				}
				back, err := cngen.RefBlock(x)
				if err == nil && [32]byte(*x.Hash()) != back.Hash() {
					rt.Fatalf("hash of %s is %x, expected %x", short(b[:n]), *x.Hash(), back.Hash())
				}
			})
		})
}
