//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// guarded decoding: no panic, an end, memory in proportion to the input.
func guarded(rt *rapid.T, what string, b []byte, f func(r *bytes.Reader) error) (used int, err error) {
	kit.InFlight(what, b)
	r := bytes.NewReader(b)
	var p any
	var alloc uint64
	kit.Within(kit.Patience, what, func() {
		alloc = kit.Allocated(func() { p = kit.Try(func() { err = f(r) }) })
	})
	if p != nil {
		rt.Fatalf("%s of %s panicked: %v", what, short(b), p)
	}
	if alloc > uint64(4<<20)+uint64(len(b))*2000 {
		rt.Fatalf("%s allocated %d bytes for %d bytes of input: %s", what, alloc, len(b), short(b))
	}
	return len(b) - r.Len(), err
}

func readTx(rt *rapid.T, b []byte) (*cryptonote.Transaction, int, error) {
	x := &cryptonote.Transaction{}
	n, err := guarded(rt, "Transaction.Deserialize", b, x.Deserialize)
	return x, n, err
}

func readBlock(rt *rapid.T, b []byte) (*cryptonote.Block, int, error) {
	x := &cryptonote.Block{}
	n, err := guarded(rt, "Block.Deserialize", b, x.Deserialize)
	return x, n, err
}

func txLabel(t *ref.Tx) string {
	switch {
	case len(t.In) == 0:
		return "no inputs"
	case len(t.In) == 1 && t.In[0].Gen:
		return "coinbase"
	}
	for _, i := range t.In {
		if i.Gen {
			return "mixed"
		}
	}
	return "key inputs"
}

func TestVerifC07RoundTrip(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 120000,
		Rule: "a random transaction (coinbase, key inputs or mixed; mostly small, up to 16386, rarely 65538, inputs, ring members or outputs, extra to 260 kB) serialised, measured, hashed, and read back with foreign bytes behind it; non-trivial: it has inputs and outputs"},
		func(rt *rapid.T, c *kit.Case) {
			m := cngen.Tx(rt)
			want := m.Bytes()
			x := cngen.TxOf(m)
			kit.NoPanic(rt, "encoding", func() {
				if got := x.Serialize(); !bytes.Equal(got, want) {
					rt.Fatalf("%+v\nserialised %s\n  expected %s", m, short(got), short(want))
				}
			})
			if x.Size() != uint64(len(want)) {
				rt.Fatalf("size %d of a transaction of %d bytes", x.Size(), len(want))
			}
			h, ph := m.Hash(), ref.Keccak256(m.PrefixBytes())
			check := func(x *cryptonote.Transaction, who string) {
				order := rapid.Bool().Draw(rt, "prefixFirst")
				for i := 0; i < 2; i++ {
					if order == (i == 0) {
						if got := *x.TransactionPrefix.Hash(); got != ph {
							rt.Fatalf("%s prefix hash %x, expected %x: %s", who, got, ph, short(want))
						}
					} else if got := *x.Hash(); got != h {
						rt.Fatalf("%s hash %x, expected %x: %s", who, got, h, short(want))
					}
				}
			}
			check(x, "built")
			tail := kit.Bytes(rt, 20, "tail")
			y, n, err := readTx(rt, append(append([]byte{}, want...), tail...))
			if err != nil {
				rt.Fatalf("valid transaction refused: %v\n%s", err, short(want))
			}
			if n != len(want) {
				rt.Fatalf("read %d bytes of a transaction of %d: %s", n, len(want), short(want))
			}
			back, err := cngen.RefTx(y)
			if err != nil || !sameTx(back, m) {
				rt.Fatalf("transaction\n%+v\nread as\n%+v\n%v", m, back, err)
			}
			if !bytes.Equal(y.Serialize(), want) || y.Size() != uint64(len(want)) {
				rt.Fatalf("serialised again: %s, expected %s", short(y.Serialize()), short(want))
			}
			check(y, "read")
			if rapid.IntRange(0, 3).Draw(rt, "others") == 0 {
				o := cngen.Tx(rt)
				other := cngen.TxOf(o)
				kit.Owned(rt, "Serialize", want, x.Serialize, func() { other.Serialize() }, func() { other.Hash() }, func() { readTx(rt, o.Bytes()) }, func() { y.Serialize() })
				check(x, "built")
			}
			c.Label(txLabel(m))
			if len(m.In) > 0 && len(m.Out) > 0 {
				c.Hit(want)
				c.Sample("%d inputs, %d outputs, %d bytes of extra: %s", len(m.In), len(m.Out), len(m.Extra), short(want))
			}
		})
}

// sameTx compares content; absent and empty lists are the same.
func sameTx(a, b *ref.Tx) bool {
	if a == nil || b == nil {
		return a == b
	}
	flat := func(t *ref.Tx) string {
		var s strings.Builder
		fmt.Fprintf(&s, "%d %d %x|", t.Version, t.Unlock, t.Extra)
		for i, in := range t.In {
			fmt.Fprintf(&s, "%v %d %d %v %x", in.Gen, in.Height, in.Amount, append([]uint32{}, in.Offsets...), in.Image)
			if i < len(t.Sigs) {
				fmt.Fprintf(&s, "%x", t.Sigs[i])
			}
			s.WriteString("|")
		}
		for _, o := range t.Out {
			fmt.Fprintf(&s, "%d %x|", o.Amount, o.Key)
		}
		return s.String()
	}
	return flat(a) == flat(b)
}

func edit(rt *rapid.T, b []byte, max int) []byte {
	b = append([]byte{}, b...)
	for i := rapid.IntRange(1, max).Draw(rt, "edits"); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
		switch rapid.IntRange(0, 5).Draw(rt, "edit") {
		case 0:
			b[at] ^= 0x80
		case 1:
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			b = append(b[:at:at], append([]byte{rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}).Draw(rt, "byte")}, b[at:]...)...)
		case 3:
			b[at] = rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}).Draw(rt, "byte")
		case 4:
			b[at] = rapid.Byte().Draw(rt, "byte")
		case 5:
			// a count claiming a lot
			v := ref.Varint(kit.U64(rt, "claim"))
			b = append(b[:at:at], append(v, b[at+1:]...)...)
		}
	}
	return b
}

func TestVerifC07Canonical(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 14000, Thorough: 200000,
		Rule: "a random transaction with one varint padded or overflowing (refused), or with a few bytes edited (accepted only if re-serialising gives the bytes read, and hashed as those bytes); non-trivial: padded, or edited and accepted"},
		func(rt *rapid.T, c *kit.Case) {
			m := cngen.Tx(rt)
			if rapid.IntRange(0, 2).Draw(rt, "pad") == 0 {
				e := ref.NewEnc()
				e.Tx(m)
				p := ref.NewEnc()
				p.PadAt = rapid.IntRange(0, e.Varints()-1).Draw(rt, "padAt")
				p.Pad = rapid.IntRange(1, 4).Draw(rt, "pad")
				p.Over = rapid.IntRange(0, 3).Draw(rt, "over") == 0
				p.Tx(m)
				c.Label("padded")
				c.Hit(p.B)
				c.Sample("varint %d padded: %s", p.PadAt, short(p.B))
				if _, n, err := readTx(rt, p.B); err == nil {
					rt.Fatalf("padded varint %d accepted (%d of %d bytes read): %s", p.PadAt, n, len(p.B), short(p.B))
				}
				return
			}
			b := edit(rt, m.Bytes(), 3)
			x, n, err := readTx(rt, b)
			if err != nil {
				c.Label("refused")
				return
			}
			c.Label("accepted")
			if !bytes.Equal(b, m.Bytes()) {
				c.Hit(b)
				c.Sample("edited and accepted: %s", short(b))
			}
			kit.NoPanic(rt, "serialising what was accepted", func() {
				if got := x.Serialize(); !bytes.Equal(got, b[:n]) {
					rt.Fatalf("accepted %s\nre-serialised %s", short(b[:n]), short(got))
				}
				if got := *x.Hash(); got != ref.Keccak256(b[:n]) {
					rt.Fatalf("hash of %s is %x", short(b[:n]), got)
				}
			})
		})
}
