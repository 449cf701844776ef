//go:build go1.23

package cryptonote_test

import (
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// cutPoints: every proper prefix of short encodings, a sample (with both ends) of long ones.
func cutPoints(rt *rapid.T, n int) (l []int) {
	if n <= 150 {
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return
	}
	for i := 0; i < 40; i++ {
		l = append(l, i, n-1-i, rapid.IntRange(0, n-1).Draw(rt, "cut"))
	}
	return
}

func TestVerifC09Prefix(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 2500, Thorough: 25000,
		Rule: "every proper prefix (a sample for long ones) of a random valid transaction or block is refused; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			if rapid.Bool().Draw(rt, "block") {
				b := drawBlock(rt).Bytes()
				for _, n := range cutPoints(rt, len(b)) {
					if _, _, err := readBlock(rt, b[:n]); err == nil {
						rt.Fatalf("block cut to %d of %d bytes accepted: %s", n, len(b), short(b[:n]))
					}
				}
				c.Hit(b)
				c.Label("block")
				c.Sample("block %s", short(b))
				return
			}
			b := cngen.Tx(rt).Bytes()
			for _, n := range cutPoints(rt, len(b)) {
				if _, _, err := readTx(rt, b[:n]); err == nil {
					rt.Fatalf("transaction cut to %d of %d bytes accepted: %s", n, len(b), short(b[:n]))
				}
			}
			c.Hit(b)
			c.Label("transaction")
			c.Sample("transaction %s", short(b))
		})
}

func TestVerifC09Survive(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 25000, Thorough: 250000,
		Rule: "random bytes, or valid encodings with up to 5 edits (bytes, counts claiming up to 2^64) and possibly cut: no panic, no hang, allocation within 4 MiB + 2000 bytes per input byte; what is accepted is hashed, measured, re-serialised and its extra parsed; non-trivial: at least two bytes"},
		func(rt *rapid.T, c *kit.Case) {
			var b []byte
			kind := rapid.IntRange(0, 5).Draw(rt, "kind")
			block := rapid.Bool().Draw(rt, "block")
			switch {
			case kind == 0:
				b = kit.Bytes(rt, 120, "raw")
				c.Label("raw")
			case block:
				b = edit(rt, drawBlock(rt).Bytes(), 5)
			default:
				b = edit(rt, cngen.Tx(rt).Bytes(), 5)
			}
			if rapid.IntRange(0, 4).Draw(rt, "cut") == 0 && len(b) > 0 {
				b = b[:rapid.IntRange(0, len(b)).Draw(rt, "cutAt")]
			}
			if len(b) > 1 {
				c.Hit(block, b)
				c.Sample("block %v: %s", block, short(b))
			}
			use := func(what string, f func()) {
				kit.Within(kit.Patience, what, func() { kit.NoPanic(rt, what, f) })
			}
			if block {
				x, _, err := readBlock(rt, b)
				if err != nil {
					c.Label("block refused")
					return
				}
				c.Label("block accepted")
				use("using an accepted block", func() {
					x.Hash()
					x.Serialize()
					x.HashingBytes()
					x.Index()
					x.BaseTransaction.Hash()
					x.BaseTransaction.Size()
					x.BaseTransaction.ParseExtra()
				})
				return
			}
			x, _, err := readTx(rt, b)
			if err != nil {
				c.Label("transaction refused")
				return
			}
			c.Label("transaction accepted")
			use("using an accepted transaction", func() {
				x.Hash()
				x.TransactionPrefix.Hash()
				x.Serialize()
				x.Size()
				x.ParseExtra()
			})
		})
}

// a block of nothing but counts, as an attacker would send
func TestVerifC09Claims(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 6000, Thorough: 60000,
		Rule: "a well-formed beginning of a transaction or block in which one count (inputs, ring members, outputs, extra, transactions, branches) claims far more than follows: refused without a panic or an outsized allocation; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			claim := uint64(1)<<rapid.IntRange(14, 63).Draw(rt, "shift") + rapid.Uint64Range(0, 2).Draw(rt, "delta")
			e := ref.NewEnc()
			block := rapid.Bool().Draw(rt, "block")
			if block {
				e.V(1)
				e.V(0)
				e.V(kit.U64(rt, "time"))
				e.B = append(e.B, make([]byte, 36)...)
			}
			where := kit.Even(rt, 7, "where")
			one := func() {
				e.V(1)
				e.V(0)
			}
			switch where {
			case 0: // inputs
				one()
				e.V(claim)
			case 1: // ring members
				one()
				e.V(1)
				e.B = append(e.B, 2)
				e.V(5)
				e.V(claim)
			case 2: // outputs
				one()
				e.V(1)
				e.B = append(e.B, 0xff)
				e.V(7)
				e.V(claim)
			case 3: // extra
				one()
				e.V(1)
				e.B = append(e.B, 0xff)
				e.V(7)
				e.V(0)
				e.V(claim)
			case 4: // transactions of a block
				block = true
				e = ref.NewEnc()
				e.V(1)
				e.V(0)
				e.V(1)
				e.B = append(e.B, make([]byte, 36)...)
				one()
				e.V(1)
				e.B = append(e.B, 0xff)
				e.V(7)
				e.V(0)
				e.V(0)
				e.V(claim)
			case 5, 6: // parent block
				block = true
				b := &ref.Block{Major: 2 + byte(kit.Even(rt, 2, "version")), Parent: &ref.Parent{Major: 1, TxCount: 1}}
				b.Parent.Base = ref.Tx{Version: 1, In: []ref.In{{Gen: true, Height: 7}}}
				e = ref.NewEnc()
				e.V(uint64(b.Major))
				e.V(0)
				e.B = append(e.B, make([]byte, 32)...) // previous
				e.V(1)
				e.V(0)
				e.V(kit.U64(rt, "time"))
				e.B = append(e.B, make([]byte, 36)...)
				if where == 5 {
					e.V(claim)
					break
				}
				depth := claim
				if kit.Even(rt, 2, "short") == 0 { // many more than follow, in one byte
					depth = uint64(20 + kit.Even(rt, 108, "depth"))
				}
				tag := ref.MMTag(depth, [32]byte{})
				if kit.Even(rt, 2, "size") == 0 {
					tag[1] = 33
				}
				b.Parent.Base.Extra = tag
				e.V(1)
				e.Prefix(&b.Parent.Base)
			}
			e.B = append(e.B, kit.Bytes(rt, 200, "rest")...)
			c.Hit(block, e.B)
			c.Label([]string{"inputs", "ring", "outputs", "extra", "transactions", "parent transactions", "merge-mining depth"}[where])
			c.Sample("%s", short(e.B))
			var err error
			if block {
				_, _, err = readBlock(rt, e.B)
			} else {
				_, _, err = readTx(rt, e.B)
			}
			if err == nil && claim > uint64(len(e.B)) {
				rt.Fatalf("a count of %d accepted in %d bytes: %s", claim, len(e.B), short(e.B))
			}
		})
}
