//go:build go1.23

package config_test

import (
	"math"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func drawHeight(rt *rapid.T, name string) uint32 {
	switch rapid.IntRange(0, 2).Draw(rt, name+"Kind") {
	case 0:
		return rapid.SampledFrom([]uint32{10, 60000, 216000, 216394, 266000, 300000, 500000, 667000, 700000, 131400}).Draw(rt, name) + uint32(rapid.IntRange(-2, 2).Draw(rt, name+"Delta"))
	case 1:
		return kit.U32(rt, name)
	}
	return rapid.Uint32Range(0, 1000000).Draw(rt, name)
}

func TestVerifC21Schedule(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 500000,
		Rule: "heights around every upgrade, at powers of two and random, versions 1 to 255, both networks: every schedule against its step table, ten times over for the version of a height; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			n := network(rapid.Bool().Draw(rt, "testnet"))
			h := drawHeight(rt, "h")
			want := ref.BlockVersion(h)
			for i := 0; i < 10; i++ {
				if got := n.GetBlockMajorVersion(h); got != want {
					rt.Fatalf("version at %d is %d, expected %d", h, got, want)
				}
			}
			v := rapid.Byte().Draw(rt, "version")
			if rapid.IntRange(0, 3).Draw(rt, "real") > 0 {
				v = rapid.ByteRange(1, 6).Draw(rt, "version")
			}
			eq := func(what string, got, want uint64) {
				if got != want {
					rt.Fatalf("%s at height %d, version %d: %d, expected %d", what, h, v, got, want)
				}
			}
			pick := func(cond bool, a, b uint64) uint64 {
				if cond {
					return a
				}
				return b
			}
			eq("timestamp window", uint64(n.BlockTimestampCheckWindow(v)), pick(v >= 4, 11, 60))
			eq("future limit", n.BlockFutureTimeLimit(v), pick(v >= 4, 720, 1680))
			eq("full reward zone", n.BlockGrantedFullRewardZoneByBlockVersion(v), pick(v >= 2, 1000000, 100000))
			eq("transaction size", n.MaxTransactionSize(h), pick(h > 266000, 249400, math.MaxUint64))
			eq("fusion size", n.FusionMaxTxSize(h), pick(h <= 216000, 300000, 30000))
			eq("block size", n.MaxBlockSize(uint64(h)), 1000000+uint64(h)*102400/131400)
			fee := uint64(10_000_000_000)
			switch {
			case h <= 216394:
				fee = 100_000_000
			case h <= 266000:
				fee = 100_000_000_000
			}
			eq("minimal fee", n.MinimalFee(h), fee)
			eq("minimal fee of the validator", n.MinimalFeeValidator(h), pick(h > 266000 && h < 667000, 8_000_000_000, fee))
			window := map[byte]uint64{0: 375, 1: 375, 2: 17, 3: 61, 4: 61}
			w, ok := window[v]
			if !ok {
				w = 121
			}
			eq("difficulty window", uint64(n.DifficultyBlocksCountByBlockVersion(v)), w)
			h2 := drawHeight(rt, "h2")
			if a, b := n.MaxBlockSize(uint64(h)), n.MaxBlockSize(uint64(h2)); h < h2 && a > b || h > h2 && a < b {
				rt.Fatalf("block size %d at %d and %d at %d", a, h, b, h2)
			}
			c.Hit(h, v)
			c.Sample("height %d version %d", h, want)
		})
}

func TestVerifC21Amounts(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 500000,
		Rule: "amounts at and next to one digit followed by zeros, sums of two of them, powers of two, random; extra sizes around 100 and fees of every height: valid amounts against the digit definition, fee for extra data against its definition and never falling with the size; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			n := network(rapid.Bool().Draw(rt, "testnet"))
			a := kit.U64(rt, "a")
			want := a != 0
			for x := a; x >= 10; x /= 10 {
				want = want && x%10 == 0
			}
			if got := n.IsValidDecomposedAmount(a); got != want {
				rt.Fatalf("%d is a decomposed amount: %v", a, got)
			}
			min := rapid.SampledFrom([]uint64{100_000_000, 100_000_000_000, 10_000_000_000, 8_000_000_000}).Draw(rt, "min")
			if rapid.Bool().Draw(rt, "any") {
				min = rapid.Uint64Range(0, 1e12).Draw(rt, "min")
			}
			size := func(name string) uint64 {
				if rapid.Bool().Draw(rt, name+"Near") {
					return uint64(rapid.IntRange(95, 110).Draw(rt, name))
				}
				return rapid.Uint64Range(0, 100000).Draw(rt, name)
			}
			s, s2 := size("size"), size("other")
			fee := func(s uint64) uint64 {
				got, want := n.GetFeePerByte(s, min), uint64(0)
				if s > 100 {
					want = min / 100 * (s - 100)
				}
				if got != want {
					rt.Fatalf("fee for %d bytes of extra at %d is %d, expected %d", s, min, got, want)
				}
				return got
			}
			if f, f2 := fee(s), fee(s2); s < s2 && f > f2 || s > s2 && f < f2 {
				rt.Fatalf("fee %d for %d bytes, %d for %d", f, s, f2, s2)
			}
			if len(config.PrettyAmounts) != 172 {
				rt.Fatalf("%d pretty amounts", len(config.PrettyAmounts))
			}
			c.Hit(a, s, s2, min)
			c.Sample("amount %d valid %v", a, want)
			c.Label(map[bool]string{true: "valid amount", false: "invalid amount"}[want])
		})
}
