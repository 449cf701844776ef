//go:build go1.23

package config_test

import (
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func TestVerifC19Reward(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 1000000,
		Rule: "issued coins (edges of the supply, of the shift and of the tail, random up to 1.2e19), medians and sizes (small, at the zones, at and around one and two medians, up to 2^32), fees up to 8e18, versions 0 to 6, both networks: reward and emission against big integers; a second, larger block never earns more; non-trivial: the penalty applies or the block is refused"},
		func(rt *rapid.T, c *kit.Case) {
			n := config.MainNet()
			if rapid.Bool().Draw(rt, "testnet") {
				n = config.TestNet()
			}
			version := rapid.ByteRange(0, 6).Draw(rt, "version")
			var coins uint64
			const supply = 10_000_000_000_000_000_000
			delta := func(v uint64, name string) uint64 {
				return v + uint64(int64(rapid.IntRange(-3, 3).Draw(rt, name)))
			}
			switch rapid.IntRange(0, 5).Draw(rt, "coinsKind") {
			case 0:
				coins = uint64(rapid.IntRange(0, 1000).Draw(rt, "coins"))
			case 1:
				coins = delta(supply-rapid.SampledFrom([]uint64{3, 1_000_000_000_000, 1 << 18, 1_000_000_000_000 << 18}).Draw(rt, "below"), "delta")
			case 2:
				// multiples of the shift
				coins = delta(supply-uint64(rapid.Uint32().Draw(rt, "units"))<<18, "delta")
			case 3:
				coins = rapid.Uint64Range(supply, 12_000_000_000_000_000_000).Draw(rt, "coins")
			default:
				coins = rapid.Uint64Range(0, supply).Draw(rt, "coins")
			}
			var median uint64
			switch rapid.IntRange(0, 4).Draw(rt, "medianKind") {
			case 0:
				median = uint64(rapid.IntRange(0, 1000).Draw(rt, "median"))
			case 1:
				median = delta(rapid.SampledFrom([]uint64{20000, 100000, 1000000, 1<<31 + 5, 1<<32 - 4}).Draw(rt, "zone"), "delta")
			case 2:
				median = rapid.Uint64Range(0, 1<<32-1).Draw(rt, "median")
			default:
				median = rapid.Uint64Range(0, 3000000).Draw(rt, "median")
			}
			eff := ref.RewardMedian(version, median)
			size := func(name string) uint64 {
				switch rapid.IntRange(0, 4).Draw(rt, name+"Kind") {
				case 0:
					return delta(eff, name)
				case 1:
					return delta(2*eff, name)
				case 2:
					return rapid.Uint64Range(0, 2*eff).Draw(rt, name)
				case 3:
					return rapid.Uint64Range(eff, 2*eff).Draw(rt, name)
				}
				return rapid.Uint64Range(0, 1<<33).Draw(rt, name)
			}
			fee := kit.U64(rt, "fee") % 8_000_000_000_000_000_000
			s := size("size")
			eval := func(s uint64) (reward, emission uint64, ok bool) {
				reward, emission, err := n.GetBlockReward(version, median, s, coins, fee)
				wr, we, wok := ref.Reward(version, median, s, coins, fee)
				if (err == nil) != wok {
					rt.Fatalf("block of %d with median %d version %d: %v", s, median, version, err)
				}
				if wok && (reward != wr || emission != we) {
					rt.Fatalf("reward %d emission %d, expected %d %d (version %d median %d size %d coins %d fee %d)", reward, emission, wr, we, version, median, s, coins, fee)
				}
				if wok && emission != reward-fee {
					rt.Fatalf("emission %d with reward %d and fee %d", emission, reward, fee)
				}
				return reward, emission, wok
			}
			r, _, ok := eval(s)
			s2 := size("other")
			r2, _, ok2 := eval(s2)
			if ok && ok2 && (s2 > s && r2 > r || s2 < s && r2 < r) {
				rt.Fatalf("sizes %d and %d earn %d and %d", s, s2, r, r2)
			}
			if r3, _, ok3 := eval(s); ok3 != ok || r3 != r {
				rt.Fatalf("reward changes from %d to %d", r, r3)
			}
			switch {
			case !ok:
				c.Label("too big")
			case s > eff:
				c.Label("penalty")
			default:
				c.Label("full reward")
			}
			if !ok || s > eff {
				c.Hit(version, median, s, coins, fee)
				c.Sample("version %d median %d size %d coins %d fee %d: %d", version, median, s, coins, fee, r)
			}
		})
}

// the supply over many blocks: never jumps, never passes what the formula allows
func TestVerifC19Supply(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 200, Thorough: 3000,
		Rule: "chains of 50 to 400 rewards each continuing from the coins of the one before, starting anywhere on the curve, with random sizes and fees: issued coins follow the model and before the tail the base reward never rises; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			n := config.MainNet()
			coins := rapid.Uint64Range(10_000_000_000_000_000, 11_000_000_000_000_000_000).Draw(rt, "coins")
			if rapid.Bool().Draw(rt, "tail") {
				coins = 10_000_000_000_000_000_000 - 1_000_000_000_000<<18 - uint64(rapid.IntRange(0, 1<<40).Draw(rt, "before"))
			}
			model := new(big.Int).SetUint64(coins)
			last, before := ^uint64(0), uint64(0)
			start := coins
			for i := rapid.IntRange(50, 400).Draw(rt, "blocks"); i > 0; i-- {
				fee := rapid.Uint64Range(0, 1e13).Draw(rt, "fee")
				size := rapid.Uint64Range(0, 2000000).Draw(rt, "size")
				reward, emission, err := n.GetBlockReward(4, 0, size, coins, fee)
				if err != nil {
					rt.Fatalf("block of %d refused: %v", size, err)
				}
				base, _, _ := n.GetBlockReward(4, 0, 0, coins, 0)
				if coins < 10_000_000_000_000_000_000 && (10_000_000_000_000_000_000-coins)>>18 >= 1_000_000_000_000 && coins >= before && base > last {
					rt.Fatalf("base reward rises from %d to %d at %d coins", last, base, coins)
				}
				last, before = base, coins
				model.Add(model, new(big.Int).SetUint64(reward))
				model.Sub(model, new(big.Int).SetUint64(fee))
				coins += emission
				if model.Cmp(new(big.Int).SetUint64(coins)) != 0 {
					rt.Fatalf("%d coins, model %v", coins, model)
				}
			}
			c.Hit(start)
			c.Sample("%d -> %d coins", start, coins)
		})
}
