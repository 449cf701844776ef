//go:build go1.23

package cryptonote_test

import (
	"fmt"
	"slices"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

func TestVerifC22Digits(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30000, Thorough: 800000,
		Rule: "amounts and thresholds of all magnitudes, thresholds also taken from the low digits of the amount: dust and digit parts against the definition, parts sum to the amount; non-trivial: dust and at least two digits"},
		func(rt *rapid.T, c *kit.Case) {
			amount, thr := kit.U64(rt, "amount"), kit.U64(rt, "threshold")
			p := uint64(1)
			for i := rapid.IntRange(0, 19).Draw(rt, "digits"); i > 0; i-- {
				p *= 10
			}
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				thr = amount%p + uint64(int64(rapid.IntRange(-1, 1).Draw(rt, "delta")))
			case 1:
				thr = p
			case 2:
				thr = rapid.SampledFrom([]uint64{0, 100_000_000}).Draw(rt, "real")
			}
			chunks, dusts := cryptonote.DecomposeAmountIntoDigits(amount, thr)
			parts := (&cryptonote.BlockChain{}).DecomposeAmount(amount, thr)
			// longest run of low digits not above the threshold
			digits := []uint64{}
			for x := amount; x > 0; x /= 10 {
				digits = append(digits, x%10)
			}
			run, dust, order := 0, uint64(0), uint64(1)
			for run < len(digits) && digits[run]*order <= thr && dust <= thr-digits[run]*order {
				dust += digits[run] * order
				order *= 10
				run++
			}
			var want []uint64
			sum := dust
			for _, d := range digits[run:] {
				if d != 0 {
					want = append(want, d*order)
					sum += d * order
				}
				order *= 10
			}
			if sum != amount {
				rt.Fatalf("VERIF-INFRA definition sums to %d of %d", sum, amount)
			}
			bad := len(want) != len(chunks) || (dust != 0) != (len(dusts) == 1) || len(dusts) > 1 || len(dusts) == 1 && dusts[0] != dust
			for i := 0; !bad && i < len(want); i++ {
				bad = chunks[i] != want[i]
			}
			all := append([]uint64{}, want...)
			if dust != 0 {
				all = append(all, dust)
			}
			slices.Sort(all)
			if parts = slices.Sorted(slices.Values(parts)); !slices.Equal(parts, all) {
				rt.Fatalf("%d with threshold %d has the parts %v, expected %v", amount, thr, parts, all)
			}
			if bad {
				rt.Fatalf("%d with threshold %d gives %v and dust %v, expected %v and %d", amount, thr, chunks, dusts, want, dust)
			}
			if len(want) > 1 && dust > 0 {
				c.Hit(amount, thr)
				c.Sample("%d threshold %d: %v dust %d", amount, thr, chunks, dust)
			}
		})
}

func TestVerifC22Indexes(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 10000, Thorough: 200000,
		Rule: "lists of up to 300 output indexes in order or not, with repetitions next to each other, far apart or none: the lookup of output keys refuses what is empty, out of order or repeats; non-trivial: lists of two or more"},
		func(rt *rapid.T, c *kit.Case) {
			l, sorted, unique := kit.IndexList(rt)
			bc := cryptonote.NewBlockChain(nil, nil, nil)
			var err error
			kit.NoPanic(rt, "ExtractKeyOutputKeys", func() {
				_, err = bc.ExtractKeyOutputKeys(kit.U64(rt, "amount"), kit.U32(rt, "height"), slices.Clone(l))
			})
			if err == nil && (len(l) == 0 || !sorted || !unique) {
				rt.Fatalf("keys of %v are looked up", l)
			}
			if len(l) > 1 {
				c.Hit(l)
			}
			c.Label(fmt.Sprintf("sorted %v, unique %v", sorted, unique))
			c.Sample("%d indexes: %v", len(l), err)
		})
}
