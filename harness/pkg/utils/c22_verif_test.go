//go:build go1.23

package utils_test

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"slices"
	"sort"
	"testing"

	"github.com/r3volut1oner/go-karbo/utils"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

func bu(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func wide(hi, lo uint64) *big.Int {
	return new(big.Int).Add(new(big.Int).Lsh(bu(hi), 64), bu(lo))
}

func TestVerifC22Wide(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 40000, Thorough: 1500000,
		Rule: "64-bit factors and 128-bit dividends: boundaries of 32 and 64 bits, patterns of ones, random; 32-bit divisors of all kinds: product and quotient against big integers; minima, maxima and clamps by definition; non-trivial: product above 64 bits"},
		func(rt *rapid.T, c *kit.Case) {
			a, b := kit.U64(rt, "a"), kit.U64(rt, "b")
			lo, hi := utils.Mul128(a, b)
			want := new(big.Int).Mul(bu(a), bu(b))
			if wide(hi, lo).Cmp(want) != 0 {
				rt.Fatalf("%d * %d = %d, %d, expected %v", a, b, hi, lo, want)
			}
			d := kit.U32(rt, "d")
			if d == 0 {
				d = 1
			}
			x, y := a, b
			if rapid.Bool().Draw(rt, "product") {
				x, y = hi, lo
			}
			qlo, qhi := utils.Div128p32(x, y, d)
			q := new(big.Int).Quo(wide(x, y), bu(uint64(d)))
			if wide(qhi, qlo).Cmp(q) != 0 {
				rt.Fatalf("(%d, %d) / %d = %d, %d, expected %v", x, y, d, qhi, qlo, q)
			}
			i, j, k := int64(kit.U64(rt, "i")), int64(a), int64(b)
			if j > k {
				j, k = k, j
			}
			cl := i
			if cl < j {
				cl = j
			}
			if cl > k {
				cl = k
			}
			if got := utils.ClampInt64(j, i, k); got != cl {
				rt.Fatalf("%d clamped to %d..%d is %d", i, j, k, got)
			}
			l := []int64{i, j}
			sort.Slice(l, func(x, y int) bool { return l[x] < l[y] })
			if utils.MinInt64(i, j) != l[0] || utils.MaxInt64(i, j) != l[1] || utils.MinInt64(j, i) != l[0] || utils.MaxInt64(j, i) != l[1] {
				rt.Fatalf("minimum or maximum of %d and %d", i, j)
			}
			min, max := a, b
			if bu(a).Cmp(bu(b)) > 0 {
				min, max = b, a
			}
			if utils.MinUint64(a, b) != min || utils.MaxUint64(a, b) != max {
				rt.Fatalf("minimum or maximum of %d and %d", a, b)
			}
			if hi > 0 {
				c.Hit(a, b, d)
				c.Sample("%d * %d = %v, / %d", a, b, want, d)
			}
		})
}

func TestVerifC22Median(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 10000, Thorough: 300000,
		Rule: "lists of 0 to 120, sometimes 3000, rarely 100000, values, small ranges (many equal), around powers of two, near the top of 64 bits: median against the definition, the same for a shuffled list; non-trivial: at least two values"},
		func(rt *rapid.T, c *kit.Case) {
			n := rapid.IntRange(0, 12).Draw(rt, "n")
			if rapid.IntRange(0, 4).Draw(rt, "long") == 0 {
				n = rapid.IntRange(0, 120).Draw(rt, "n")
			}
			if kit.Even(rt, 200, "longest") == 0 {
				n = kit.Even(rt, 3000, "n")
			}
			l := make([]uint64, n)
			small := rapid.Bool().Draw(rt, "small")
			if kit.Even(rt, 250, "huge") == 0 {
				n = 3000 + kit.Even(rt, 100000, "n")
				l = make([]uint64, n)
				b := kit.Expand(rapid.Uint64().Draw(rt, "seed"), 8*n)
				for i := range l {
					l[i] = binary.LittleEndian.Uint64(b[8*i:])
				}
			}
			for i := range l {
				if n >= 3000 {
					break
				}
				if small {
					l[i] = rapid.Uint64Range(0, 20).Draw(rt, "v")
				} else {
					l[i] = kit.U64(rt, "v")
				}
			}
			s := append([]uint64{}, l...)
			sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
			want := uint64(0)
			switch {
			case n == 0:
			case n%2 == 1:
				want = s[n/2]
			default:
				m := new(big.Int).Add(bu(s[n/2-1]), bu(s[n/2]))
				want = m.Rsh(m, 1).Uint64()
			}
			if got := utils.MedianSlice(append([]uint64{}, l...)); got != want {
				rt.Fatalf("median of %d: %v is %d, expected %d", n, l[:min(n, 3000)], got, want)
			}
			p := append([]uint64{}, l...)
			for i := range p {
				p[i] = l[len(l)-1-i]
			}
			if n < 3000 {
				p = rapid.Permutation(l).Draw(rt, "shuffled")
			}
			if got := utils.MedianSlice(append([]uint64{}, p...)); got != want {
				rt.Fatalf("median of %d: %v is %d, expected %d", n, p[:min(n, 3000)], got, want)
			}
			if n > 1 {
				c.Hit(n, l[:min(n, 3000)])
				c.Sample("%d: %v: %d", n, l[:min(n, 100)], want)
			}
		})
}

func TestVerifC22Lists(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 400000,
		Rule: "lists of up to 300 numbers in order or not, with repetitions next to each other, far apart or none, and lists to be reversed: order, absence of repetitions and reversal against the definition; non-trivial: lists of two or more"},
		func(rt *rapid.T, c *kit.Case) {
			l, sorted, unique := kit.IndexList(rt)
			was := slices.Clone(l)
			if got := utils.SliceIsSortedUint32(&l); got != sorted {
				rt.Fatalf("sorted %v: %v", got, l)
			}
			if got := utils.SliceIsUniqueUint32(&l); got != unique {
				rt.Fatalf("unique %v: %v", got, l)
			}
			if !slices.Equal(l, was) {
				rt.Fatalf("%v became %v", was, l)
			}
			var back, wide []uint64
			for i, x := range l {
				wide = append(wide, uint64(x)<<32|uint64(i))
				back = append([]uint64{uint64(x)<<32 | uint64(i)}, back...)
			}
			if got := utils.SliceReverse(slices.Clone(wide)); !slices.Equal(got, back) {
				rt.Fatalf("reverse of %v is %v", wide, got)
			}
			if len(l) > 1 {
				c.Hit(l)
			}
			c.Label(fmt.Sprintf("sorted %v, unique %v", sorted, unique))
			c.Sample("%d numbers, sorted %v, unique %v", len(l), sorted, unique)
		})
}
