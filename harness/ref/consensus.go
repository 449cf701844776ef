//go:build go1.23

package ref

import (
	"math"
	"math/big"
	"sort"
)

func bi(v int64) *big.Int        { return big.NewInt(v) }
func bu(v uint64) *big.Int       { return new(big.Int).SetUint64(v) }
func quo(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }

// RewardMedian is the size up to which a block of the version earns the full reward.
func RewardMedian(version byte, median uint64) uint64 {
	zone := uint64(100000)
	if version >= 2 {
		zone = 1000000
	}
	if median < zone {
		return zone
	}
	return median
}

// BaseReward by coins already issued.
func BaseReward(coins uint64) uint64 {
	supply := bu(10_000_000_000_000_000_000)
	rest := new(big.Int).Sub(supply, bu(coins))
	tail := bi(1_000_000_000_000)
	if rest.Cmp(tail) > 0 {
		if base := new(big.Int).Rsh(rest, 18); base.Cmp(tail) >= 0 {
			return base.Uint64()
		}
	}
	return coins / 100 * 2 / (360 * 365)
}

// Reward and emission of a block, or false when it is too big.
func Reward(version byte, median, size, coins, fee uint64) (reward, emission uint64, ok bool) {
	m := RewardMedian(version, median)
	if size > 2*m {
		return 0, 0, false
	}
	cut := func(v uint64) uint64 {
		if size <= m {
			return v
		}
		// v * (2m-size) * size / m / m
		x := new(big.Int).Mul(bu(2*m-size), bu(size))
		x.Mul(x, bu(v))
		return quo(quo(x, bu(m)), bu(m)).Uint64()
	}
	base, f := cut(BaseReward(coins)), cut(fee)
	return base + f, base - (fee - f), true
}

// BlockVersion at a height.
func BlockVersion(h uint32) byte {
	switch {
	case h > 700000:
		return 5
	case h > 266000:
		return 4
	case h > 216000:
		return 3
	case h > 60000:
		return 2
	}
	return 1
}

// DifficultyWindow is the number of blocks the difficulty of a version looks at.
func DifficultyWindow(version byte) int {
	return map[byte]int{1: 375, 2: 17, 3: 61, 4: 61, 5: 121}[version]
}

const target = 240

func clampBig(lo, v, hi *big.Int) *big.Int {
	if v.Cmp(lo) < 0 {
		return lo
	}
	if v.Cmp(hi) > 0 {
		return hi
	}
	return v
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func sorted(ts []uint64) []uint64 {
	ts = append([]uint64{}, ts...)
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	return ts
}

// Difficulty of the next block; slack is how far an implementation in floating point may be from it.
// ok is false when the window is not one the definition covers.
func Difficulty(h uint32, version byte, low bool, ts, cd []uint64) (d, slack uint64, ok bool) {
	floor := func(v *big.Int) uint64 {
		if !low && v.Cmp(bi(100000)) < 0 {
			return 100000
		}
		return v.Uint64()
	}
	switch version {
	case 1:
		if len(ts) > 360 {
			ts, cd = ts[:360], cd[:360]
		}
		if len(ts) <= 1 {
			return 1, 0, true
		}
		ts = sorted(ts)
		from, to := 0, len(ts)
		if len(ts) > 240 {
			from = (len(ts) - 240 + 1) / 2
			to = from + 240
		}
		span := ts[to-1] - ts[from]
		if span == 0 {
			span = 1
		}
		work := cd[to-1] - cd[from]
		if work == 0 {
			return 0, 0, false
		}
		w := new(big.Int).Mul(bu(work), bi(target))
		w.Add(w, bu(span-1))
		if w.BitLen() > 64 {
			return 0, 0, true
		}
		return quo(w, bu(span)).Uint64(), 0, true
	case 2:
		if len(ts) > 17 {
			ts, cd = ts[:17], cd[:17]
		}
		if len(ts) <= 1 {
			return 1, 0, true
		}
		ts = sorted(ts)
		span := ts[len(ts)-1] - ts[0]
		if span == 0 {
			span = 1
		}
		work := cd[len(cd)-1] - cd[0]
		if work == 0 {
			return 0, 0, false
		}
		w := new(big.Int).Mul(bu(work), bi(target))
		if w.BitLen() > 64 {
			return 0, 0, true
		}
		return floor(quo(w, bu(span))), 0, true
	case 3:
		if len(ts) < 4 {
			return 1, 0, true
		}
		n := len(ts) - 1
		lwma, inv := new(big.Rat), new(big.Rat)
		for i := 1; i <= n; i++ {
			st := int64(ts[i] - ts[i-1])
			if st > 7*target {
				st = 7 * target
			}
			if st < -6*target {
				st = -6 * target
			}
			lwma.Add(lwma, big.NewRat(st*int64(i), 1))
			if cd[i] <= cd[i-1] {
				return 0, 0, false
			}
			inv.Add(inv, new(big.Rat).SetFrac(bi(1), bu(cd[i]-cd[i-1])))
		}
		lwma.Quo(lwma, big.NewRat(int64(n*(n+1)/2), 1))
		half := new(big.Rat).Sub(lwma, big.NewRat(23, 2))
		if f, _ := half.Float64(); math.Abs(f) < 1e-6 && f != 0 || f == 0 {
			return 0, 0, false // at the edge of the clamp a rounding error decides
		}
		if half.Sign() < 0 {
			lwma = big.NewRat(12, 1)
		}
		r := new(big.Rat).Quo(big.NewRat(int64(n), 1), inv)
		r.Mul(r, big.NewRat(998, 1000))
		r.Mul(r, big.NewRat(target, 1))
		r.Quo(r, lwma)
		v := quo(r.Num(), r.Denom())
		if v.BitLen() > 62 {
			return 0, 0, false
		}
		return floor(v), 1 + v.Uint64()>>40, true
	case 4:
		if len(ts) != 61 {
			return 0, 0, false
		}
		var l, last3, prev, max int64
		prev = int64(ts[0])
		for i := 1; i <= 60; i++ {
			var st int64
			if h < 300000 {
				st = int64(ts[i]) - int64(ts[i-1])
				if st > 6*target {
					st = 6 * target
				}
				if st < -6*target {
					st = -6 * target
				}
			} else {
				max = prev + 1
				if int64(ts[i]) > prev {
					max = int64(ts[i])
				}
				st = min64(6*target, max-prev)
				prev = max
			}
			l += st * int64(i)
			if i > 57 {
				last3 += st
			}
		}
		if l == 0 {
			l = 1
		}
		w := new(big.Int).Mul(bu(cd[60]-cd[0]), bi(target*61))
		if w.BitLen() > 56 {
			return 0, 0, false
		}
		next := quo(w, bi(2*l))
		next = quo(next.Mul(next, bi(99)), bi(100))
		pd := bu(cd[60] - cd[59])
		pc := func(p int64) *big.Int { return quo(new(big.Int).Mul(pd, bi(p)), bi(100)) }
		next = clampBig(pc(67), next, pc(150))
		if last3 < 8*target/10 {
			next = pc(110)
		}
		return floor(next), 0, true
	}
	// version 5
	if h == 700000 {
		return cd[0] / 700000 / 1000, 0, true
	}
	if len(ts) != 121 || h < 700000 {
		return 0, 0, false
	}
	if h < 700120 {
		off := 120 - (h - 700000)
		ts, cd = ts[off:], cd[off:]
	}
	n := int64(len(ts) - 1)
	var l int64
	prev := int64(ts[0]) - target
	for i := int64(1); i <= n; i++ {
		this := prev + 1
		if int64(ts[i]) > prev {
			this = int64(ts[i])
		}
		l += i * min64(6*target, this-prev)
		prev = this
	}
	if min := n * n * target / 20; l < min {
		l = min
	}
	avg := quo(bu(cd[n]-cd[0]), bi(n))
	f := bi(n * (n + 1) * target * 99)
	var next *big.Int
	if avg.Cmp(bi(2000000*n*n*target)) > 0 {
		next = quo(avg, bi(200*l))
		next.Mul(next, f)
	} else {
		next = new(big.Int).Mul(avg, f)
		if next.BitLen() > 63 {
			return 0, 0, false
		}
		next = quo(next, bi(200*l))
	}
	if next.BitLen() > 62 {
		return 0, 0, false
	}
	// three significant digits from 1000 on
	for p := int64(1000000000); p > 1; p /= 10 {
		if next.Cmp(bi(100*p)) > 0 {
			next.Add(next, bi(p/2))
			next = quo(next, bi(p))
			next.Mul(next, bi(p))
			break
		}
	}
	return floor(next), 0, true
}
