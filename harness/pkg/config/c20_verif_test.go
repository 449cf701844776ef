//go:build go1.23

package config_test

import (
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func network(test bool) *config.Network {
	if test {
		return config.TestNet()
	}
	return config.MainNet()
}

// drawWindow makes the timestamps and cumulative difficulties of n consecutive blocks.
func drawWindow(rt *rapid.T, n int) (ts, cd []uint64, kind string) {
	kind = rapid.SampledFrom([]string{"steady", "noisy", "out of order", "equal", "fast", "slow", "wild"}).Draw(rt, "times")
	seed := kit.NewStream(rapid.Uint64().Draw(rt, "seed"))
	rnd := func(k int64) int64 {
		var b [8]byte
		seed.Read(b[:])
		v := uint64(0)
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return int64(v % uint64(k))
	}
	// difficulty: constant, drifting or with jumps
	shift := rapid.IntRange(0, 33).Draw(rt, "size")
	if kit.Even(rt, 6, "huge") == 5 { // where the algorithms divide first, or give up
		shift = 34 + kit.Even(rt, 19, "size")
	}
	base := int64(1)<<shift + rnd(int64(1)<<shift)
	vary := rapid.SampledFrom([]string{"constant", "drift", "jumps"}).Draw(rt, "vary")
	t := int64(1_400_000_000) + rnd(1<<30)
	c := rnd(1 << 50)
	steady := int64(rapid.IntRange(1, 2000).Draw(rt, "step"))
	for i := 0; i < n; i++ {
		step := steady
		switch kind {
		case "noisy":
			step = rnd(2 * steady)
		case "out of order":
			step = rnd(1200) - 500
		case "equal":
			step = 0
		case "fast":
			step = rnd(30)
		case "slow":
			step = 900 + rnd(2000)
		case "wild":
			step = rnd(200000) - 90000
		}
		t += step
		d := base
		switch vary {
		case "drift":
			d = base + base*rnd(100)/1000
		case "jumps":
			d = 1 + rnd(2*base)
		}
		c += d
		if t < 100000 {
			t = 100000
		}
		ts = append(ts, uint64(t))
		cd = append(cd, uint64(c))
	}
	return ts, cd, kind + ", " + vary
}

func copied(l []uint64) []uint64 { return append([]uint64{}, l...) }

func TestVerifC20Differential(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 25000, Thorough: 600000,
		Rule: "windows of steady, noisy, out of order, equal, fast, slow and wild timestamps with constant, drifting and jumping difficulty from 1 to 2^34, and up to 2^53 as far as the algorithm is defined there, all versions, both networks, heights around every switch (including the restart of version 5): next difficulty against an independent definition on big integers and rationals; window lengths as the version asks (versions 1 to 3 also shorter); non-trivial: result not the minimum or a start value"},
		func(rt *rapid.T, c *kit.Case) {
			test := rapid.Bool().Draw(rt, "testnet")
			n := network(test)
			version := rapid.ByteRange(1, 5).Draw(rt, "version")
			if got := n.DifficultyBlocksCountByBlockVersion(version); int(got) != ref.DifficultyWindow(version) {
				rt.Fatalf("window of version %d is %d", version, got)
			}
			var h uint32
			size := ref.DifficultyWindow(version)
			switch version {
			case 1, 2, 3:
				h = rapid.Uint32Range(0, 266000).Draw(rt, "height")
				if rapid.IntRange(0, 3).Draw(rt, "short") == 0 {
					size = rapid.IntRange(0, size).Draw(rt, "blocks")
				} else if version == 1 && rapid.Bool().Draw(rt, "cut") {
					size = rapid.IntRange(235, 375).Draw(rt, "blocks")
				}
			case 4:
				h = rapid.SampledFrom([]uint32{266001, 299998, 299999, 300000, 300001, 700000}).Draw(rt, "height")
			case 5:
				h = 700000 + uint32(rapid.IntRange(0, 130).Draw(rt, "after"))
				if rapid.Bool().Draw(rt, "later") {
					h = rapid.Uint32Range(700119, 4000000).Draw(rt, "height")
				}
			}
			ts, cd, kind := drawWindow(rt, size)
			if version == 5 && h < 700120 && h > 700000 {
				// earlier difficulties are of another scale and must not matter
				for i := 0; i < int(120-(h-700000)); i++ {
					cd[i] = uint64(i)
					ts[i] = uint64(rapid.Uint32().Draw(rt, "old"))
				}
			}
			want, slack, ok := ref.Difficulty(h, version, test, ts, cd)
			if !ok {
				c.Label("outside the definition")
				return
			}
			k1, k2 := copied(ts), copied(cd)
			got, err := n.NextDifficulty(h, version, k1, k2)
			if err != nil {
				rt.Fatalf("version %d height %d, %d blocks (%s): %v", version, h, size, kind, err)
			}
			if got+slack < want || got > want+slack {
				rt.Fatalf("version %d height %d, %d blocks (%s): difficulty %d, expected %d\ntimestamps %v\ncumulative %v", version, h, size, kind, got, want, ts, cd)
			}
			for i := range cd {
				if k2[i] != cd[i] {
					rt.Fatalf("version %d: cumulative difficulty %d changed", version, i)
				}
			}
			// only differences count: not the epoch, not the work before the window, not earlier calls
			if version != 5 || h != 700000 {
				dt, dc := rapid.Uint64Range(0, 1<<30).Draw(rt, "later"), rapid.Uint64Range(0, 1<<50).Draw(rt, "more")
				for i := range ts {
					ts[i] += dt
					cd[i] += dc
				}
				again, err := network(test).NextDifficulty(h, version, ts, cd)
				if err != nil || again != got {
					rt.Fatalf("version %d height %d: shifted window gives %d instead of %d (%v)", version, h, again, got, err)
				}
			}
			if got > 100000 || test && got > 1 {
				c.Hit(version, h, kind, got)
				c.Sample("version %d height %d, %d blocks %s: %d", version, h, size, kind, got)
			}
			c.Label([]string{"", "version 1", "version 2", "version 3", "version 4", "version 5"}[version])
		})
}

func uniform(n int, step, diff uint64) (ts, cd []uint64) {
	for i := 0; i < n; i++ {
		ts = append(ts, 1_500_000_000+uint64(i)*step)
		cd = append(cd, 1_000_000+uint64(i)*diff)
	}
	return
}

func TestVerifC20Response(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 10000, Thorough: 200000,
		Rule: "full windows of evenly spaced blocks of constant difficulty (100000 to 2.5e10): on target the next difficulty is within 2%, slower blocks never give more than faster ones (version 4: from 64 seconds on, below which the published algorithm caps the rise), never below the minimum; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			n := config.MainNet()
			version := rapid.ByteRange(1, 5).Draw(rt, "version")
			var h uint32
			switch version {
			case 1, 2, 3:
				h = rapid.Uint32Range(400, 266000).Draw(rt, "height")
			case 4:
				h = rapid.Uint32Range(266001, 700000).Draw(rt, "height")
			case 5:
				h = rapid.Uint32Range(700120, 5000000).Draw(rt, "height")
			}
			d := uint64(100000)
			for i := rapid.IntRange(0, 17).Draw(rt, "scale"); i > 0; i-- {
				d *= 2
			}
			d += rapid.Uint64Range(0, d/2).Draw(rt, "more")
			size := ref.DifficultyWindow(version)
			next := func(step uint64) uint64 {
				ts, cd := uniform(size, step, d)
				v, err := n.NextDifficulty(h, version, ts, cd)
				if err != nil {
					rt.Fatalf("version %d: %v", version, err)
				}
				if version > 1 && v < 100000 {
					rt.Fatalf("version %d: difficulty %d", version, v)
				}
				return v
			}
			if on := next(240); on > d+d/50 || on < d-d/50 {
				rt.Fatalf("version %d height %d: blocks on target at %d give %d", version, h, d, on)
			}
			lo := 1
			if version == 4 {
				lo = 64
			}
			a := uint64(rapid.IntRange(lo, 3000).Draw(rt, "fast"))
			b := a + uint64(rapid.IntRange(0, 1000).Draw(rt, "slower"))
			if x, y := next(a), next(b); y > x {
				rt.Fatalf("version %d height %d difficulty %d: %d seconds give %d, %d seconds give %d", version, h, d, a, x, b, y)
			}
			c.Hit(version, h, d, a, b)
			c.Sample("version %d height %d difficulty %d steps %d %d", version, h, d, a, b)
		})
}
