//go:build go1.23

package config_test

import (
	"io"
	"sort"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	log "github.com/sirupsen/logrus"
)

func quietLogger() *log.Logger {
	l := log.New()
	l.Out = io.Discard
	return l
}

func TestVerifC18Checkpoints(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 4000, Thorough: 80000,
		Rule: "histories of 1 to 60, sometimes 1500, operations on a checkpoint set: additions (in any order, repeated heights, same or other hash), block checks with pinned and other hashes, zone queries and alternative blocks around every boundary, heights small, clustered, consensus-sized and near the top of 32 bits, against a map; non-trivial: at least one checkpoint"},
		func(rt *rapid.T, c *kit.Case) {
			cp := config.NewCheckpoints(quietLogger())
			pts := map[uint32]crypto.Hash{}
			base := rapid.SampledFrom([]uint32{0, 0, 0, 5, 200, 700000, ^uint32(0) - 40}).Draw(rt, "base")
			height := func(name string) uint32 {
				if len(pts) > 0 && rapid.Bool().Draw(rt, name+"Near") {
					var l []uint32
					for h := range pts {
						l = append(l, h)
					}
					sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
					h := int64(rapid.SampledFrom(l).Draw(rt, name)) + int64(rapid.SampledFrom([]int{-11, -10, -9, -1, 0, 0, 1, 9, 10, 11}).Draw(rt, name+"Delta"))
					if h >= 0 && h < 1<<32 {
						return uint32(h)
					}
				}
				if rapid.IntRange(0, 15).Draw(rt, name+"Any") == 0 {
					return kit.U32(rt, name)
				}
				return base + uint32(rapid.IntRange(0, 40).Draw(rt, name+"Off"))
			}
			hash := func(name string) (h crypto.Hash) {
				h[31] = byte(rapid.IntRange(0, 3).Draw(rt, name))
				return
			}
			max := uint32(0)
			pinnedRefused, doubles := 0, 0
			n := rapid.IntRange(1, 60).Draw(rt, "n")
			if kit.Even(rt, 200, "long") == 0 {
				n = kit.Even(rt, 1500, "n")
			}
			kit.Within(kit.Patience, "checkpoint operations", func() {
				for i := 0; i < n; i++ {
					switch rapid.IntRange(0, 7).Draw(rt, "op") {
					case 0, 1:
						h, x := height("add"), hash("hash")
						err := cp.AddCheckpoint(h, x)
						if _, ok := pts[h]; ok {
							doubles++
							if err == nil {
								rt.Fatalf("second checkpoint at %d accepted", h)
							}
							continue
						}
						if err != nil {
							rt.Fatalf("checkpoint at %d refused: %v", h, err)
						}
						pts[h] = x
						if h > max {
							max = h
						}
					case 2, 3:
						h, x := height("check"), hash("hash")
						if p, ok := pts[h]; ok && rapid.Bool().Draw(rt, "right") {
							x = p
							x[0] ^= byte(rapid.SampledFrom([]int{0, 0, 0, 1, 128}).Draw(rt, "flip"))
						}
						keep := x
						err := cp.CheckBlock(h, &x)
						p, ok := pts[h]
						if (err == nil) != (!ok || p == x) {
							rt.Fatalf("block %x at %d (pinned %v %x): %v", x, h, ok, p, err)
						}
						if err != nil {
							pinnedRefused++
						}
						if x != keep {
							rt.Fatalf("hash changed")
						}
					case 4:
						h := height("zone")
						// a set whose only height is genesis pins nothing beyond it
						if len(pts) == 1 && max == 0 && h == 0 {
							continue
						}
						if got := cp.IsInCheckpointZone(h); got != (len(pts) > 0 && h <= max) {
							rt.Fatalf("zone of %d is %v with highest checkpoint %d of %d", h, got, max, len(pts))
						}
					default:
						size, h := height("size"), height("alt")
						if rapid.Bool().Draw(rt, "close") {
							d := int64(size) + int64(rapid.IntRange(-12, 2).Draw(rt, "depth"))
							if d >= 0 && d < 1<<32 {
								h = uint32(d)
							}
						}
						want := h != 0
						if size > config.MinedMoneyUnlockWindow && h < size-config.MinedMoneyUnlockWindow && !(len(pts) > 0 && max != 0 && h <= max) {
							want = false
						}
						for p := range pts {
							if p <= size && h <= p {
								want = false
							}
						}
						if err := cp.AlternativeBlockAllowed(size, h); (err == nil) != want {
							rt.Fatalf("alternative block at %d on a chain of %d with checkpoints %v: %v", h, size, pts, err)
						}
					}
				}
				// nothing above may have moved a pin
				for h, p := range pts {
					if err := cp.CheckBlock(h, &p); err != nil {
						rt.Fatalf("pinned block at %d refused: %v", h, err)
					}
					p[5] ^= 1
					if err := cp.CheckBlock(h, &p); err == nil {
						rt.Fatalf("other block at %d accepted", h)
					}
				}
			})
			if len(pts) > 0 {
				c.Hit(n, base, max, len(pts), pinnedRefused, doubles, len(pts))
				c.Sample("%d operations, %d checkpoints up to %d, %d blocks refused, %d doubles", n, len(pts), max, pinnedRefused, doubles)
			}
			c.Label(map[bool]string{true: "several checkpoints", false: "at most one"}[len(pts) > 1])
		})
}
