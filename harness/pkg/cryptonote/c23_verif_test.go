//go:build go1.23

package cryptonote_test

import (
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func plainBlock(h uint32, salt uint32, prev [32]byte) *ref.Block {
	return &ref.Block{Major: 1, Timestamp: uint64(h)*240 + 5, Nonce: salt, Prev: prev,
		Base: ref.Tx{Version: 1, Unlock: uint64(h) + 10, In: []ref.In{{Gen: true, Height: h}}, Out: []ref.Out{{Amount: 7, Key: [32]byte{1}}}}}
}

func TestVerifC23Storage(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 6000, Thorough: 150000,
		Rule: "histories of up to 60 operations on a fresh memory storage, with or without Init: pushes of new blocks at free, taken, neighbouring, far and extreme heights, of the same block again, of another block with the same height, of blocks whose info carries another hash or height, lookups by hash and height of stored, refused and unknown blocks, top queries; all against a map of the accepted pushes; non-trivial: at least one push accepted and one refused"},
		func(rt *rapid.T, c *kit.Case) {
			st := cryptonote.NewMemoryStorage()
			type entry struct {
				blk  *cryptonote.Block
				hash crypto.Hash
			}
			byIndex := map[uint32]entry{}
			known := []entry{} // every block ever offered
			stored := map[crypto.Hash]uint32{}
			var top uint32
			var heights []uint32
			if rapid.IntRange(0, 3).Draw(rt, "init") > 0 {
				g := cngen.BlockOf(plainBlock(0, 99, [32]byte{}))
				if err := st.Init(g); err != nil {
					rt.Fatalf("Init: %v", err)
				}
				e := entry{g, *g.Hash()}
				byIndex[0], stored[e.hash] = e, 0
				known, heights = append(known, e), append(heights, 0)
			}
			check := func(h uint32, what string) {
				got, err := st.HashAtIndex(h)
				e, ok := byIndex[h]
				if err != nil {
					rt.Fatalf("%s: HashAtIndex(%d): %v", what, h, err)
				}
				if ok != (got != nil) || ok && *got != e.hash {
					rt.Fatalf("%s: HashAtIndex(%d) = %v, expected %v %v", what, h, got, ok, e.hash)
				}
			}
			find := func(x crypto.Hash, what string) {
				h, ok := stored[x]
				if st.HaveBlock(&x) != ok {
					rt.Fatalf("%s: HaveBlock(%v) = %v", what, x, !ok)
				}
				b := st.GetBlock(&x)
				if ok != (b != nil) || ok && (*b.Hash() != x || b.Index() != h) {
					rt.Fatalf("%s: GetBlock(%v) = %v, expected %v", what, x, b, ok)
				}
			}
			checkTop := func(what string) {
				b, err := st.TopBlock()
				if err != nil {
					rt.Fatalf("%s: TopBlock: %v", what, err)
				}
				if len(byIndex) == 0 {
					if b != nil {
						rt.Fatalf("%s: top of an empty storage", what)
					}
					return
				}
				if b == nil || *b.Hash() != byIndex[top].hash {
					rt.Fatalf("%s: top is %v, expected block %d", what, b, top)
				}
				if i, err := st.TopIndex(); err != nil || i != top {
					rt.Fatalf("%s: top index is %d %v, expected %d", what, i, err, top)
				}
			}
			accepted, refused := 0, 0
			for i := rapid.IntRange(1, 60).Draw(rt, "operations"); i > 0; i-- {
				switch rapid.IntRange(0, 5).Draw(rt, "op") {
				case 0, 1, 2: // push
					var h uint32
					switch rapid.IntRange(0, 5).Draw(rt, "height") {
					case 0, 1:
						h = top + 1
					case 2:
						h = uint32(rapid.IntRange(0, 20).Draw(rt, "low"))
					case 3:
						h = top - uint32(rapid.IntRange(0, 3).Draw(rt, "below"))
					case 4:
						h = top + uint32(rapid.IntRange(2, 5).Draw(rt, "above"))
					default:
						h = kit.U32(rt, "any")
					}
					var e entry
					if len(known) > 0 && rapid.IntRange(0, 4).Draw(rt, "again") == 0 {
						e = rapid.SampledFrom(known).Draw(rt, "old")
						if rapid.Bool().Draw(rt, "copy") {
							// the same block decoded again
							r, err := cngen.RefBlock(e.blk)
							if err != nil {
								rt.Fatalf("VERIF-INFRA %v", err)
							}
							e.blk = cngen.BlockOf(r)
						}
						h = e.blk.Index()
					} else {
						e.blk = cngen.BlockOf(plainBlock(h, uint32(rapid.IntRange(0, 3).Draw(rt, "salt")), byIndex[h-1].hash))
						e.hash = *e.blk.Hash()
					}
					info := cryptonote.NewBlockInfo(h, 5)
					info.Hash = e.hash
					bad := false
					switch rapid.IntRange(0, 11).Draw(rt, "info") {
					case 0:
						info.Index = h + uint32(rapid.SampledFrom([]int{1, -1, 5, 1 << 31}).Draw(rt, "wrongIndex"))
						bad = true
					case 1:
						info.Hash[rapid.IntRange(0, 31).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
						bad = true
					case 2:
						info.Hash = crypto.Hash{}
						bad = true
					case 3: // that of another block
						if len(known) > 0 {
							o := rapid.SampledFrom(known).Draw(rt, "other")
							if o.hash != e.hash {
								info.Hash, bad = o.hash, true
								if rapid.Bool().Draw(rt, "otherIndex") {
									info.Index = o.blk.Index()
								}
							}
						}
					}
					_, dup := stored[e.hash]
					_, taken := byIndex[h]
					err := st.PushBlock(e.blk, info, cryptonote.TransactionsDetails{})
					if (err == nil) != (!bad && !dup && !taken) {
						rt.Fatalf("push at %d: %v; bad info %v, known hash %v, height taken %v", h, err, bad, dup, taken)
					}
					known = append(known, e)
					heights = append(heights, h, info.Index)
					if err == nil {
						accepted++
						byIndex[h], stored[e.hash] = e, h
						if len(byIndex) == 1 || h > top {
							top = h
						}
					} else {
						refused++
						find(info.Hash, "after a refused push")
						check(info.Index, "after a refused push")
					}
					find(e.hash, "after a push")
					check(h, "after a push")
					checkTop("after a push")
				case 3:
					h := kit.U32(rt, "lookup")
					if len(heights) > 0 && rapid.Bool().Draw(rt, "near") {
						h = rapid.SampledFrom(heights).Draw(rt, "lookup") + uint32(rapid.IntRange(-1, 1).Draw(rt, "delta"))
					}
					check(h, "lookup")
				case 4:
					x := crypto.Hash(kit.Arr32(rt, "hash"))
					if len(known) > 0 && rapid.Bool().Draw(rt, "offered") {
						x = rapid.SampledFrom(known).Draw(rt, "hash").hash
						if rapid.IntRange(0, 3).Draw(rt, "flip") == 0 {
							x[rapid.IntRange(0, 31).Draw(rt, "pos")] ^= 1
						}
					}
					find(x, "lookup")
				case 5:
					checkTop("query")
				}
			}
			for _, e := range known {
				find(e.hash, "in the end")
			}
			for _, h := range heights {
				check(h, "in the end")
			}
			checkTop("in the end")
			if accepted > 0 && refused > 0 {
				c.Hit(top, accepted, refused, len(known))
				c.Sample("%d pushes accepted, %d refused, top %d", accepted, refused, top)
			}
		})
}

// TestVerifC23Many is about storages of many blocks.
func TestVerifC23Many(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 50, Thorough: 600,
		Rule: "200 to 6000 blocks pushed in order, backwards or mixed, with repeated, rival and mislabelled pushes in between; the top after each push, and every lookup at the end, against a map; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			st := cryptonote.NewMemoryStorage()
			n := 200 + kit.Even(rt, 800, "blocks")
			if kit.Even(rt, 3, "more") == 0 {
				n = 200 + kit.Even(rt, 5800, "blocks")
			}
			order := kit.Even(rt, 3, "order")
			b := kit.Expand(rapid.Uint64().Draw(rt, "seed"), 8*n)
			at := func(i int) uint32 {
				switch order {
				case 1:
					return uint32(n - 1 - i)
				case 2:
					return uint32(i ^ 5)
				}
				return uint32(i)
			}
			blks := map[uint32]*cryptonote.Block{}
			top := uint32(0)
			push := func(blk *cryptonote.Block, h uint32, hash crypto.Hash, fits bool, what string) {
				info := cryptonote.NewBlockInfo(h, 5)
				info.Hash = hash
				if err := st.PushBlock(blk, info, cryptonote.TransactionsDetails{}); (err == nil) != fits {
					rt.Fatalf("%s at %d with %d blocks: %v", what, h, len(blks), err)
				}
			}
			for i := 0; i < n; i++ {
				h := at(i)
				x := b[8*i : 8*i+8]
				blk := cngen.BlockOf(plainBlock(h, uint32(x[0]), [32]byte{x[1]}))
				if i == 0 && h == 0 {
					if err := st.Init(blk); err != nil {
						rt.Fatalf("Init: %v", err)
					}
				} else {
					if x[2] < 20 {
						push(blk, h+1, *blk.Hash(), false, "push under another height")
					}
					if x[2] > 235 && len(blks) > 0 {
						push(blk, h, *blks[at(int(x[3])%i)].Hash(), false, "push under another hash")
					}
					push(blk, h, *blk.Hash(), true, "push")
				}
				blks[h] = blk
				top = max(top, h)
				if x[4] < 40 {
					old := at((int(x[5]) + 256*int(x[6])) % (i + 1))
					push(blks[old], old, *blks[old].Hash(), false, "same block")
					rival := cngen.BlockOf(plainBlock(old, 1000, [32]byte{1}))
					push(rival, old, *rival.Hash(), false, "rival block")
					if r := rival.Hash(); st.HaveBlock(r) || st.GetBlock(r) != nil {
						rt.Fatalf("refused block %d is in the storage", old)
					}
				}
				if tb, err := st.TopBlock(); err != nil || tb == nil || *tb.Hash() != *blks[top].Hash() {
					rt.Fatalf("top after %d pushes is %v %v, expected %d", i+1, tb, err, top)
				}
				if ti, err := st.TopIndex(); err != nil || ti != top {
					rt.Fatalf("top index after %d pushes is %d %v, expected %d", i+1, ti, err, top)
				}
			}
			for h, blk := range blks {
				hash := *blk.Hash()
				if got, err := st.HashAtIndex(h); err != nil || got == nil || *got != hash {
					rt.Fatalf("block %d of %d is %v %v, expected %v", h, n, got, err, hash)
				}
				if got := st.GetBlock(&hash); !st.HaveBlock(&hash) || got == nil || *got.Hash() != hash || got.Index() != h {
					rt.Fatalf("block %d of %d is not found: %v", h, n, got)
				}
			}
			for _, h := range []uint32{top + 1, top + 8, ^uint32(0)} {
				if got, err := st.HashAtIndex(h); err != nil || got != nil && blks[h] == nil {
					rt.Fatalf("block %d of %d is %v %v", h, n, got, err)
				}
			}
			c.Hit(n, order, b[:8])
			c.Sample("%d blocks, order %d", n, order)
		})
}
