//go:build go1.23

package cryptonote_test

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

// complaints collected by goroutines.
type complaints struct {
	mu sync.Mutex
	l  []string
}

func (c *complaints) add(format string, a ...any) {
	c.mu.Lock()
	if len(c.l) < 20 {
		c.l = append(c.l, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// together runs the functions at once and waits for them.
func together(what string, fs ...func()) {
	kit.Within(kit.Patience, what, func() {
		var wg sync.WaitGroup
		var gate atomic.Int32
		for _, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate.Add(1)
				for int(gate.Load()) < len(fs) {
					runtime.Gosched()
				}
				f()
			}()
		}
		wg.Wait()
	})
}

// watch queries a chain until told to stop; what it saw is left behind.
type watch struct {
	tops   map[crypto.Hash]uint32 // hash to index
	at     map[uint32]crypto.Hash
	had    map[crypto.Hash]bool
	rounds int
}

func (s *watch) run(kind int, bc *cryptonote.BlockChain, st cryptonote.Storage, ask []crypto.Hash, stop *atomic.Bool, bad *complaints) {
	s.tops, s.at, s.had = map[crypto.Hash]uint32{}, map[uint32]crypto.Hash{}, map[crypto.Hash]bool{}
	low, lowTop := uint32(0), uint32(0)
	for i := 0; !stop.Load() || i == 0; i++ {
		s.rounds++
		switch (kind + i) % 6 {
		case 0:
			h := bc.Height()
			if h < low {
				bad.add("height went from %d back to %d", low, h)
			}
			low = h
		case 1:
			b := bc.TopBlock()
			x := *b.Hash()
			s.tops[x] = b.Index()
			if b.Index()+1 < low || b.Index() < lowTop {
				bad.add("top at %d after height %d and top at %d", b.Index(), low, lowTop)
			}
			if lowTop = b.Index(); lowTop+1 > low {
				low = lowTop + 1
			}
			if !bc.HaveBlock(&x) {
				bad.add("top block %d is not in the chain", b.Index())
			}
			if g := st.GetBlock(&x); g == nil || *g.Hash() != x || g.Index() != b.Index() {
				bad.add("top block %d is not in the storage", b.Index())
			}
			if g, err := st.HashAtIndex(b.Index()); err != nil || g == nil || *g != x {
				bad.add("top block %d is %v %v", b.Index(), g, err)
			}
		case 2:
			for _, x := range ask {
				have := bc.HaveBlock(&x)
				if s.had[x] && !have {
					bad.add("block %v disappeared", x)
				}
				s.had[x] = s.had[x] || have
				if b := st.GetBlock(&x); have && b == nil {
					bad.add("block %v is in the chain and not in the storage", x)
				}
			}
		case 3:
			l, err := bc.BuildSparseChain()
			if err != nil || len(l) == 0 {
				bad.add("sparse chain %v %v", l, err)
				continue
			}
			for _, x := range l {
				b := st.GetBlock(&x)
				if b == nil {
					bad.add("sparse chain lists %v, which is not stored", x)
					continue
				}
				s.tops[x] = b.Index()
			}
			// all as they stand in one chain, that of the first
			want := []uint32{s.tops[l[0]]}
			for d := uint32(1); d < want[0]; d *= 2 {
				want = append(want, want[0]-d)
			}
			if want[0] > 0 {
				want = append(want, 0)
			}
			var is []uint32
			for _, x := range l {
				is = append(is, s.tops[x])
			}
			if fmt.Sprint(is) != fmt.Sprint(want) {
				bad.add("sparse chain lists %v of a chain up to %d", is, want[0])
			}
			if s.tops[l[len(l)-1]] != 0 {
				bad.add("sparse chain ends at %d", s.tops[l[len(l)-1]])
			}
			if t := s.tops[l[0]]; t+1 < low {
				bad.add("sparse chain begins at %d after height %d", t, low)
			}
		case 4:
			i, err := st.TopIndex()
			b, err2 := st.TopBlock()
			if err != nil || err2 != nil || b.Index() < i {
				bad.add("storage top %d %v, then block %d %v", i, err, b.Index(), err2)
			}
			for h := i; h+3 > i && h > 0; h-- {
				x, err := st.HashAtIndex(h)
				if err != nil || x == nil {
					bad.add("no block at %d below the top %d: %v", h, i, err)
					continue
				}
				if y, ok := s.at[h]; ok && y != *x {
					bad.add("block %d changed from %v to %v", h, y, *x)
				}
				s.at[h] = *x
			}
		case 5:
			g, err := bc.GenesisBlock()
			if err != nil || g.Index() != 0 {
				bad.add("genesis %v %v", g, err)
			}
			_ = bc.Checkpoints.IsInCheckpointZone(low)
			_ = bc.Checkpoints.AlternativeBlockAllowed(low+20, low)
		}
		if i%8 == 0 {
			runtime.Gosched()
		}
	}
}

// opened is a storage that is in use already.
type opened struct{ cryptonote.Storage }

func (opened) Init(*cryptonote.Block) error { return nil }

func TestVerifC30Chain(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 30, Thorough: 600,
		Rule: "a chain of 1 to 60 blocks growing by up to 8 rounds, in each of which 2 to 6 goroutines offer, at once, rival valid successors, the same successor, blocks added before and broken ones, while 2 to 4 others query chain, storage and checkpoints, one asks for the block that a storage, slow in some cases, is taking, one adds checkpoints and two offer a broken block to a second chain over the same storage; exactly one successor is added per round, and readers see only added blocks, never a lower height; under the race detector; non-trivial: at least one round with rivals"},
		func(rt *rapid.T, c *kit.Case) {
			disk := &chaingen.Faulty{}
			w := chaingen.New(rt, chaingen.Options{Top: uint32(rapid.IntRange(0, 60).Draw(rt, "top")), Zone: rapid.Bool().Draw(rt, "zone"), Wrap: disk.Wrapper})
			first := w.Top
			var stop atomic.Bool
			bad := &complaints{}
			// a storage that takes its time
			slow := time.Duration(kit.Even(rt, 3, "slow")) * time.Millisecond
			var storing atomic.Pointer[crypto.Hash]
			disk.Before = func(b *cryptonote.Block) error {
				x := *b.Hash()
				storing.Store(&x)
				time.Sleep(slow)
				return nil
			}
			disk.After = func(*cryptonote.Block) { time.Sleep(slow) }
			var readers sync.WaitGroup
			ws := make([]*watch, 2+kit.Even(rt, 3, "readers"))
			accepted := map[crypto.Hash]bool{}
			for _, r := range w.Recs {
				accepted[r.Hash] = true
			}
			var ask []crypto.Hash
			ask = append(ask, crypto.Hash{1}, w.Recs[w.Top].Hash, w.Recs[0].Hash)
			for i := range ws {
				ws[i] = &watch{}
				readers.Add(1)
				go func() {
					defer readers.Done()
					ws[i].run(i, w.BC, w.Store, ask, &stop, bad)
				}()
			}
			var caught atomic.Int32
			readers.Add(1)
			go func() { // asks for what is being stored
				defer readers.Done()
				for !stop.Load() {
					if x := storing.Load(); x != nil {
						had := w.BC.HaveBlock(x)
						height, top := w.BC.Height(), w.BC.TopBlock()
						if !had {
							caught.Add(1)
						} else if b := w.Store.GetBlock(x); b == nil || height <= b.Index() || top.Index() < b.Index() {
							bad.add("block %v is in the chain, whose height is %d and top at %d", x, height, top.Index())
						}
					}
					runtime.Gosched()
				}
			}()
			readers.Add(1)
			go func() { // far from any block
				defer readers.Done()
				for h := uint32(900000); !stop.Load() && h < 900400; h++ {
					if err := w.BC.Checkpoints.AddCheckpoint(h, crypto.Hash{2}); err != nil && h >= 900000 {
						bad.add("checkpoint %d: %v", h, err)
					}
					runtime.Gosched()
				}
			}()
			// another chain over the same storage, which refuses what it is offered
			mirror := cryptonote.NewBlockChain(w.Net, opened{w.Store}, chaingen.Logger())
			if err := mirror.Init(); err != nil {
				rt.Fatalf("second chain over the storage: %v", err)
			}
			if d, ok := w.Difficulty(); ok && d > 0 {
				v, _ := w.Valid(rt, 0, false)
				if len(v.B.Base.Out) > 0 {
					v.B.Base.Out[0].Amount++
					v.Sign()
					raw := v.Raw()
					var l []*cryptonote.Block
					for i := 0; i < 2; i++ {
						b, err := v.Block()
						if err != nil {
							rt.Fatalf("VERIF-INFRA %v", err)
						}
						l = append(l, b)
					}
					for _, b := range l {
						readers.Add(1)
						go func() {
							defer readers.Done()
							for !stop.Load() {
								if p := kit.Try(func() {
									if err := mirror.AddBlock(b, raw); err == nil {
										bad.add("a broken block was added")
									}
								}); p != nil {
									bad.add("AddBlock of a second chain panicked: %v", p)
								}
								runtime.Gosched()
							}
						}()
					}
				}
			}
			finish := func() {
				stop.Store(true)
				kit.Within(kit.Patience, "readers", readers.Wait)
			}
			defer finish()
			rivals := 0
			var past []*chaingen.Cand
			for round := rapid.IntRange(1, 8).Draw(rt, "rounds"); round > 0; round-- {
				if d, ok := w.Difficulty(); !ok || d == 0 {
					break
				}
				type offered struct {
					cand  *chaingen.Cand
					blk   *cryptonote.Block
					valid bool
					err   error
				}
				var l []*offered
				add := func(v *chaingen.Cand, valid bool) {
					b, err := v.Block()
					if err != nil {
						rt.Fatalf("VERIF-INFRA %v", err)
					}
					l = append(l, &offered{cand: v, blk: b, valid: valid})
				}
				n := 2 + kit.Even(rt, 5, "offers")
				for i := 0; i < n; i++ {
					switch k := kit.Even(rt, 6, "offer"); {
					case i == 0 || k <= 2:
						v, _ := w.Valid(rt, 0, false)
						add(v, true)
					case k == 3 && len(past) > 0:
						add(past[kit.Even(rt, len(past), "past")], false)
					case k == 4:
						v, _ := w.Valid(rt, 0, false)
						if len(v.B.Base.Out) == 0 {
							continue
						}
						v.B.Base.Out[0].Amount++
						v.Sign()
						add(v, false)
					default:
						add(l[kit.Even(rt, len(l), "same")].cand, l[len(l)-1].valid && false)
						l[len(l)-1].valid = true
						for _, o := range l[:len(l)-1] {
							if o.cand == l[len(l)-1].cand {
								l[len(l)-1].valid = o.valid
							}
						}
					}
				}
				var fs []func()
				valid := 0
				for _, o := range l {
					fs = append(fs, func() {
						if p := kit.Try(func() { o.err = w.BC.AddBlock(o.blk, o.cand.Raw()) }); p != nil {
							bad.add("AddBlock panicked: %v", p)
						}
					})
					if o.valid {
						valid++
					}
				}
				if valid > 1 {
					rivals++
				}
				together("adding blocks", fs...)
				won := 0
				for _, o := range l {
					if o.err == nil {
						won++
						if !o.valid {
							rt.Fatalf("a broken or repeated block was added")
						}
						w.Accept(o.cand)
						accepted[w.Recs[w.Top].Hash] = true
						past = append(past, o.cand)
					}
				}
				if won != 1 {
					finish()
					rt.Fatalf("%d of %d blocks for height %d were added (%d valid) %q", won, len(l), w.Top+1, valid, bad.l)
				}
				w.Check(rt, "after a round")
			}
			finish()
			if len(bad.l) > 0 {
				rt.Fatalf("%q", bad.l)
			}
			queries := 0
			for _, s := range ws {
				queries += s.rounds
				for x := range s.tops {
					if !accepted[x] {
						rt.Fatalf("a reader saw block %v, which was not added", x)
					}
				}
				for h, x := range s.at {
					if w.Recs[h] == nil || x != crypto.Hash(w.Recs[h].Hash) {
						rt.Fatalf("a reader saw block %v at %d, which was not added", x, h)
					}
				}
				if s.had[ask[0]] || !s.had[ask[1]] && s.rounds > 12 {
					rt.Fatalf("a reader saw an unknown block or missed a known one")
				}
			}
			if caught.Load() > 0 {
				c.Label("asked while storing")
			}
			if rivals > 0 {
				c.Hit(fmt.Sprint(w.Recs[w.Top].Hash))
				c.Sample("from %d to %d, %d queries meanwhile", first, w.Top, queries)
			}
		})
}

func TestVerifC30Storage(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 120, Thorough: 3000,
		Rule: "2 to 6 goroutines pushing the same and rival blocks for up to 12 heights into a memory storage in their own orders, while 2 others look blocks up: exactly one push per height succeeds, and lookups only ever see those; under the race detector; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			st := cryptonote.NewMemoryStorage()
			g := cngen.BlockOf(plainBlock(0, 99, [32]byte{}))
			if err := st.Init(g); err != nil {
				rt.Fatalf("Init: %v", err)
			}
			heights := 1 + kit.Even(rt, 12, "heights")
			n := 2 + kit.Even(rt, 5, "goroutines")
			type push struct {
				h    uint32
				blk  *cryptonote.Block
				hash crypto.Hash
				err  error
			}
			var all [][]*push
			hashes := map[crypto.Hash]uint32{}
			for i := 0; i < n; i++ {
				var l []*push
				for h := 1; h <= heights; h++ {
					b := cngen.BlockOf(plainBlock(uint32(h), uint32(kit.Even(rt, 3, "salt")), [32]byte{1}))
					p := &push{h: uint32(h), blk: b, hash: *b.Hash()}
					hashes[p.hash] = p.h
					l = append(l, p)
				}
				if rapid.Bool().Draw(rt, "shuffle") {
					l = rapid.Permutation(l).Draw(rt, "order")
				}
				all = append(all, l)
			}
			bad := &complaints{}
			var stop atomic.Bool
			var fs []func()
			var left atomic.Int32
			left.Store(int32(n))
			for _, l := range all {
				fs = append(fs, func() {
					for _, p := range l {
						info := cryptonote.NewBlockInfo(p.h, 5)
						info.Hash = p.hash
						if x := kit.Try(func() { p.err = st.PushBlock(p.blk, info, cryptonote.TransactionsDetails{}) }); x != nil {
							bad.add("PushBlock panicked: %v", x)
						}
						if at, err := st.HashAtIndex(p.h); err != nil || at == nil || p.err == nil && *at != p.hash {
							bad.add("pushed %v at %d, found %v %v", p.hash, p.h, at, err)
						}
					}
					if left.Add(-1) == 0 {
						stop.Store(true)
					}
				})
			}
			seen := make([]map[uint32]crypto.Hash, 2)
			for i := range seen {
				seen[i] = map[uint32]crypto.Hash{}
				fs = append(fs, func() {
					low := uint32(0)
					for !stop.Load() {
						if top, err := st.TopIndex(); err != nil || top < low {
							bad.add("top went from %d to %d %v", low, top, err)
						} else {
							low = top
						}
						for x, h := range hashes {
							have, b := st.HaveBlock(&x), st.GetBlock(&x)
							if have && (b == nil || *b.Hash() != x || b.Index() != h) {
								bad.add("block %v at %d is %v", x, h, b)
							}
							if at, _ := st.HashAtIndex(h); at != nil {
								if o, ok := seen[i][h]; ok && o != *at {
									bad.add("block %d changed", h)
								}
								seen[i][h] = *at
							} else if have {
								bad.add("block %v is stored, none at %d", x, h)
							}
						}
						runtime.Gosched()
					}
				})
			}
			together("pushing", fs...)
			if len(bad.l) > 0 {
				rt.Fatalf("%q", bad.l)
			}
			won := map[uint32]crypto.Hash{}
			for _, l := range all {
				for _, p := range l {
					if p.err == nil {
						if _, ok := won[p.h]; ok {
							rt.Fatalf("two blocks stored at %d", p.h)
						}
						won[p.h] = p.hash
					}
				}
			}
			for h := uint32(1); h <= uint32(heights); h++ {
				at, err := st.HashAtIndex(h)
				if x, ok := won[h]; !ok || err != nil || at == nil || *at != x {
					rt.Fatalf("block %d is %v %v, pushed %v %v", h, at, err, ok, x)
				}
				for i := range seen {
					if x, ok := seen[i][h]; ok && x != won[h] {
						rt.Fatalf("block %v seen at %d, pushed %v", x, h, won[h])
					}
				}
			}
			c.Hit(fmt.Sprint(won))
			c.Sample("%d goroutines, %d heights", n, heights)
		})
}
