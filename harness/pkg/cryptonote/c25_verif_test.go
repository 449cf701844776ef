//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// planned is a block made for a certain parent.
type planned struct {
	cand   *chaingen.Cand
	hash   [32]byte
	height uint32
	added  bool
}

func TestVerifC25History(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 6000,
		Rule: "histories of up to 25 offers on chains starting at genesis or at any height: blocks of a plan made ahead, in order, early, repeated or after a rival took their height, rivals on the top and on older blocks, blocks breaking one rule, valid ones the storage fails to take, decoded anew each time; a block is added exactly when it is a valid successor of the top, and after every offer height, top, links and the membership of every block ever seen are compared with the list of accepted blocks; non-trivial: at least two blocks added and two refused"},
		func(rt *rapid.T, c *kit.Case) {
			zone := rapid.Bool().Draw(rt, "zone")
			top := chaingen.DrawTop(rt)
			if kit.Even(rt, 3, "low") == 0 {
				top = uint32(rapid.IntRange(0, 3).Draw(rt, "lowTop"))
			}
			disk := &chaingen.Faulty{}
			w := chaingen.New(rt, chaingen.Options{Top: top, Zone: zone, Wrap: disk.Wrapper})
			first := w.Top
			var all []*planned
			valid := func(p *chaingen.World) *planned {
				txs := 0
				if zone {
					txs = rapid.IntRange(0, 2).Draw(rt, "txs")
				}
				v, _ := p.Valid(rt, txs, kit.Even(rt, 10, "big") == 0 && p.Top < 59990)
				x := &planned{cand: v, hash: v.B.Hash(), height: p.Top + 1}
				all = append(all, x)
				return x
			}
			var plan []*planned
			replan := func() {
				plan = nil
				p := w.Plan()
				for i := rapid.IntRange(1, 4).Draw(rt, "ahead"); i > 0; i-- {
					if d, ok := p.Difficulty(); !ok || d == 0 {
						return
					}
					x := valid(p)
					plan = append(plan, x)
					p.Accept(x.cand)
				}
			}
			members := func(when string) {
				w.Check(rt, when)
				for _, x := range all {
					h := crypto.Hash(x.hash)
					if w.BC.HaveBlock(&h) != x.added {
						rt.Fatalf("%s: HaveBlock of a block for height %d is %v", when, x.height, !x.added)
					}
					if b := w.Store.GetBlock(&h); (b != nil) != x.added || b != nil && b.Index() != x.height {
						rt.Fatalf("%s: GetBlock of a block for height %d is %v", when, x.height, b)
					}
				}
				for h := first; h <= w.Top; h++ {
					x := crypto.Hash(w.Recs[h].Hash)
					at, err := w.Store.HashAtIndex(h)
					if err != nil || at == nil || *at != x || !w.BC.HaveBlock(&x) {
						rt.Fatalf("%s: block %d is %v %v, expected %v", when, h, at, err, x)
					}
					if b := w.Store.GetBlock(&x); b == nil || h > first && b.PreviousBlockHash != crypto.Hash(w.Recs[h-1].Hash) {
						rt.Fatalf("%s: block %d does not link to its parent", when, h)
					}
				}
			}
			added, refused := 0, 0
			offerPlanned := func(x *planned, when string) {
				should := !x.added && x.height == w.Top+1 && x.cand.B.Prev == w.Recs[w.Top].Hash
				if d, ok := w.Difficulty(); !ok {
					rt.Skip("difficulty outside the definition")
				} else if d == 0 {
					should = false
				}
				err := w.Add(rt, x.cand)
				if (err == nil) != should {
					rt.Fatalf("%s: block for height %d on top %d: %v, expected to be added: %v\n%s", when, x.height, w.Top, err, should, describe(w, x.cand, when))
				}
				if err == nil {
					w.Accept(x.cand)
					x.added = true
					added++
				} else {
					refused++
				}
			}
			replan()
			for i := rapid.IntRange(2, 25).Draw(rt, "offers"); i > 0; i-- {
				if len(plan) == 0 {
					replan()
				}
				if len(all) == 0 {
					return // the difficulty overflows
				}
				when := rapid.SampledFrom([]string{"next", "next", "next", "any", "again", "rival", "fork", "broken", "broken", "not stored"}).Draw(rt, "op")
				c.Label(when)
				switch when {
				case "next":
					if len(plan) > 0 {
						offerPlanned(plan[0], when)
						plan = plan[1:]
					}
				case "any": // early or late
					offerPlanned(all[kit.Even(rt, len(all), "which")], when)
				case "again":
					var l []*planned
					for _, x := range all {
						if x.added {
							l = append(l, x)
						}
					}
					if len(l) > 0 {
						offerPlanned(l[kit.Even(rt, len(l), "which")], when)
					}
				case "rival": // takes the place of the plan's next block
					if d, ok := w.Difficulty(); !ok || d == 0 {
						continue
					}
					x := valid(w)
					offerPlanned(x, when)
				case "fork": // a valid successor of an older block
					d := uint32(rapid.IntRange(1, 4).Draw(rt, "back"))
					if w.Top < d || w.Top-d < first {
						continue
					}
					p := w.Plan()
					p.Top -= d
					if d, ok := p.Difficulty(); !ok || d == 0 {
						continue
					}
					x := valid(p)
					offerPlanned(x, when)
					if rapid.Bool().Draw(rt, "childOfFork") {
						p.Accept(x.cand)
						if d, ok := p.Difficulty(); ok && d > 0 {
							offerPlanned(valid(p), "child of a fork")
						}
					}
				case "not stored":
					if d, ok := w.Difficulty(); !ok || d == 0 {
						continue
					}
					x := valid(w)
					if len(plan) > 0 && rapid.Bool().Draw(rt, "planned") {
						x = plan[0]
					}
					failure, asked := fmt.Errorf("disk full"), 0
					disk.Before = func(*cryptonote.Block) error { asked++; return failure }
					err := w.Add(rt, x.cand)
					disk.Before = nil
					if err == nil || asked == 0 && x.height == w.Top+1 && x.cand.B.Prev == w.Recs[w.Top].Hash {
						rt.Fatalf("block for height %d on top %d that the storage refuses: %v, %d attempts to store it", x.height, w.Top, err, asked)
					}
					refused++
				case "broken":
					if d, ok := w.Difficulty(); !ok || d == 0 {
						continue
					}
					v, shares := w.Valid(rt, 0, false)
					l := breaksOf(v.B.Major, 0)
					kind := l[kit.Even(rt, len(l), "break")]
					if o := violate(rt, w, v, shares, kind); o != nil && !o.valid {
						x := &planned{cand: o.cand, hash: o.cand.B.Hash(), height: 0}
						o.try(rt, w, kind)
						refused++
						known := false
						for h, r := range w.Recs {
							known = known || r.Hash == x.hash && h <= w.Top
						}
						for _, y := range all {
							known = known || y.hash == x.hash
						}
						// a change that the hash does not cover leaves a block that is valid with other transactions
						if !known && o.raw == nil && o.alter == nil {
							all = append(all, &planned{cand: o.cand, hash: x.hash, height: ^uint32(0)})
						}
					}
				}
				members(when)
			}
			if added >= 2 && refused >= 2 {
				c.Hit(fmt.Sprint(w.Recs[w.Top].Hash))
				c.Sample("from %d to %d, %d added, %d refused", first, w.Top, added, refused)
			}
		})
}

func TestVerifC25Long(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 12, Thorough: 150,
		Rule: "chains grown by 90 to 200 valid blocks from genesis or any height, so that every window of preceding blocks is filled with accepted ones, each step with a block paid a little too much or too early first; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			top := chaingen.DrawTop(rt)
			if rapid.Bool().Draw(rt, "genesis") {
				top = 0
			}
			w := chaingen.New(rt, chaingen.Options{Top: top})
			first := w.Top
			for i := rapid.IntRange(90, 200).Draw(rt, "blocks"); i > 0; i-- {
				if d, ok := w.Difficulty(); !ok || d == 0 {
					break
				}
				v, shares := w.Valid(rt, 0, w.Top < 60000 && kit.Even(rt, 3, "big") > 0 && i%4 < 3)
				if i%3 == 0 {
					if o := violate(rt, w, v, shares, rapid.SampledFrom([]string{"reward", "early"}).Draw(rt, "break")); o != nil && !o.valid {
						o.try(rt, w, "broken")
					}
				}
				o := &offer{cand: v, valid: true}
				if !o.try(rt, w, "valid block") {
					break
				}
			}
			for h := first; h <= w.Top; h++ {
				x := crypto.Hash(w.Recs[h].Hash)
				if at, err := w.Store.HashAtIndex(h); err != nil || at == nil || *at != x {
					rt.Fatalf("block %d is %v %v, expected %v", h, at, err, x)
				}
			}
			c.Hit(w.Top, w.Recs[w.Top].Hash)
			c.Label(fmt.Sprintf("%d blocks", (w.Top-first)/20*20))
			c.Sample("from %d to %d", first, w.Top)
		})
}

func TestVerifC25Memory(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 200, Thorough: 4000,
		Rule: "a chain with 0 to 6 blocks added, then a second chain over a storage filled with the same blocks: both accept and refuse the same offers afterwards; non-trivial: at least one block added"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt)})
			n := rapid.IntRange(0, 6).Draw(rt, "blocks")
			for i := 0; i < n; i++ {
				if d, ok := w.Difficulty(); !ok || d == 0 {
					rt.Skip("difficulty")
				}
				v, shares := w.Valid(rt, 0, false)
				// refused blocks leave nothing behind
				for j := rapid.IntRange(0, 4).Draw(rt, "refused"); j > 0; j-- {
					l := breaksOf(v.B.Major, 0)
					if o := violate(rt, w, v, shares, l[kit.Even(rt, len(l), "break")]); o != nil && !o.valid {
						o.try(rt, w, "broken")
					}
				}
				o := &offer{cand: v, valid: true}
				o.try(rt, w, "valid block")
			}
			second := w.Restart(rt)
			second.Check(rt, "restarted chain")
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			v, shares := w.Valid(rt, 0, false)
			l := breaksOf(v.B.Major, 0)
			kind := l[kit.Even(rt, len(l), "break")]
			if o := violate(rt, w, v, shares, kind); o != nil && o.alter == nil && o.raw == nil && o.late == nil {
				a, b := w.Add(rt, o.cand), second.Add(rt, o.cand)
				if (a == nil) != (b == nil) {
					rt.Fatalf("%s: %v by the chain, %v by one restarted with the same blocks\n%s", kind, a, b, describe(w, o.cand, kind))
				}
				if a == nil {
					w.Accept(o.cand)
					second.Accept(o.cand)
					if v, _ = w.Valid(rt, 0, false); v == nil {
						return
					}
				}
			}
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			for _, x := range []*chaingen.World{w, second} {
				o := &offer{cand: v, valid: true}
				o.try(rt, x, "valid block")
			}
			if n > 0 {
				c.Hit(v.B.Bytes())
				c.Sample("%d blocks below %d", n, w.Top)
			}
		})
}

func TestVerifC25Genesis(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 400, Thorough: 10000,
		Rule: "the main network, the test network and networks of random genesis transaction, time and nonce: a new chain holds exactly the genesis block of its network; networks whose genesis transaction is cut or has digits too many or foreign give an error; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			var g ref.Block
			g.Major, g.Nonce = 1, 70
			net := config.MainNet()
			kind := []string{"main", "test", "own", "own", "own", "broken"}[kit.Even(rt, 6, "network")]
			text := "010a01ff0001fac484c69cd608029b2e4c0281c0b02e7c53291a94d1d0cbff8883f8024f5142ee494ffbbd0880712101f904925cc23f86f9f3565188862275dc556a9bdfb6aec22c5aca7f0177c45ba8"
			_, key := chaingen.Key(kit.Even(rt, 12, "key"))
			g.Base = ref.Tx{Version: 1, Unlock: uint64(kit.Even(rt, 1000, "unlock")), In: []ref.In{{Gen: true}},
				Out:   []ref.Out{{Amount: 1 + kit.U64(rt, "amount")>>2, Key: key}},
				Extra: kit.Blob(rt, kit.Even(rt, 100, "size"), "extra")}
			switch kind {
			case "test":
				net, g.Nonce = config.TestNet(), 71
			case "own", "broken":
				text = hex.EncodeToString(g.Base.Bytes())
				if kind == "broken" {
					text = []string{text[:kit.Even(rt, len(text), "cut")], text + "g", text[:len(text)-1]}[kit.Even(rt, 3, "how")]
				} else if kit.Even(rt, 3, "upper") == 0 {
					text = strings.ToUpper(text)
				}
				g.Timestamp, g.Nonce = kit.U64(rt, "time")>>kit.Even(rt, 40, "small"), kit.U32(rt, "nonce")
				net.GenesisCoinbaseTxHex, net.GenesisTimestamp, net.GenesisNonce = text, g.Timestamp, g.Nonce
			}
			c.Label(kind)
			c.Hit(kind, text, g.Timestamp, g.Nonce)
			c.Sample("%s: time %d, nonce %d, %s", kind, g.Timestamp, g.Nonce, text)
			bc := cryptonote.NewBlockChain(net, cryptonote.NewMemoryStorage(), chaingen.Logger())
			if kind == "broken" {
				if err := bc.Init(); err == nil {
					rt.Fatalf("genesis transaction %q gives a chain", text)
				}
				return
			}
			raw, err := hex.DecodeString(text)
			if err != nil {
				rt.Fatalf("VERIF-INFRA %v", err)
			}
			if kind == "main" || kind == "test" {
				key := [32]byte{}
				copy(key[:], raw[14:46])
				g.Base = ref.Tx{Version: 1, Unlock: 10, In: []ref.In{{Gen: true}}, Out: []ref.Out{{Amount: 38146972656250, Key: key}}, Extra: raw[47:]}
				if !bytes.Equal(g.Base.Bytes(), raw) {
					rt.Fatalf("VERIF-INFRA genesis %x %x", g.Base.Bytes(), raw)
				}
			}
			early := kit.Even(rt, 2, "early") == 0
			if early {
				bc.GenesisBlock()
			}
			if err := bc.Init(); err != nil {
				rt.Fatalf("%s: %v", text, err)
			}
			hash := crypto.Hash(g.Hash())
			if kind == "main" && hex.EncodeToString(hash[:]) != "3125b79e4a42f8d4d2fc4dffea8442e185ebda940ecd4d3b449056a4ea0efea4" {
				rt.Fatalf("VERIF-INFRA genesis %x", hash)
			}
			for i := 0; i < 2; i++ {
				b, err := bc.GenesisBlock()
				if err != nil {
					rt.Fatalf("genesis: %v", err)
				}
				if got := b.Serialize(); !bytes.Equal(got, g.Bytes()) || *b.Hash() != hash || b.Index() != 0 {
					rt.Fatalf("genesis %x, expected %x", got, g.Bytes())
				}
			}
			top := bc.TopBlock()
			if bc.Height() != 1 || top == nil || *top.Hash() != hash || !bc.HaveBlock(&hash) {
				rt.Fatalf("a new chain has height %d and top %v", bc.Height(), top)
			}
			if l, err := bc.BuildSparseChain(); err != nil || len(l) != 1 || l[0] != hash {
				rt.Fatalf("a new chain is %x, %v", l, err)
			}
		})
}
