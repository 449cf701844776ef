//go:build go1.23

package p2p

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

type vBad struct {
	mu sync.Mutex
	l  []string
}

func (b *vBad) add(format string, a ...any) {
	b.mu.Lock()
	if len(b.l) < 20 {
		b.l = append(b.l, fmt.Sprintf(format, a...))
	}
	b.mu.Unlock()
}

func vTogether(what string, fs ...func()) {
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			f()
		}()
	}
	close(gate)
	kit.Within(kit.Patience, what, wg.Wait)
}

func TestVerifC30Store(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 6000,
		Rule: "2 to 6 goroutines moving peers of their own and shared ones between the lists while others list them: every list names each peer at most once and all those recorded before, the end is that of the last moves; under the race detector; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			ps := NewPeerStore()
			n := 2 + kit.Even(rt, 5, "goroutines")
			shared := []*Peer{{ID: 1}, {ID: 2}, {ID: 2}}
			settled := map[uint64]bool{}
			var before []*Peer
			for i := 0; i < 7; i++ { // recorded before; all but the last are moved, each by one goroutine
				p := &Peer{ID: uint64(10 + i)}
				before = append(before, p)
				_ = ps.toGrey(p)
				settled[p.ID] = false
			}
			bad := &vBad{}
			var fs []func()
			var mu sync.Mutex
			for i := 0; i < n; i++ {
				own := []*Peer{{ID: uint64(100 + 10*i)}, {ID: uint64(101 + 10*i)}, {}, before[i]}
				var moves [][2]int
				for k := 1 + kit.Even(rt, 20, "moves"); k > 0; k-- {
					moves = append(moves, [2]int{kit.Even(rt, 7, "peer"), kit.Even(rt, 2, "white")})
				}
				fs = append(fs, func() {
					for _, m := range moves {
						p := append(append([]*Peer{}, own...), shared...)[m[0]]
						var err error
						if m[1] == 1 {
							err = ps.toWhite(p)
						} else {
							err = ps.toGrey(p)
						}
						mu.Lock()
						if p.ID == 0 {
							if err == nil {
								bad.add("peer without ID recorded")
							}
						} else if p.ID >= 10 {
							if w, ok := settled[p.ID]; err != nil && (!ok || w != (m[1] == 1)) {
								bad.add("move of peer %d: %v", p.ID, err)
							}
							settled[p.ID] = m[1] == 1
						}
						mu.Unlock()
						runtime.Gosched()
					}
				})
			}
			for i := 0; i < 2; i++ {
				fs = append(fs, func() {
					for k := 0; k < 30; k++ {
						seen := map[uint64]int{}
						for _, e := range ps.toPeerEntries() {
							seen[e.ID]++
						}
						for id, n := range seen {
							if n != 1 || id == 0 {
								bad.add("peer %d listed %d times", id, n)
							}
						}
						for id := uint64(10); id < 17; id++ {
							if seen[id] != 1 {
								bad.add("peer %d not listed", id)
							}
						}
						runtime.Gosched()
					}
				})
			}
			vTogether("moves", fs...)
			if len(bad.l) > 0 {
				rt.Fatalf("%q", bad.l)
			}
			for id, w := range settled {
				if ps.white.Has(id) != w || ps.grey.Has(id) == w {
					rt.Fatalf("peer %d, last moved to white %v, is on white %v and grey %v", id, w, ps.white.Has(id), ps.grey.Has(id))
				}
			}
			c.Hit(fmt.Sprint(settled))
			c.Sample("%d goroutines, %d peers", n, len(settled))
		})
}

func TestVerifC30Node(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 40, Thorough: 800,
		Rule: "2 to 5 peers of one node, each with a goroutine of its own: handshake, chain entry and the same 1 to 12 blocks delivered by all at once, then timed syncs; every block is added once, every answer lists the node's chain as it grew, and the lists name each peer once; also up to 4 handshakes on one connection at once, of which one is admitted; under the race detector; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			s := vNewSync(rt, uint32(rapid.IntRange(0, 20).Draw(rt, "top")), rapid.Bool().Draw(rt, "zone"))
			s.more(1+kit.Even(rt, 12, "ahead"), false)
			if len(s.all) == 0 {
				rt.Skip("no block can follow")
			}
			n := 2 + kit.Even(rt, 4, "peers")
			bad := &vBad{}
			var fs []func()
			start := s.w.Top
			var hashes [][32]byte
			for h := start; h <= s.plan.Top; h++ {
				hashes = append(hashes, s.plan.Recs[h].Hash)
			}
			entry := vEntry(start, s.plan.Top+1, hashes)
			for i := 0; i < n; i++ {
				conn := &vConn{}
				p := NewPeer(s.n.logger, &LevinProtocol{conn}, NetworkAddress{uint32(i + 1), 1}, true)
				h := vHello{network: s.w.Net.NetworkID, version: s.w.Net.P2PCurrentVersion, id: uint64(i + 1), height: s.plan.Top + 1, top: s.plan.Recs[s.plan.Top].Hash}
				hello, timed := h.request(), h.timed()
				var parts [][]byte // one block per answer, as requested at once they come at once
				var l []vGiven
				for _, b := range s.all {
					l = append(l, vOwn(b).vGiven)
				}
				parts = append(parts, vObjects(s.plan.Top+1, l))
				fs = append(fs, func() {
					if err := s.n.handleCommand(p, &LevinCommand{Command: 1001, Payload: hello}); err != nil {
						bad.add("handshake: %v", err)
						return
					}
					if err := s.n.ps.toWhite(p); err != nil {
						bad.add("white list: %v", err)
					}
					if err := s.n.handleNotification(p, &LevinCommand{Command: 2007, IsNotify: true, Payload: entry}); err != nil {
						bad.add("chain entry: %v", err)
						return
					}
					for _, b := range parts {
						// refused if another peer was first
						_ = s.n.handleNotification(p, &LevinCommand{Command: 2004, IsNotify: true, Payload: b})
					}
					p.Lock()
					p.state = PeerStateNormal
					p.Unlock()
					if err := s.n.handleCommand(p, &LevinCommand{Command: 1002, Payload: timed}); err != nil {
						bad.add("timed sync: %v", err)
					}
					if err := s.n.ps.toGrey(p); err != nil {
						bad.add("grey list: %v", err)
					}
				})
			}
			// handshakes at once on one connection
			conn := &vConn{}
			one := NewPeer(s.n.logger, &LevinProtocol{conn}, NetworkAddress{99, 1}, true)
			var mu sync.Mutex
			admitted := []uint64{}
			for i := kit.Even(rt, 5, "same"); i > 0; i-- {
				req := HandshakeRequest{}
				req.NodeData.NetworkID = s.w.Net.NetworkID
				req.NodeData.Version = s.w.Net.P2PCurrentVersion
				req.NodeData.PeerID = uint64(1000 + i)
				req.PayloadData.TopBlockHash = crypto.Hash(s.w.Recs[0].Hash)
				fs = append(fs, func() {
					if err := s.n.HandleHandshake(one, req); err == nil {
						mu.Lock()
						admitted = append(admitted, req.NodeData.PeerID)
						mu.Unlock()
					}
				})
			}
			tried := len(fs) > n
			for i := 0; i < 2; i++ {
				fs = append(fs, func() {
					low := uint32(0)
					for k := 0; k < 20; k++ {
						d := newSyncData(s.w.BC)
						if d.CurrentHeight < low {
							bad.add("height went from %d to %d", low, d.CurrentHeight)
						}
						low = d.CurrentHeight
						if r := s.plan.Recs[low-1]; r == nil || crypto.Hash(r.Hash) != d.TopBlockHash {
							bad.add("height %d with top %v", low, d.TopBlockHash)
						}
						runtime.Gosched()
					}
				})
			}
			vTogether("peers", fs...)
			if len(bad.l) > 0 {
				rt.Fatalf("%q", bad.l)
			}
			if tried && (len(admitted) != 1 || one.ID != admitted[0]) {
				rt.Fatalf("peers %v admitted on one connection, which has ID %d", admitted, one.ID)
			}
			for h := s.w.Top + 1; h <= s.plan.Top; h++ {
				s.w.Accept(s.blks[s.plan.Recs[h].Hash].cand)
				s.known[s.plan.Recs[h].Hash] = true
			}
			got := vIDs(s.n.ps.toPeerEntries())
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			var want []uint64
			for i := 0; i < n; i++ {
				want = append(want, uint64(i+1))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("listed %v, expected %v", got, want)
			}
			// whoever added a block goes on to the next, so that in the end all are added
			s.chain("in the end")
			c.Hit(fmt.Sprint(s.w.Recs[s.w.Top].Hash, n))
			c.Sample("%d peers, blocks %d to %d", n, start+1, s.plan.Top)
		})
}
