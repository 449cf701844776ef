//go:build go1.23

package p2p

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

func vDrawHello(rt *rapid.T, w *chaingen.World) vHello {
	h := vHello{network: w.Net.NetworkID, version: w.Net.P2PMinimumVersion, id: uint64(1 + kit.Even(rt, 6, "id"))}
	if kit.Even(rt, 3, "anyID") == 0 {
		h.id = kit.U64(rt, "peerID")
	}
	if h.id == 0 {
		h.id = 5
	}
	switch kit.Even(rt, 8, "hello") {
	case 0:
		h.network[kit.Even(rt, 16, "networkByte")] ^= 1 << kit.Even(rt, 8, "networkBit")
	case 1:
		copy(h.network[:], kit.Blob(rt, 16, "network"))
	case 2:
		h.version = rapid.Byte().Draw(rt, "version")
	case 3:
		h.version = w.Net.P2PMinimumVersion - 1 + byte(kit.Even(rt, 4, "nearVersion"))
	}
	vDrawTop(rt, w, &h)
	return h
}

// vDrawTop draws the state of the peer's chain.
func vDrawTop(rt *rapid.T, w *chaingen.World, h *vHello) {
	own := w.Top + 1
	h.height = own
	h.top = w.Recs[w.Top].Hash
	switch kit.Even(rt, 4, "topKind") {
	case 0:
		at := uint32(kit.Even(rt, int(w.Top+1), "topAt"))
		h.height, h.top = at+1, w.Recs[at].Hash
	case 1, 2:
		h.top = vFake(rt)
	}
	switch kit.Even(rt, 5, "heightKind") {
	case 0:
		h.height = kit.U32(rt, "height")
	case 1:
		h.height = uint32(kit.Even(rt, int(own)+20, "height"))
	case 2:
		if d := uint32(8 + kit.Even(rt, 6, "behind")); d < own {
			h.height = own - d
		}
	}
}

// vOutcome of sync data: 0 known top, 1 synchronise, 2 drop.
func vOutcome(w *chaingen.World, h vHello) int {
	for _, r := range w.Recs {
		if r.Hash == h.top {
			return 0
		}
	}
	if own := w.Top + 1; h.height < own && own-h.height > 10 && w.Zone > 0 && h.height <= w.Zone {
		return 2
	}
	return 1
}

// vOwnState checks what the node says about itself.
func vOwnState(rt *rapid.T, w *chaingen.World, what string, nd *BasicNodeData, sd SyncData) {
	if nd != nil && (nd.NetworkID != w.Net.NetworkID || nd.Version != w.Net.P2PCurrentVersion) {
		rt.Fatalf("%s: node says network %x version %d", what, nd.NetworkID, nd.Version)
	}
	if sd.CurrentHeight != w.Top+1 || sd.TopBlockHash != crypto.Hash(w.Recs[w.Top].Hash) {
		rt.Fatalf("%s: node says height %d top %x, has %d %x", what, sd.CurrentHeight, sd.TopBlockHash, w.Top+1, w.Recs[w.Top].Hash)
	}
}

// vAnswer takes the payload out of an answer.
func vAnswer(rt *rapid.T, out []byte, command uint32, v any) {
	if len(out) < 33 || !bytes.Equal(out[:33], vPack(false, command, 1, 2, out[33:]).bytes()[:33]) {
		rt.Fatalf("answer to %d is %s", command, vSent(out))
	}
	if err := p2pbinary.Unmarshal(out[33:], v); err != nil {
		rt.Fatalf("answer to %d does not parse: %v", command, err)
	}
}

func TestVerifC29Incoming(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1500, Thorough: 30000,
		Rule: "up to 8 commands to one peer of a node with 1 to 101 blocks: handshakes of the same and other networks, versions around the least, known and unknown tops at heights around the limits of depth and checkpoints, repeated, on incoming and outgoing connections, between timed syncs; admission, drop, synchronisation, recorded peers and every answer are compared with the rules; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := vWorld(rt)
			n := vNode(w)
			var listed []uint64
			for i := kit.Even(rt, 4, "recorded"); i > 0; i-- {
				p := NewPeer(n.logger, nil, NetworkAddress{1, uint32(i)}, true)
				p.SetID(uint64(100 + i))
				if rapid.Bool().Draw(rt, "white") {
					_ = n.ps.toWhite(p)
				} else {
					_ = n.ps.toGrey(p)
				}
				listed = append([]uint64{uint64(100 + i)}, listed...)
			}
			conn := &vConn{}
			incoming := kit.Even(rt, 4, "outgoing") > 0
			p := NewPeer(n.logger, &LevinProtocol{conn}, NetworkAddress{2, 2}, incoming)
			admitted, syncing := false, -1
			for i := 1 + kit.Even(rt, 8, "commands"); i > 0; i-- {
				h := vDrawHello(rt, w)
				if admitted && kit.Even(rt, 3, "again") > 0 {
					h.network, h.version = w.Net.NetworkID, w.Net.P2PCurrentVersion
				}
				if syncing == 1 && kit.Even(rt, 3, "asked") == 0 { // the connection loop asks for the chain
					p.state = PeerStateSynchronizing
					syncing = 3
				}
				timed := kit.Even(rt, 3, "timed") == 0
				before := p.state
				cmd := &LevinCommand{Command: 1001, Payload: h.request()}
				if timed {
					cmd = &LevinCommand{Command: 1002, Payload: h.timed()}
				}
				conn.out.Reset()
				var err error
				kit.Within(kit.Patience, "command", func() {
					kit.NoPanic(rt, "command", func() { err = n.handleCommand(p, cmd) })
				})
				what := fmt.Sprintf("command %d %+v to a node at height %d, highest checkpoint %d, admitted %v", cmd.Command, h, w.Top+1, w.Zone, admitted)
				o := vOutcome(w, h)
				ok := true
				if timed {
					if admitted && syncing != 3 {
						ok = o != 2
						syncing = o
					}
				} else {
					ok = h.good(w.Net) && incoming && !admitted && o != 2
					if ok {
						admitted = true
						syncing = o
						if p.ID != h.id {
							rt.Fatalf("%s: peer got ID %d", what, p.ID)
						}
					}
				}
				c.Label(fmt.Sprintf("%v: %v", map[bool]string{true: "timed sync", false: "handshake"}[timed], ok))
				if (err == nil) != ok {
					rt.Fatalf("%s: %v", what, err)
				}
				if ids := vIDs(n.ps.toPeerEntries()); fmt.Sprint(ids) != fmt.Sprint(listed) {
					rt.Fatalf("%s: recorded peers are %v, were %v", what, ids, listed)
				}
				c.Hit(fmt.Sprintf("%+v %v %v %d", h, timed, ok, w.Top))
				c.Sample("%s: %v", what, err)
				w.Check(rt, what)
				if !ok {
					if p.state != PeerStateShutdown {
						rt.Fatalf("%s: not dropped", what)
					}
					if conn.out.Len() > 0 {
						rt.Fatalf("%s: dropped peer got %s", what, vSent(conn.out.Bytes()))
					}
					return
				}
				switch {
				case syncing == -1 || syncing == 3:
					if p.state != before {
						rt.Fatalf("%s: state went from %d to %d", what, before, p.state)
					}
				case (p.state == PeerStateSyncRequired) != (syncing == 1) || p.state == PeerStateShutdown || p.state == PeerStateBeforeHandshake:
					rt.Fatalf("%s: state is %d", what, p.state)
				}
				if timed {
					var res TimedSyncResponse
					vAnswer(rt, conn.out.Bytes(), 1002, &res)
					vOwnState(rt, w, what, nil, res.PayloadData)
					if ids := vIDs(res.Peers); fmt.Sprint(ids) != fmt.Sprint(listed) {
						rt.Fatalf("%s: answer lists peers %v of %v", what, ids, listed)
					}
					continue
				}
				var res HandshakeResponse
				vAnswer(rt, conn.out.Bytes(), 1001, &res)
				vOwnState(rt, w, what, &res.NodeData, res.PayloadData)
				if ids := vIDs(res.Peers); fmt.Sprint(ids) != fmt.Sprint(listed) {
					rt.Fatalf("%s: answer lists peers %v of %v", what, ids, listed)
				}
			}
		})
}

func TestVerifC29Outgoing(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1500, Thorough: 30000,
		Rule: "a handshake with a peer that answers with the same or another network, versions around the least, known and unknown tops, or with another command, no response, or damaged bytes: succeeds exactly with a compatible one, which then has its ID and state; the request is checked; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := vWorld(rt)
			n := vNode(w)
			h := vDrawHello(rt, w)
			body := h.response()
			pack := vPack(false, 1001, 1, 2, body)
			o := vOutcome(w, h)
			ok := h.good(w.Net) && o != 2
			kind := rapid.SampledFrom([]string{"proper", "proper", "proper", "command", "request", "cut", "signature"}).Draw(rt, "answer")
			b := pack.bytes()
			switch kind {
			case "command":
				pack.command = rapid.SampledFrom([]uint32{1002, 1003, 2001, 0, 1000}).Draw(rt, "command")
				b = pack.bytes()
				ok = false
			case "request":
				pack.flags = 1
				b = pack.bytes()
				ok = false
			case "cut":
				b = b[:kit.Even(rt, len(b), "cut")]
				ok = false
			case "signature":
				b[kit.Even(rt, 8, "at")] ^= 1 << kit.Even(rt, 8, "bit")
				ok = false
			}
			conn := &vConn{in: b, cuts: vCuts(rt)}
			p := NewPeer(n.logger, &LevinProtocol{conn}, NetworkAddress{2, 2}, false)
			var err error
			var res *HandshakeResponse
			kit.Within(kit.Patience, "handshake", func() {
				kit.NoPanic(rt, "handshake", func() { res, err = p.handshake(n) })
			})
			what := fmt.Sprintf("handshake with %+v (%s) by a node at height %d, highest checkpoint %d", h, kind, w.Top+1, w.Zone)
			if (err == nil) != ok || ok && res == nil {
				rt.Fatalf("%s: %v", what, err)
			}
			sent := conn.out.Bytes()
			if len(sent) < 33 || !bytes.Equal(sent[:33], vPack(true, 1001, 0, 1, sent[33:]).bytes()[:33]) {
				rt.Fatalf("%s: node sent %s", what, vSent(sent))
			}
			var req HandshakeRequest
			if err := p2pbinary.Unmarshal(sent[33:], &req); err != nil {
				rt.Fatalf("%s: request does not parse: %v", what, err)
			}
			vOwnState(rt, w, what, &req.NodeData, req.PayloadData)
			c.Label(fmt.Sprintf("%s %v", kind, ok))
			c.Hit(b)
			c.Sample("%s: %v", what, err)
			if !ok {
				if p.ID != 0 || len(n.ps.toPeerEntries()) != 0 {
					rt.Fatalf("%s: refused peer has ID %d, recorded %v", what, p.ID, n.ps.toPeerEntries())
				}
				return
			}
			if p.ID != h.id || (p.state == PeerStateSyncRequired) != (o == 1) || p.state == PeerStateShutdown || p.state == PeerStateBeforeHandshake {
				rt.Fatalf("%s: ID %d, state %d", what, p.ID, p.state)
			}
			if _, err := p.handshake(n); err == nil {
				rt.Fatalf("%s: second handshake", what)
			}
			if p.ID != h.id || p.state == PeerStateBeforeHandshake {
				rt.Fatalf("%s: after a second handshake ID %d, state %d", what, p.ID, p.state)
			}
		})
}

func TestVerifC29Store(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 2500, Thorough: 50000,
		Rule: "histories of up to 40 moves of up to 8 peers, some without ID, some sharing one, to the white and grey lists, compared with a map of the last moves; non-trivial: at least two peers and two moves"},
		func(rt *rapid.T, c *kit.Case) {
			ps := NewPeerStore()
			n := 1 + kit.Even(rt, 8, "peers")
			var peers []*Peer
			addr := map[uint64][]NetworkAddress{}
			for i := 0; i < n; i++ {
				p := &Peer{address: NetworkAddress{uint32(i + 1), kit.U32(rt, "port")}, isIncoming: rapid.Bool().Draw(rt, "incoming")}
				p.ID = uint64(kit.Even(rt, 9, "id"))
				if kit.Even(rt, 4, "anyID") == 0 {
					p.ID = kit.U64(rt, "peerID")
				}
				peers = append(peers, p)
				addr[p.ID] = append(addr[p.ID], p.address)
			}
			white := map[uint64]bool{}
			var log []string
			moves := 1 + kit.Even(rt, 40, "moves")
			for i := 0; i < moves; i++ {
				p := peers[kit.Even(rt, n, "peer")]
				toWhite := rapid.Bool().Draw(rt, "white")
				was, listed := white[p.ID]
				var err error
				kit.NoPanic(rt, "move", func() {
					if toWhite {
						err = ps.toWhite(p)
					} else {
						err = ps.toGrey(p)
					}
				})
				log = append(log, fmt.Sprintf("peer %d white %v: %v", p.ID, toWhite, err))
				switch {
				case p.ID == 0:
					if err == nil {
						rt.Fatalf("peer without ID recorded: %q", log)
					}
				case err != nil && (!listed || was != toWhite):
					rt.Fatalf("move failed: %q", log)
				default:
					white[p.ID] = toWhite
				}
				var got []PeerEntry
				kit.NoPanic(rt, "list", func() { got = ps.toPeerEntries() })
				var want []uint64
				for id, w := range white {
					want = append(want, id)
					if ps.white.Has(id) != w || ps.grey.Has(id) == w {
						rt.Fatalf("peer %d white %v grey %v: %q", id, ps.white.Has(id), ps.grey.Has(id), log)
					}
					l := ps.grey
					if w {
						l = ps.white
					}
					if x := l.Get(id); x == nil || x.ID != id {
						rt.Fatalf("peer %d is %v: %q", id, x, log)
					}
				}
				sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
				if fmt.Sprint(want) != fmt.Sprint(vIDs(got)) {
					rt.Fatalf("listed %v, expected %v: %q", vIDs(got), want, log)
				}
				now := uint64(time.Now().Unix())
				for _, e := range got {
					own := false
					for _, a := range addr[e.ID] {
						own = own || a == e.Address
					}
					if !own || e.LastSeen > now || e.LastSeen+3600 < now {
						rt.Fatalf("entry %+v at %d: %q", e, now, log)
					}
				}
			}
			if n > 1 && moves > 1 {
				c.Hit(fmt.Sprint(log))
				c.Sample("%q", log)
			}
		})
}

func TestVerifC29Many(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 6, Thorough: 60,
		Rule: "up to 3000 peers recorded white or grey, some moved: each is listed exactly once; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			ps := NewPeerStore()
			n := 200 + kit.Even(rt, 2800, "peers")
			s := kit.NewStream(kit.U64(rt, "seed"))
			white := map[uint64]bool{}
			for i := 1; i <= n; i++ {
				var b [3]byte
				s.Read(b[:])
				p := &Peer{ID: uint64(i)<<8 + uint64(b[0]), address: NetworkAddress{uint32(i), uint32(b[1])}}
				kit.NoPanic(rt, "move", func() {
					for ; b[2] > 100; b[2] /= 2 { // some are moved once or twice before
						_ = ps.toGrey(p)
						_ = ps.toWhite(p)
					}
					if white[p.ID] = b[2]&1 == 1; white[p.ID] {
						_ = ps.toWhite(p)
					} else {
						_ = ps.toGrey(p)
					}
				})
			}
			seen := map[uint64]bool{}
			for _, e := range ps.toPeerEntries() {
				if _, ok := white[e.ID]; !ok || seen[e.ID] || uint64(e.Address.IP) != e.ID>>8 {
					rt.Fatalf("%d peers: entry %+v, seen before %v", n, e, seen[e.ID])
				}
				seen[e.ID] = true
			}
			if len(seen) != n {
				rt.Fatalf("%d of %d peers are listed", len(seen), n)
			}
			for id, w := range white {
				if ps.white.Has(id) != w || ps.grey.Has(id) == w {
					rt.Fatalf("%d peers: %d is white %v grey %v", n, id, ps.white.Has(id), ps.grey.Has(id))
				}
			}
			c.Hit(n, fmt.Sprint(len(seen)))
			c.Sample("%d peers", n)
		})
}

// vDotted tells the address in a packed entry: four octets and the port, then ID and time.
func vDotted(rt *rapid.T, e PeerEntry) string {
	b, err := p2pbinary.Marshal(struct {
		Peers []PeerEntry `binary:"l,binary"`
	}{[]PeerEntry{e}})
	if err != nil || len(b) < 24 {
		rt.Fatalf("entry %+v: %v", e, err)
	}
	b = b[len(b)-24:]
	return fmt.Sprintf("%d.%d.%d.%d:%d", b[0], b[1], b[2], b[3], binary.LittleEndian.Uint32(b[4:]))
}

func TestVerifC29Address(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 200000,
		Rule: "any IPv4 address and port, in 4 or 16 bytes, as a peer's: kept, printed and packed with the octets in order and the whole port; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			ip := net.IP(kit.Blob(rt, 4, "ip"))
			long := rapid.Bool().Draw(rt, "long")
			if long {
				ip = ip.To16()
			}
			addr := &net.TCPAddr{IP: ip, Port: kit.Even(rt, 65536, "port")}
			ps := NewPeerStore()
			p := &Peer{ID: 1 + uint64(kit.U32(rt, "id"))}
			kit.NoPanic(rt, "address", func() {
				p.address = NetworkAddressFromTCPAddr(addr)
				_ = ps.toWhite(p)
			})
			c.Hit(addr.String())
			c.Sample("%s", addr)
			l := ps.toPeerEntries()
			if len(l) != 1 || l[0].ID != p.ID || vDotted(rt, l[0]) != addr.String() || l[0].Address.String() != addr.String() {
				rt.Fatalf("peer at %s (%d bytes) listed as %+v, %s, packed as %s", addr, len(ip), l, l[0].Address.String(), vDotted(rt, l[0]))
			}
		})
}

// vScript is what a client of a running node does.
type vScript struct {
	hellos   []vHello
	timed    []bool
	admitted bool
	dropped  bool   // by what it says
	slow     bool   // sends everything at once, or waits for each answer
	out      bool   // the node calls
	at       string // address of this side
}

func TestVerifC29Session(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1, Thorough: 6,
		Rule: "a running node on the loopback network with 48 clients at a time, each making up to 3 commands of which any may be a bad handshake, and 16 servers it calls: dropped ones see the connection end, admitted ones are answered, and in the end the lists hold exactly those admitted once, each called one white while connected and all grey at the end; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := vWorld(rt)
			n := vNode(w)
			n.Config.BindAddr = "127.0.0.1:0"
			var scripts []*vScript
			for i := 0; i < 64; i++ {
				s := &vScript{out: i >= 48, slow: rapid.Bool().Draw(rt, "slow")}
				for j := 1 + kit.Even(rt, 3, "commands"); j > 0 && !s.dropped; j-- {
					h := vDrawHello(rt, w)
					h.id = uint64(1000 + i)
					timed := s.admitted && kit.Even(rt, 3, "timed") > 0
					s.hellos, s.timed = append(s.hellos, h), append(s.timed, timed)
					if s.out {
						s.admitted = h.good(w.Net) && vOutcome(w, h) != 2
						break
					}
					o := vOutcome(w, h)
					if timed {
						// once the node synchronises, more sync data is not looked at
						for k := range s.hellos[:len(s.hellos)-1] {
							if vOutcome(w, s.hellos[k]) == 1 {
								o = 1
							}
						}
						s.dropped = o == 2
						continue
					}
					if !h.good(w.Net) || o == 2 || s.admitted {
						s.dropped = true
					} else {
						s.admitted = true
					}
				}
				scripts = append(scripts, s)
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			addr, done := vListen(rt, n, ctx)
			var mu sync.Mutex
			var bad []string
			fail := func(format string, a ...any) {
				mu.Lock()
				bad = append(bad, fmt.Sprintf(format, a...))
				mu.Unlock()
			}
			var wg sync.WaitGroup
			for _, s := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if s.out {
						s.serve(n, w, fail)
					} else {
						s.call(addr, w, fail)
					}
				}()
			}
			kit.Within(2*kit.Patience, "sessions", wg.Wait)
			want, maybe := []uint64{}, map[uint64]bool{}
			for _, s := range scripts {
				if s.admitted {
					want = append(want, s.hellos[0].id)
				} else if s.hellos[0].good(w.Net) {
					maybe[s.hellos[0].id] = true // compatible, but too far behind
				}
				c.Label(fmt.Sprintf("called %v admitted %v dropped %v", s.out, s.admitted, s.dropped))
				c.Hit(fmt.Sprintf("%+v", *s))
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			// the loops of the node notice the end of a connection within seconds
			var got []uint64
			settled := vWait(func() bool {
				n.ps.RLock()
				white := len(n.ps.white.peers)
				n.ps.RUnlock()
				got = nil
				for _, id := range vIDs(n.ps.toPeerEntries()) {
					if !maybe[id] {
						got = append(got, id)
					}
				}
				return white == 0 && len(got) >= len(want)
			})
			if !settled || fmt.Sprint(got) != fmt.Sprint(want) {
				fail("recorded %v, expected %v", got, want)
			}
			for _, e := range n.ps.toPeerEntries() {
				if at := scripts[e.ID-1000].at; e.Address.String() != at || vDotted(rt, e) != at {
					fail("peer %d at %s is listed at %s, packed as %s", e.ID, at, e.Address.String(), vDotted(rt, e))
				}
			}
			cancel()
			kit.Within(kit.Patience, "Run after its context ended", func() {
				if err := <-done; err != nil {
					fail("Run: %v", err)
				}
			})
			if len(bad) > 0 {
				rt.Fatalf("%q", bad)
			}
			c.Sample("64 sessions, %d admitted", len(want))
		})
}

// call is a client's session.
func (s *vScript) call(addr string, w *chaingen.World, fail func(string, ...any)) {
	conn, err := net.Dial("tcp4", addr)
	if err != nil {
		fail("VERIF-INFRA %v", err)
		return
	}
	defer conn.Close()
	s.at = conn.LocalAddr().String()
	answers := 0
	for i, h := range s.hellos {
		p := vPack(true, 1001, 0, 1, h.request())
		if s.timed[i] {
			p = vPack(true, 1002, 0, 1, h.timed())
		}
		if _, err := conn.Write(p.bytes()); err != nil {
			fail("node does not read: %v, %+v", err, s)
			return
		}
		last := i == len(s.hellos)-1
		if !s.dropped || !last {
			answers++
		}
		if s.slow && !last {
			if !s.await(conn, fail, 1) {
				return
			}
			answers--
		}
	}
	if !s.await(conn, fail, answers) {
		return
	}
	if s.dropped && !vEnded(conn) {
		fail("connection of a dropped peer stays open: %+v", s)
	}
}

// await a number of answers; requests for the chain may come between.
func (s *vScript) await(conn net.Conn, fail func(string, ...any), n int) bool {
	for n > 0 {
		number, _, _, err := vNext(conn)
		if err != nil {
			fail("no answer: %v, %+v", err, s)
			return false
		}
		if number == 2006 {
			continue
		}
		n--
	}
	return true
}

// serve is a session with a peer that the node calls.
func (s *vScript) serve(n *Node, w *chaingen.World, fail func(string, ...any)) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		fail("VERIF-INFRA %v", err)
		return
	}
	defer l.Close()
	s.at = l.Addr().String()
	called := make(chan bool)
	go func() {
		n.syncWithAddr(l.Addr().String())
		close(called)
	}()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(kit.Patience))
	conn, err := l.Accept()
	if err != nil {
		fail("not called: %v", err)
		return
	}
	defer conn.Close()
	if number, _, _, err := vNext(conn); err != nil || number != 1001 {
		fail("called with %d %v", number, err)
		return
	}
	h := s.hellos[0]
	if _, err := conn.Write(vPack(false, 1001, 1, 2, h.response()).bytes()); err != nil {
		fail("VERIF-INFRA %v", err)
		return
	}
	if !s.admitted {
		if !vEnded(conn) {
			fail("connection to a refused peer stays open: %+v", s)
		}
	} else {
		if !vWait(func() bool {
			n.ps.RLock()
			defer n.ps.RUnlock()
			return n.ps.white.Has(h.id) && !n.ps.grey.Has(h.id)
		}) {
			fail("peer is not on the white list: %+v", s)
		}
		conn.Close()
	}
	select {
	case <-called:
	case <-time.After(kit.Patience):
		fail("session with a peer that went away does not end: %+v", s)
	}
}
