//go:build go1.23

package p2p

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// vBlk is a block that a peer may announce and deliver.
type vBlk struct {
	cand   *chaingen.Cand
	hash   [32]byte
	height uint32
	valid  bool // a successor of its parent with these transactions
}

// vRemote is a peer with what the rules of synchronisation say about it.
type vRemote struct {
	peer      *Peer
	conn      *vConn
	needed    [][32]byte
	requested [][32]byte
	last      uint32
	remote    uint32
	announced map[[32]byte]bool
	dropped   bool
}

type vSync struct {
	rt    *rapid.T
	w     *chaingen.World
	n     *Node
	peers []*vRemote
	known map[[32]byte]bool
	blks  map[[32]byte]*vBlk
	all   []*vBlk
	plan  *chaingen.World // ahead of the chain
}

func (s *vSync) newPeer() *vRemote {
	c := &vConn{}
	r := &vRemote{conn: c, announced: map[[32]byte]bool{},
		peer: NewPeer(s.n.logger, &LevinProtocol{c}, NetworkAddress{IP: 0x0100007f, Port: 1}, rapid.Bool().Draw(s.rt, "incoming"))}
	s.peers = append(s.peers, r)
	return r
}

// more plans n further blocks of the chain.
func (s *vSync) more(n int, txs bool) {
	for ; n > 0; n-- {
		if d, ok := s.plan.Difficulty(); !ok || d == 0 {
			return
		}
		k := 0
		if txs && kit.Even(s.rt, 2, "withTxs") == 0 {
			k = rapid.IntRange(1, 3).Draw(s.rt, "txs")
		}
		v, _ := s.plan.Valid(s.rt, k, false)
		b := &vBlk{cand: v, hash: v.B.Hash(), height: s.plan.Top + 1, valid: true}
		s.plan.Accept(v)
		s.add(b)
	}
}

func (s *vSync) add(b *vBlk) {
	if s.blks[b.hash] == nil {
		s.blks[b.hash] = b
		s.all = append(s.all, b)
	}
}

// vHashNode is a list of hashes in a message.
func vHashNode(l [][32]byte) *ref.PSNode {
	n := &ref.PSNode{Tag: ref.PSString}
	for _, h := range l {
		n.Blob = append(n.Blob, h[:]...)
	}
	return n
}

func vEntry(start, total uint32, l [][32]byte) []byte {
	t := vObj()
	t.num("start_height", ref.PSUint32, uint64(start))
	t.num("total_height", ref.PSUint32, uint64(total))
	t.field("m_block_ids", vHashNode(l))
	return ref.PSBytes(t.n)
}

type vGiven struct {
	block []byte
	txs   [][]byte
}

func vObjects(height uint32, l []vGiven) []byte {
	t := vObj()
	arr := &ref.PSNode{Tag: ref.PSObj, Array: true}
	for _, g := range l {
		o := vObj()
		o.blob("block", g.block)
		txs := &ref.PSNode{Tag: ref.PSString, Array: true}
		for _, x := range g.txs {
			txs.Items = append(txs.Items, &ref.PSNode{Tag: ref.PSString, Blob: x})
		}
		if len(txs.Items) > 0 {
			o.field("txs", txs)
		}
		arr.Items = append(arr.Items, o.n)
	}
	t.field("blocks", arr)
	t.num("current_blockchain_height", ref.PSUint32, uint64(height))
	return ref.PSBytes(t.n)
}

func vRequestChain(l [][32]byte) []byte {
	t := vObj()
	t.field("block_ids", vHashNode(l))
	return ref.PSBytes(t.n)
}

func vRequestObjects(l [][32]byte) []byte {
	t := vObj()
	t.field("txs", vHashNode(nil))
	t.field("blocks", vHashNode(l))
	return ref.PSBytes(t.n)
}

// sparse chain of the model.
func (s *vSync) sparse() (l [][32]byte) {
	top := s.w.Top
	l = append(l, s.w.Recs[top].Hash)
	for d := uint32(1); d < top; d *= 2 {
		l = append(l, s.w.Recs[top-d].Hash)
	}
	if top > 0 {
		l = append(l, s.w.Recs[0].Hash)
	}
	return
}

// tell hands a message to the node and compares what follows with what should.
func (s *vSync) tell(r *vRemote, number uint32, payload []byte, what string, fails, drops bool, answer []byte) {
	r.conn.out.Reset()
	kit.InFlight(what, payload)
	var err error
	kit.Within(kit.Patience, what, func() {
		kit.NoPanic(s.rt, what, func() {
			err = s.n.handleNotification(r.peer, &LevinCommand{Command: number, IsNotify: true, Payload: payload})
		})
	})
	got := r.conn.out.Bytes()
	if fails != (err != nil) {
		s.rt.Fatalf("%s: error %v, expected one: %v\nmessage %d %s", what, err, fails, number, vShort(payload))
	}
	if d := r.peer.state == PeerStateShutdown; drops && !d {
		s.rt.Fatalf("%s: peer not dropped (%v)\nmessage %d %s", what, err, number, vShort(payload))
	} else if d && !drops && !fails {
		s.rt.Fatalf("%s: peer dropped\nmessage %d %s", what, number, vShort(payload))
	} else if d {
		r.dropped = true
	}
	if !bytes.Equal(got, answer) {
		s.rt.Fatalf("%s: node sent %s\nexpected %s\nmessage %d %s", what, vSent(got), vSent(answer), number, vShort(payload))
	}
	s.chain(what)
}

// vSent describes sent packets.
func vSent(b []byte) string {
	if len(b) < 33 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("message %d of %d bytes %s", binary.LittleEndian.Uint32(b[17:]), len(b), vShort(b))
}

func (s *vSync) chain(what string) {
	s.w.Check(s.rt, what)
	for _, b := range s.all {
		h := crypto.Hash(b.hash)
		if s.n.Blockchain.HaveBlock(&h) != s.known[b.hash] {
			s.rt.Fatalf("%s: block for height %d in the chain: %v", what, b.height, !s.known[b.hash])
		}
	}
}

// request is what the node should ask for next.
func (s *vSync) request(r *vRemote, check bool) []byte {
	if len(r.needed) > 0 {
		var l [][32]byte
		for len(r.needed) > 0 && len(l) < 128 {
			if !check || !s.known[r.needed[0]] {
				l = append(l, r.needed[0])
			}
			r.needed = r.needed[1:]
		}
		if len(l) == 0 {
			return nil
		}
		r.requested = append(r.requested, l...)
		return vPack(false, 2003, 0, 1, vRequestObjects(l)).bytes()
	}
	if uint64(r.last)+1 < uint64(r.remote) {
		return vPack(false, 2006, 0, 1, vRequestChain(s.sparse())).bytes()
	}
	return nil
}

// entry announces a list.
func (s *vSync) entry(r *vRemote, start, total uint32, l [][32]byte, what string) {
	payload := vEntry(start, total, l)
	switch {
	case len(l) == 0 || !s.known[l[0]]:
		s.tell(r, 2007, payload, what, true, true, nil)
		return
	case uint64(start)+uint64(len(l))-1 > uint64(total):
		s.tell(r, 2007, payload, what, true, true, nil)
		return
	}
	r.last, r.remote = start+uint32(len(l))-1, total
	all := true
	for _, h := range l {
		r.announced[h] = true
		if all = all && s.known[h]; !all {
			r.needed = append(r.needed, h)
		}
	}
	s.tell(r, 2007, payload, what, false, false, s.request(r, false))
}

// vDelivery is what a peer gives for a requested block.
type vDelivery struct {
	hash [32]byte // of the block, if it decodes
	bad  bool     // does not decode
	blk  *vBlk
	vGiven
	intact bool // the block's own transactions
}

func vOwn(b *vBlk) vDelivery {
	return vDelivery{hash: b.hash, blk: b, intact: true, vGiven: vGiven{b.cand.B.Bytes(), b.cand.Raw()}}
}

// objects delivers blocks.
func (s *vSync) objects(r *vRemote, height uint32, l []vDelivery, what string) {
	var g []vGiven
	wrong := len(l) == 0 || r.last > height
	left := append([][32]byte{}, r.requested...)
	for _, d := range l {
		g = append(g, d.vGiven)
		found := false
		for i, h := range left {
			if h == d.hash && !d.bad {
				left = append(left[:i:i], left[i+1:]...)
				found = true
				break
			}
		}
		wrong = wrong || d.bad || !found || len(d.txs) != len(d.blk.cand.B.Txs)
	}
	wrong = wrong || len(left) > 0
	payload := vObjects(height, g)
	if wrong {
		s.tell(r, 2004, payload, what, true, true, nil)
		return
	}
	r.requested, r.remote = nil, height
	for _, d := range l {
		if !d.blk.valid || !d.intact || d.blk.height != s.w.Top+1 || d.blk.cand.B.Prev != s.w.Recs[s.w.Top].Hash || s.known[d.hash] {
			s.tell(r, 2004, payload, what+" (refused block)", true, false, nil)
			return
		}
		s.w.Accept(d.blk.cand)
		s.known[d.hash] = true
	}
	s.tell(r, 2004, payload, what, false, false, s.request(r, true))
}

func vFake(rt *rapid.T) (h [32]byte) {
	copy(h[:], kit.Expand(rapid.Uint64().Draw(rt, "fake"), 32))
	h[0] ^= 0x5a
	return
}

func vFiles(rt *rapid.T, before int) int {
	l, err := os.ReadDir(".")
	if err != nil {
		rt.Fatalf("VERIF-INFRA %v", err)
	}
	if before >= 0 && len(l) != before {
		rt.Fatalf("files appeared in the working directory: %v", l)
	}
	return len(l)
}

func vNewSync(rt *rapid.T, top uint32, zone bool) *vSync {
	s := &vSync{rt: rt, w: chaingen.New(rt, chaingen.Options{Top: top, Zone: zone}), known: map[[32]byte]bool{}, blks: map[[32]byte]*vBlk{}}
	for _, r := range s.w.Recs {
		s.known[r.Hash] = true
	}
	s.n = vNode(s.w)
	s.plan = s.w.Plan()
	return s
}

func TestVerifC28Sync(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 700, Thorough: 12000,
		Rule: "histories of up to 40 messages from up to 3 peers to a node with 1 to 380 blocks: chain entries over known, coming, broken and made-up blocks, answers to requests complete, shuffled, with broken blocks or one of 12 defects, blocks requested from another peer, chain requests, unrelated and damaged messages; after each, the error, the drop, every byte sent and the chain are compared with a model of the synchronisation; non-trivial: a block was added and a peer was dropped"},
		func(rt *rapid.T, c *kit.Case) {
			files := vFiles(rt, -1)
			zone := rapid.Bool().Draw(rt, "zone")
			top := uint32(rapid.IntRange(0, 12).Draw(rt, "top"))
			if kit.Even(rt, 4, "higher") == 0 {
				top = uint32(rapid.IntRange(13, 380).Draw(rt, "top"))
			}
			s := vNewSync(rt, top, zone)
			s.more(rapid.IntRange(1, 12).Draw(rt, "ahead"), zone)
			if len(s.all) == 0 {
				rt.Skip("no block can follow")
			}
			first, drops := s.w.Top, 0
			for i := rapid.IntRange(1, 40).Draw(rt, "messages"); i > 0; i-- {
				var r *vRemote
				var live []*vRemote
				for _, x := range s.peers {
					if !x.dropped {
						live = append(live, x)
					}
				}
				if len(live) == 0 || len(live) < 3 && kit.Even(rt, 8, "newPeer") == 0 {
					r = s.newPeer()
				} else {
					r = live[kit.Even(rt, len(live), "peer")]
				}
				ops := []string{"entry", "entry", "bad entry", "chain request", "noise", "unasked"}
				if len(r.requested) > 0 {
					ops = []string{"objects", "objects", "objects", "objects", "objects", "bad objects", "bad objects", "entry", "noise"}
				}
				op := ops[kit.Even(rt, len(ops), "op")]
				c.Label(op)
				s.step(r, op)
				if r.dropped {
					drops++
				}
				if s.w.Top == s.plan.Top || kit.Even(rt, 10, "replan") == 0 {
					if s.plan.Top == s.w.Top {
						s.plan = s.w.Plan()
					}
					s.more(rapid.IntRange(1, 4).Draw(rt, "ahead"), zone)
				}
			}
			vFiles(rt, files)
			if s.w.Top > first && drops > 0 {
				c.Hit(fmt.Sprint(s.w.Recs[s.w.Top].Hash, drops))
				c.Sample("%d peers, %d dropped, from height %d to %d", len(s.peers), drops, first, s.w.Top)
			}
		})
}

// broken makes a block for the height after the top that pays too much.
func (s *vSync) broken() *vBlk {
	if d, ok := s.w.Difficulty(); !ok || d == 0 {
		return nil
	}
	v, _ := s.w.Valid(s.rt, 0, false)
	if len(v.B.Base.Out) == 0 {
		return nil
	}
	v.B.Base.Out[0].Amount++
	v.Sign()
	b := &vBlk{cand: v, hash: v.B.Hash(), height: s.w.Top + 1}
	s.add(b)
	return b
}

// draw some list of hashes after a known one.
func (s *vSync) list() (start uint32, l [][32]byte) {
	rt := s.rt
	back := uint32(0)
	if kit.Even(rt, 3, "fromBelow") > 0 {
		back = uint32(rapid.IntRange(0, 140).Draw(rt, "back"))
	}
	if back > s.w.Top {
		back = s.w.Top
	}
	start = s.w.Top - back
	for h := start; h <= s.w.Top; h++ {
		l = append(l, s.w.Recs[h].Hash)
	}
	if kit.Even(rt, 8, "short") == 0 {
		l = l[:1+kit.Even(rt, len(l), "shortened")]
		return
	}
	ahead := 0
	for h := s.w.Top + 1; h <= s.plan.Top; h++ {
		l = append(l, s.plan.Recs[h].Hash)
		ahead++
	}
	if kit.Even(rt, 3, "notAll") == 0 && ahead > 0 {
		l = l[:len(l)-kit.Even(rt, ahead, "less")]
	}
	switch kit.Even(rt, 8, "listKind") {
	case 0: // a broken block
		if b := s.broken(); b != nil {
			at := len(l) - kit.Even(rt, ahead+1, "brokenAt")
			if at < 1 {
				at = 1
			}
			l = append(l[:at:at], append([][32]byte{b.hash}, l[at:]...)...)
		}
	case 1: // made-up blocks
		n := rapid.SampledFrom([]int{1, 2, 127, 128, 129, 200, 300}).Draw(rt, "fakes")
		for i := 0; i < n; i++ {
			h := vFake(rt)
			h[1], h[2] = byte(i), byte(i>>8)
			l = append(l, h)
			if n > 3 && i == 0 {
				x := h
				for i = 1; i < n; i++ {
					x[1], x[2] = byte(i), byte(i>>8)
					l = append(l, x)
				}
			}
		}
	case 2: // another order
		if n := len(l); n > 2 {
			a, b := 1+kit.Even(rt, n-1, "a"), 1+kit.Even(rt, n-1, "b")
			l[a], l[b] = l[b], l[a]
		}
	case 3: // blocks seen before, of any peer
		l = append(l, s.all[kit.Even(rt, len(s.all), "seen")].hash)
	case 4: // one twice
		l = append(l, l[kit.Even(rt, len(l), "again")])
	}
	return
}

func (s *vSync) step(r *vRemote, op string) {
	rt := s.rt
	switch op {
	case "entry":
		start, l := s.list()
		end := start + uint32(len(l)) - 1
		if kit.Even(rt, 10, "otherStart") == 0 {
			start = kit.U32(rt, "start") >> 1
			end = start + uint32(len(l)) - 1
		}
		total := end + uint32(rapid.SampledFrom([]int{0, 1, 1, 1, 2, 300}).Draw(rt, "further"))
		s.entry(r, start, total, l, op)
	case "bad entry":
		start, l := s.list()
		end := start + uint32(len(l)) - 1
		total := end + 1
		kind := rapid.SampledFrom([]string{"empty", "unknown root", "too long", "announced root"}).Draw(rt, "defect")
		switch kind {
		case "empty":
			l = nil
		case "unknown root":
			l[0] = vFake(rt)
		case "announced root":
			for _, b := range s.all {
				if !s.known[b.hash] {
					l[0] = b.hash
				}
			}
		case "too long":
			if end == 0 {
				return
			}
			total = end - uint32(1+kit.Even(rt, int(end), "missing"))
		}
		s.entry(r, start, total, l, kind)
	case "chain request":
		l := s.sparse()
		kind := rapid.SampledFrom([]string{"good", "good", "empty", "foreign"}).Draw(rt, "request")
		switch kind {
		case "empty":
			l = nil
		case "foreign":
			if k := kit.Even(rt, 3, "other"); k == 0 { // the genesis block stands elsewhere
				l = append(l, [][32]byte{vFake(rt), s.w.Recs[s.w.Top].Hash}[kit.Even(rt, 2, "end")])
				if l[len(l)-1] == s.w.Recs[0].Hash {
					return
				}
			} else if k == 1 || len(l) == 1 {
				l[len(l)-1] = vFake(rt)
			} else {
				l = l[:len(l)-1]
				if l[len(l)-1] == s.w.Recs[0].Hash {
					return
				}
			}
		}
		s.tell(r, 2006, vRequestChain(l), "chain request: "+kind, kind != "good", kind != "good", nil)
	case "unasked":
		b := s.all[kit.Even(rt, len(s.all), "block")]
		for i := s.w.Top + 1; i <= s.plan.Top; i++ {
			if x := s.blks[s.plan.Recs[i].Hash]; x != nil && rapid.Bool().Draw(rt, "next") {
				b = x
				break
			}
		}
		s.objects(r, r.last+uint32(kit.Even(rt, 3, "height")), []vDelivery{vOwn(b)}, op)
	case "noise":
		s.noise(r)
	case "objects", "bad objects":
		height := r.last + uint32(kit.Even(rt, 3, "above"))
		var l []vDelivery
		made := false
		for _, h := range r.requested {
			if b := s.blks[h]; b != nil {
				l = append(l, vOwn(b))
			} else {
				made = true
			}
		}
		if made { // nobody has it
			s.objects(r, height, l, "made-up blocks missing")
			return
		}
		if op == "objects" {
			switch kit.Even(rt, 8, "delivery") {
			case 0:
				a, b := kit.Even(rt, len(l), "a"), kit.Even(rt, len(l), "b")
				l[a], l[b] = l[b], l[a]
			case 1: // altered transactions
				d := &l[kit.Even(rt, len(l), "altered")]
				copies := 0
				for _, x := range l {
					if x.hash == d.hash {
						copies++
					}
				}
				if len(d.txs) > 0 && copies == 1 {
					x := d.txs[kit.Even(rt, len(d.txs), "tx")]
					x[kit.Even(rt, len(x), "at")] ^= byte(1 + kit.Even(rt, 255, "flip"))
					d.intact = false
				}
			}
			s.objects(r, height, l, op)
			return
		}
		kinds := []string{"none", "height", "cut", "noise block", "foreign", "twice", "more txs", "fewer txs", "missing", "other's", "emptied", "unknown block"}
		kind := kinds[kit.Even(rt, len(kinds), "defect")]
		at := kit.Even(rt, len(l), "at")
		switch kind {
		case "none":
			l = nil
		case "height":
			if r.last == 0 {
				return
			}
			height = r.last - uint32(1+kit.Even(rt, int(min(r.last, 1<<20)), "below"))
		case "cut":
			b := l[at].block
			l[at].block, l[at].bad = b[:kit.Even(rt, len(b), "cut")], true
		case "noise block":
			l[at].block, l[at].bad = append([]byte{9}, kit.Blob(rt, 60, "noise")...), true
		case "foreign", "unknown block":
			x := s.broken()
			if x == nil {
				return
			}
			if kind == "foreign" {
				l[at] = vOwn(x)
			} else {
				l = append(l, vOwn(x))
			}
		case "twice":
			l = append(l, l[at])
		case "more txs":
			l[at].txs = append(l[at].txs, []byte{1, 2, 3})
		case "fewer txs":
			if len(l[at].txs) == 0 {
				return
			}
			l[at].txs = l[at].txs[1:]
		case "missing":
			l = append(l[:at], l[at+1:]...)
		case "emptied":
			l[at].block, l[at].bad = nil, true
		case "other's":
			for _, o := range s.peers {
				for _, h := range o.requested {
					if b := s.blks[h]; o != r && b != nil {
						l = append(l, vOwn(b))
					}
				}
			}
		}
		s.objects(r, height, l, "objects: "+kind)
	}
}

// noise is a message that must change nothing.
func (s *vSync) noise(r *vRemote) {
	rt := s.rt
	r.conn.out.Reset()
	number := uint32(0)
	var payload []byte
	command := false
	mutate := false
	kind := rapid.SampledFrom([]string{"unrelated", "number", "bytes", "damaged", "damaged"}).Draw(rt, "noise")
	switch kind {
	case "unrelated":
		for {
			m := vMessages[kit.Even(rt, 10, "message")]
			if m.notify && m.number != 2004 && m.number != 2006 && m.number != 2007 {
				_, t := m.draw(rt)
				number, payload = m.number, ref.PSBytes(t)
				break
			}
		}
	case "number":
		number = kit.U32(rt, "number")
		command = rapid.Bool().Draw(rt, "command")
		payload = kit.Bytes(rt, 100, "payload")
	case "bytes":
		number = uint32(2001 + kit.Even(rt, 9, "number"))
		payload = kit.Bytes(rt, 100, "payload")
	case "damaged":
		mutate = true
		number = []uint32{2007, 2004}[kit.Even(rt, 2, "number")]
		if number == 2007 {
			start, l := s.list()
			payload = vEntry(start, start+uint32(len(l)), l)
		} else {
			var l []vGiven
			for _, h := range r.requested {
				if b := s.blks[h]; b != nil {
					l = append(l, vOwn(b).vGiven)
				}
			}
			payload = vObjects(r.last+1, l)
		}
		for i := 1 + kit.Even(rt, 4, "edits"); i > 0 && len(payload) > 0; i-- {
			at := kit.Even(rt, len(payload), "at")
			switch kit.Even(rt, 3, "edit") {
			case 0:
				payload[at] ^= 1 << kit.Even(rt, 8, "bit")
			case 1:
				payload[at] = rapid.Byte().Draw(rt, "byte")
			case 2:
				payload = payload[:at]
			}
		}
	}
	kit.InFlight(kind, payload)
	kit.Within(kit.Patience, kind, func() {
		kit.NoPanic(rt, kind, func() {
			cmd := &LevinCommand{Command: number, IsNotify: !command, Payload: payload}
			if command {
				_ = s.n.handleCommand(r.peer, cmd)
			} else {
				_ = s.n.handleNotification(r.peer, cmd)
			}
		})
	})
	if !mutate {
		if sent := r.conn.out.Bytes(); len(sent) > 0 {
			rt.Fatalf("%s message %d %s was answered by %s", kind, number, vShort(payload), vSent(sent))
		}
		if r.peer.state == PeerStateShutdown {
			r.dropped = true
		}
		s.chain(kind)
		return
	}
	// whatever the damage made of it: only requested blocks are added, and this peer is not used further
	for {
		h, err := s.w.Store.HashAtIndex(s.w.Top + 1)
		if err != nil || h == nil {
			break
		}
		asked := false
		for _, q := range r.requested {
			asked = asked || crypto.Hash(q) == *h
		}
		b := s.blks[[32]byte(*h)]
		if !asked || b == nil || !b.valid {
			rt.Fatalf("damaged message %d %s added block %v", number, vShort(payload), h)
		}
		s.w.Accept(b.cand)
		s.known[b.hash] = true
	}
	r.dropped = true
	s.chain(kind)
}

// honest answers like a proper node with the plan's chain would.
func (s *vSync) honest(out []byte) (number uint32, payload []byte) {
	rt := s.rt
	if len(out) < 33 {
		return 0, nil
	}
	number = binary.LittleEndian.Uint32(out[17:])
	at := map[[32]byte]uint32{}
	for h, r := range s.plan.Recs {
		at[r.Hash] = h
	}
	hashes := func(name string) (l [][32]byte) {
		i := bytes.Index(out, append([]byte{byte(len(name))}, name...))
		if i < 0 {
			rt.Fatalf("no %s in %s", name, vSent(out))
		}
		b := out[i+1+len(name)+1:]
		n, k := 0, 1<<(b[0]&3)
		for j := k - 1; j >= 0; j-- {
			n = n<<8 | int(b[j])
		}
		b = b[k:]
		for n >>= 2; n > 0; n -= 32 {
			l = append(l, [32]byte(b[:32]))
			b = b[32:]
		}
		return
	}
	switch number {
	case 2006:
		for _, h := range hashes("block_ids") {
			if i, ok := at[h]; ok {
				var l [][32]byte
				max := 1 + rapid.SampledFrom([]int{1, 5, 200, 10000}).Draw(rt, "entrySize")
				for j := i; j <= s.plan.Top && len(l) < max; j++ {
					l = append(l, s.plan.Recs[j].Hash)
				}
				return 2007, vEntry(i, s.plan.Top+1, l)
			}
		}
		rt.Fatalf("no common block in %s", vSent(out))
	case 2003:
		l := hashes("blocks")
		if len(l) > 128 {
			rt.Fatalf("%d blocks requested at once", len(l))
		}
		var g []vGiven
		for _, h := range l {
			b := s.blks[h]
			if b == nil || s.known[h] {
				rt.Fatalf("block %x requested, which the node has", h)
			}
			g = append(g, vOwn(b).vGiven)
		}
		return 2004, vObjects(s.plan.Top+1, g)
	}
	rt.Fatalf("unexpected %s", vSent(out))
	return
}

func TestVerifC28Honest(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 60, Thorough: 700,
		Rule: "a peer that follows the protocol, with 1 to 330 blocks more than the node, answering in entries of 2 to all hashes: every request of the node is for blocks it lacks, and it ends with the peer's top block; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			zone := rapid.Bool().Draw(rt, "zone")
			top := uint32(rapid.IntRange(0, 40).Draw(rt, "top"))
			s := vNewSync(rt, top, zone)
			n := rapid.SampledFrom([]int{1, 3, 20, 60, 127, 128, 129, 260, 330}).Draw(rt, "ahead")
			if n > 60 && rapid.Bool().Draw(rt, "less") {
				n -= 50
			}
			s.more(n, zone && n < 100)
			if len(s.all) == 0 {
				rt.Skip("no block can follow")
			}
			r := s.newPeer()
			first := s.w.Top
			if err := s.n.processSyncData(r.peer, SyncData{s.plan.Top + 1, s.plan.Recs[s.plan.Top].Hash}, true); err != nil {
				rt.Fatalf("sync data refused: %v", err)
			}
			if r.peer.state != PeerStateSyncRequired {
				rt.Fatalf("a peer %d blocks ahead does not lead to synchronisation", s.plan.Top-first)
			}
			if err := s.n.NotifyRequestChain(r.peer); err != nil {
				rt.Fatalf("chain not requested: %v", err)
			}
			limit := 20 + 3*int(s.plan.Top-first)
			for i := 0; r.conn.out.Len() > 0; i++ {
				if i > limit {
					rt.Fatalf("no end after %d messages, %d blocks of %d", i, s.w.Top-first, s.plan.Top-first)
				}
				number, payload := s.honest(append([]byte{}, r.conn.out.Bytes()...))
				r.conn.out.Reset()
				var err error
				kit.Within(kit.Patience, "message", func() {
					kit.NoPanic(rt, "message", func() {
						err = s.n.handleNotification(r.peer, &LevinCommand{Command: number, IsNotify: true, Payload: payload})
					})
				})
				if err != nil || r.peer.state == PeerStateShutdown {
					rt.Fatalf("answer %d of an honest peer refused: %v (state %d)", number, err, r.peer.state)
				}
				if number == 2004 {
					for h := s.w.Top + 1; h <= s.plan.Top; h++ {
						b := s.blks[s.plan.Recs[h].Hash]
						x := crypto.Hash(b.hash)
						if !s.n.Blockchain.HaveBlock(&x) {
							break
						}
						s.known[b.hash] = true
						s.w.Accept(b.cand)
					}
				}
			}
			if s.w.Top != s.plan.Top {
				rt.Fatalf("synchronisation ended at %d, the peer has %d", s.w.Top, s.plan.Top)
			}
			s.chain("synchronised")
			c.Hit(fmt.Sprint(s.w.Recs[s.w.Top].Hash))
			c.Label(fmt.Sprintf("%d blocks", n/50*50))
			c.Sample("from %d to %d", first, s.w.Top)
		})
}

// TestVerifC28Long is about announcements of many blocks.
func TestVerifC28Long(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 12, Thorough: 150,
		Rule: "a peer announces 1 to 140 new blocks, then up to 70000 blocks the node has and a last new one, the total height at, one or two above the last of them or far away: all new blocks are requested, 128 at a time, the known ones are not after the first request, the blocks are added, and the next announcement is asked for exactly when the heights say there are more; non-trivial: more than 128 hashes"},
		func(rt *rapid.T, c *kit.Case) {
			top := uint32(1 + kit.Even(rt, 200, "top"))
			s := vNewSync(rt, top, false)
			first := 128
			if kit.Even(rt, 3, "short") == 0 {
				first = 1 + kit.Even(rt, 140, "first")
			}
			s.more(first+1, false)
			if len(s.all) != first+1 {
				rt.Skip("difficulty")
			}
			r := s.newPeer()
			have := [][32]byte{}
			for h := s.w.Top; s.w.Recs[h] != nil && len(have) < 50; h-- {
				have = append(have, s.w.Recs[h].Hash)
				if h == 0 {
					break
				}
			}
			l := [][32]byte{have[len(have)-1], s.w.Recs[s.w.Top].Hash}
			for _, b := range s.all[:first] {
				l = append(l, b.hash)
			}
			known := kit.Even(rt, 3000, "known")
			switch kit.Even(rt, 3, "many") {
			case 0:
				known = 65536 - len(l) - 1 + kit.Even(rt, 5, "near") - 1
			case 1:
				known = kit.Even(rt, 70000, "known")
			}
			if first < 128 {
				known = 0 // the first request would ask for them
			}
			for i := 0; i < known; i++ {
				l = append(l, have[i%len(have)])
			}
			l = append(l, s.all[first].hash)
			start := uint32(kit.Even(rt, 1000, "start"))
			total := start + uint32(len(l)) - 1 + []uint32{0, 1, 2, 100000}[kit.Even(rt, 4, "total")]
			s.entry(r, start, total, l, "long entry")
			for i := 0; len(r.requested) > 0; i++ {
				var d []vDelivery
				for _, h := range r.requested {
					d = append(d, vOwn(s.blks[h]))
				}
				s.objects(r, total, d, fmt.Sprintf("delivery %d of %d blocks", i, len(d)))
			}
			if s.w.Top != s.all[first].height {
				rt.Fatalf("top %d after the delivery of all blocks to %d", s.w.Top, s.all[first].height)
			}
			if len(l) > 128 {
				c.Hit(len(l), start, total, s.w.Recs[s.w.Top].Hash)
			}
			c.Sample("%d hashes, %d new, from %d of %d", len(l), first+1, start, total)
		})
}
