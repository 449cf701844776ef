//go:build go1.23

package p2p

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
	"go.uber.org/zap"
)

// vConn records what is written and serves prepared bytes in fragments.
type vConn struct {
	out   bytes.Buffer
	in    []byte
	cuts  []int // sizes of the fragments, cycled
	turn  int
	zeros int // zero bytes served after in
}

func (c *vConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		if c.zeros == 0 {
			return 0, io.EOF
		}
		n := len(p)
		if n > c.zeros {
			n = c.zeros
		}
		clear(p[:n])
		c.zeros -= n
		return n, nil
	}
	n := len(p)
	if len(c.cuts) > 0 {
		if k := c.cuts[c.turn%len(c.cuts)]; k < n {
			n = k
		}
		c.turn++
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *vConn) Write(p []byte) (int, error) { return c.out.Write(p) }

func (c *vConn) Close() error { return nil }

func (c *vConn) LocalAddr() net.Addr { return &net.TCPAddr{} }

func (c *vConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

func (c *vConn) SetDeadline(time.Time) error { return nil }

func (c *vConn) SetReadDeadline(time.Time) error { return nil }

func (c *vConn) SetWriteDeadline(time.Time) error { return nil }

// vPacket is a Levin packet of the reference.
type vPacket struct {
	sig     uint64
	size    uint64
	ret     bool
	command uint32
	code    int32
	flags   uint32
	body    []byte
}

func (p *vPacket) bytes() []byte {
	b := make([]byte, 33, 33+len(p.body))
	binary.LittleEndian.PutUint64(b, p.sig)
	binary.LittleEndian.PutUint64(b[8:], p.size)
	if p.ret {
		b[16] = 1
	}
	binary.LittleEndian.PutUint32(b[17:], p.command)
	binary.LittleEndian.PutUint32(b[21:], uint32(p.code))
	binary.LittleEndian.PutUint32(b[25:], p.flags)
	binary.LittleEndian.PutUint32(b[29:], 1)
	return append(b, p.body...)
}

func vPack(ret bool, command uint32, code int32, flags uint32, body []byte) *vPacket {
	return &vPacket{0x0101010101012101, uint64(len(body)), ret, command, code, flags, body}
}

func vCuts(rt *rapid.T) []int {
	switch rapid.IntRange(0, 3).Draw(rt, "fragments") {
	case 0:
		return nil
	case 1:
		return []int{1}
	}
	return rapid.SliceOfN(rapid.IntRange(1, 70), 1, 6).Draw(rt, "cuts")
}

func vShort(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

type vTree struct{ n *ref.PSNode }

func vObj() *vTree { return &vTree{&ref.PSNode{Tag: ref.PSObj}} }

func (t *vTree) field(name string, n *ref.PSNode) {
	t.n.Fields = append(t.n.Fields, ref.PSField{Name: name, Node: n})
}

func (t *vTree) num(name string, tag byte, v uint64) {
	t.field(name, &ref.PSNode{Tag: tag, Bits: v})
}

func (t *vTree) blob(name string, b []byte) { t.field(name, &ref.PSNode{Tag: ref.PSString, Blob: b}) }

func vHashes(rt *rapid.T, name string) ([]crypto.Hash, []byte) {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 128, 513}).Draw(rt, name+"Count")
	b := kit.Blob(rt, 32*n, name)
	var l []crypto.Hash
	for i := 0; i < n; i++ {
		var h crypto.Hash
		copy(h[:], b[32*i:])
		l = append(l, h)
	}
	return l, b
}

func vPeers(rt *rapid.T) ([]PeerEntry, []byte) {
	n := rapid.SampledFrom([]int{0, 1, 2, 5, 250}).Draw(rt, "peers")
	var l []PeerEntry
	var b []byte
	le := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			b = append(b, byte(v>>(8*i)))
		}
	}
	for i := 0; i < n; i++ {
		e := PeerEntry{Address: NetworkAddress{IP: kit.U32(rt, "ip"), Port: kit.U32(rt, "port")}, ID: kit.U64(rt, "id"), LastSeen: kit.U64(rt, "seen")}
		le(uint64(e.Address.IP), 4)
		le(uint64(e.Address.Port), 4)
		le(e.ID, 8)
		le(e.LastSeen, 8)
		l = append(l, e)
	}
	return l, b
}

func vNodeData(rt *rapid.T) (BasicNodeData, *ref.PSNode) {
	var d BasicNodeData
	copy(d.NetworkID[:], kit.Blob(rt, 16, "network"))
	d.Version = rapid.Byte().Draw(rt, "version")
	d.PeerID = kit.U64(rt, "peer")
	d.LocalTime = kit.U64(rt, "time")
	d.MyPort = kit.U32(rt, "port")
	t := vObj()
	t.blob("network_id", d.NetworkID[:])
	t.num("version", ref.PSUint8, uint64(d.Version))
	t.num("peer_id", ref.PSUint64, d.PeerID)
	t.num("local_time", ref.PSUint64, d.LocalTime)
	t.num("my_port", ref.PSUint32, uint64(d.MyPort))
	return d, t.n
}

func vSyncData(rt *rapid.T) (SyncData, *ref.PSNode) {
	d := SyncData{CurrentHeight: kit.U32(rt, "height")}
	copy(d.TopBlockHash[:], kit.Blob(rt, 32, "top"))
	t := vObj()
	t.num("current_height", ref.PSUint32, uint64(d.CurrentHeight))
	t.blob("top_id", append([]byte{}, d.TopBlockHash[:]...))
	return d, t.n
}

func vRawBlock(rt *rapid.T) (RawBlock, *ref.PSNode) {
	t := vObj()
	rb := RawBlock{}
	if b := kit.Bytes(rt, 200, "block"); len(b) > 0 {
		rb.Block = b
	}
	t.blob("block", rb.Block)
	arr := &ref.PSNode{Tag: ref.PSString, Array: true}
	for i := rapid.IntRange(0, 4).Draw(rt, "txs"); i > 0; i-- {
		b := kit.Bytes(rt, 200, "tx")
		if len(b) == 0 {
			b = []byte{7}
		}
		rb.Transactions = append(rb.Transactions, b)
		arr.Items = append(arr.Items, &ref.PSNode{Tag: ref.PSString, Blob: b})
	}
	if len(arr.Items) > 0 {
		t.field("txs", arr)
	}
	return rb, t.n
}

type vMessage struct {
	number  uint32
	notify  bool
	fields  []string
	draw    func(rt *rapid.T) (any, *ref.PSNode)
	parsed  bool // has a parser of its own by number
	answers bool
}

var vMessages = []vMessage{
	{1001, false, []string{"node_data", "payload_data"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		nd, ndt := vNodeData(rt)
		sd, sdt := vSyncData(rt)
		t.field("node_data", ndt)
		t.field("payload_data", sdt)
		return HandshakeRequest{nd, sd}, t.n
	}, true, false},
	{1002, false, []string{"payload_data"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		sd, sdt := vSyncData(rt)
		t.field("payload_data", sdt)
		return TimedSyncRequest{sd}, t.n
	}, true, false},
	{2001, true, []string{"b", "current_blockchain_height", "hop"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		rb, rbt := vRawBlock(rt)
		m := NotificationNewBlock{rb, kit.U32(rt, "height"), kit.U32(rt, "hop")}
		t.field("b", rbt)
		t.num("current_blockchain_height", ref.PSUint32, uint64(m.CurrentBlockchainHeight))
		t.num("hop", ref.PSUint32, uint64(m.Hop))
		return m, t.n
	}, true, false},
	{2002, true, []string{"stem", "txs"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := NotificationNewTransactions{Stem: rapid.Bool().Draw(rt, "stem")}
		l, b := vHashes(rt, "txs")
		m.Transactions = l
		s := uint64(0)
		if m.Stem {
			s = 1
		}
		t.num("stem", ref.PSBool, s)
		t.blob("txs", b)
		return m, t.n
	}, true, false},
	{2003, true, []string{"txs", "blocks"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := NotificationRequestGetObjects{}
		var b []byte
		m.Transactions, b = vHashes(rt, "txs")
		t.blob("txs", b)
		m.Blocks, b = vHashes(rt, "blocks")
		t.blob("blocks", b)
		return m, t.n
	}, true, false},
	{2004, true, []string{"txs", "blocks", "current_blockchain_height", "missed_ids"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := NotificationResponseGetObjects{CurrentBlockchainHeight: kit.U32(rt, "height")}
		arr := &ref.PSNode{Tag: ref.PSObj, Array: true}
		for i := rapid.IntRange(0, 4).Draw(rt, "blocks"); i > 0; i-- {
			rb, n := vRawBlock(rt)
			m.Blocks = append(m.Blocks, rb)
			arr.Items = append(arr.Items, n)
		}
		t.field("blocks", arr)
		t.num("current_blockchain_height", ref.PSUint32, uint64(m.CurrentBlockchainHeight))
		var b []byte
		if m.MissedIds, b = vHashes(rt, "missed"); len(b) > 0 {
			t.blob("missed_ids", b)
		}
		return m, t.n
	}, true, false},
	{2006, true, []string{"block_ids"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		l, b := vHashes(rt, "ids")
		t.blob("block_ids", b)
		return NotificationRequestChain{l}, t.n
	}, true, false},
	{2007, true, []string{"start_height", "total_height", "m_block_ids"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		l, b := vHashes(rt, "ids")
		m := NotificationResponseChainEntry{kit.U32(rt, "start"), kit.U32(rt, "total"), l}
		t.num("start_height", ref.PSUint32, uint64(m.StartHeight))
		t.num("total_height", ref.PSUint32, uint64(m.TotalHeight))
		t.blob("m_block_ids", b)
		return m, t.n
	}, true, false},
	{2008, true, []string{"txs"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		l, b := vHashes(rt, "txs")
		t.blob("txs", b)
		return NotificationTxPool{l}, t.n
	}, true, false},
	{2009, true, []string{"current_blockchain_height", "hop", "block"}, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := NotificationNewLiteBlock{CurrentBlockchainHeight: kit.U32(rt, "height"), Hop: kit.U32(rt, "hop")}
		if b := kit.Bytes(rt, 300, "block"); len(b) > 0 {
			m.Block = b
		}
		t.num("current_blockchain_height", ref.PSUint32, uint64(m.CurrentBlockchainHeight))
		t.num("hop", ref.PSUint32, uint64(m.Hop))
		t.blob("block", m.Block)
		return m, t.n
	}, true, false},
	// answers, parsed where they are awaited
	{1001, false, nil, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		nd, ndt := vNodeData(rt)
		sd, sdt := vSyncData(rt)
		l, b := vPeers(rt)
		t.field("node_data", ndt)
		t.field("payload_data", sdt)
		t.blob("local_peerlist", b)
		return HandshakeResponse{nd, sd, l}, t.n
	}, false, true},
	{1002, false, nil, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := TimedSyncResponse{LocalTime: kit.U64(rt, "time")}
		t.num("local_time", ref.PSUint64, m.LocalTime)
		sd, sdt := vSyncData(rt)
		m.PayloadData = sd
		t.field("payload_data", sdt)
		l, b := vPeers(rt)
		m.Peers = l
		t.blob("local_peerlist", b)
		return m, t.n
	}, false, true},
	{1003, false, nil, func(rt *rapid.T) (any, *ref.PSNode) {
		t := vObj()
		m := PingResponse{rapid.SampledFrom([]string{"OK", "", "\x00"}).Draw(rt, "status"), kit.U64(rt, "peer")}
		t.blob("status", []byte(m.Status))
		t.num("peer_id", ref.PSUint64, m.PeerID)
		return m, t.n
	}, false, true},
}

func vNode(w *chaingen.World) *Node {
	n := NewNode(w.BC, HostConfig{Network: w.Net, PeerID: 77}, zap.NewNop())
	return &n
}

// vHello is what a peer says of itself.
type vHello struct {
	network [16]byte
	version byte
	id      uint64
	height  uint32
	top     [32]byte
}

func (h vHello) node() *ref.PSNode {
	t := vObj()
	t.blob("network_id", h.network[:])
	t.num("version", ref.PSUint8, uint64(h.version))
	t.num("peer_id", ref.PSUint64, h.id)
	t.num("local_time", ref.PSUint64, 1234567)
	t.num("my_port", ref.PSUint32, 4444)
	return t.n
}

func (h vHello) sync() *ref.PSNode {
	t := vObj()
	t.num("current_height", ref.PSUint32, uint64(h.height))
	t.blob("top_id", h.top[:])
	return t.n
}

func (h vHello) request() []byte {
	t := vObj()
	t.field("node_data", h.node())
	t.field("payload_data", h.sync())
	return ref.PSBytes(t.n)
}

func (h vHello) timed() []byte {
	t := vObj()
	t.field("payload_data", h.sync())
	return ref.PSBytes(t.n)
}

func (h vHello) response() []byte {
	t := vObj()
	t.field("node_data", h.node())
	t.field("payload_data", h.sync())
	t.blob("local_peerlist", nil)
	return ref.PSBytes(t.n)
}

// good tells whether the peer may be admitted at all.
func (h vHello) good(net *config.Network) bool {
	return h.network == [16]byte(net.NetworkID) && h.version >= net.P2PMinimumVersion
}

func vIDs(l []PeerEntry) (ids []uint64) {
	for _, e := range l {
		ids = append(ids, e.ID)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// vWorld is a chain of up to a hundred blocks, with a checkpoint somewhere or not.
func vWorld(rt *rapid.T) *chaingen.World {
	w := chaingen.New(rt, chaingen.Options{Top: uint32(rapid.IntRange(0, 100).Draw(rt, "top"))})
	switch kit.Even(rt, 3, "checkpoint") {
	case 0:
		h := uint32(1 + kit.Even(rt, int(w.Top)+30, "checkpointAt"))
		hash := [32]byte{9}
		if r := w.Recs[h]; r != nil {
			hash = r.Hash
		}
		w.Checkpoint(rt, h, hash)
	}
	return w
}

func vWait(f func() bool) bool {
	for end := time.Now().Add(kit.Patience); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return false
}

// vListen runs the node on a free port.
func vListen(rt *rapid.T, n *Node, ctx context.Context) (string, chan error) {
	for try := 0; try < 20; try++ {
		// An address of this process alone, as other processes take free ports of 127.0.0.1 at any time.
		pid := os.Getpid()
		l, err := net.Listen("tcp4", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16&127, pid>>8&255, pid&255))
		if err != nil {
			l, err = net.Listen("tcp4", "127.0.0.1:0")
		}
		if err != nil {
			rt.Fatalf("VERIF-INFRA %v", err)
		}
		addr := l.Addr().String()
		l.Close()
		n.Config.BindAddr = addr
		done := make(chan error, 1)
		go func() { done <- n.Run(ctx) }()
		for i := 0; i < 200; i++ {
			select {
			case err := <-done:
				if err == nil {
					rt.Fatalf("Run returned although nothing told it to stop")
				}
				done <- err
				i = 200
				continue
			default:
			}
			if c, err := net.Dial("tcp4", addr); err == nil {
				c.Close()
				return addr, done
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	rt.Fatalf("VERIF-INFRA no port to listen on")
	return "", nil
}

// next packet from the node.
func vNext(conn net.Conn) (number uint32, ret bool, body []byte, err error) {
	var head [33]byte
	conn.SetReadDeadline(time.Now().Add(kit.Patience))
	if _, err = io.ReadFull(conn, head[:]); err != nil {
		return
	}
	le := func(b []byte) (v uint64) {
		for i := len(b) - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[i])
		}
		return
	}
	body = make([]byte, le(head[8:16]))
	_, err = io.ReadFull(conn, body)
	return uint32(le(head[17:21])), head[16] != 0, body, err
}

// ended reads on until the connection ends; false if it stays open.
func vEnded(conn net.Conn) bool {
	conn.SetReadDeadline(time.Now().Add(40 * time.Second))
	_, err := io.Copy(io.Discard, conn)
	ne, ok := err.(net.Error)
	return !ok || !ne.Timeout()
}
