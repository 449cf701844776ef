//go:build go1.23

package p2p

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

type vBody struct {
	A []byte `binary:"a,omitempty"`
	N uint64 `binary:"n"`
}

func vDrawBody(rt *rapid.T) (vBody, []byte) {
	max := rapid.SampledFrom([]int{0, 10, 300, 70000}).Draw(rt, "max")
	b := vBody{N: kit.U64(rt, "n")}
	tree := &ref.PSNode{Tag: ref.PSObj}
	if a := kit.Bytes(rt, max, "a"); len(a) > 0 {
		b.A = a
		tree.Fields = append(tree.Fields, ref.PSField{Name: "a", Node: &ref.PSNode{Tag: ref.PSString, Blob: a}})
	}
	tree.Fields = append(tree.Fields, ref.PSField{Name: "n", Node: &ref.PSNode{Tag: ref.PSUint64, Bits: b.N}})
	return b, ref.PSBytes(tree)
}

func vCommand(rt *rapid.T) uint32 {
	if rapid.Bool().Draw(rt, "known") {
		return rapid.SampledFrom([]uint32{1001, 1002, 1003, 2001, 2004, 2007}).Draw(rt, "command")
	}
	return kit.U32(rt, "command")
}

func vRead(rt *rapid.T, p *LevinProtocol) (cmd *LevinCommand, err error) {
	kit.Within(kit.Patience, "read", func() {
		kit.NoPanic(rt, "read", func() { cmd, err = p.read() })
	})
	return
}

func TestVerifC05Frames(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 4000, Thorough: 40000,
		Rule: "1 to 8 packets (requests, notifications, replies; random commands, return codes, bodies to 70 kB) sent through Notify, Reply and the request side of Invoke, then read back from a randomly fragmented stream, finally cut inside a packet; non-trivial: two or more packets or a fragmented stream"},
		func(rt *rapid.T, c *kit.Case) {
			conn := &vConn{}
			p := &LevinProtocol{conn}
			var want []*vPacket
			var stream []byte
			n := rapid.IntRange(1, 8).Draw(rt, "packets")
			for i := 0; i < n; i++ {
				body, raw := vDrawBody(rt)
				cmd := vCommand(rt)
				var w *vPacket
				var err error
				kind := rapid.IntRange(0, 2).Draw(rt, "kind")
				kit.NoPanic(rt, "sending", func() {
					switch kind {
					case 0:
						w = vPack(false, cmd, 0, 1, raw)
						err = p.Notify(cmd, body)
					case 1:
						code := int32(kit.U32(rt, "code"))
						w = vPack(false, cmd, code, 2, raw)
						err = p.Reply(cmd, body, code)
					case 2:
						w = vPack(true, cmd, 0, 1, raw)
						var res vBody
						if p.Invoke(cmd, body, &res) == nil { // nothing is answered
							err = errors.New("request without an answer succeeded")
						}
					}
				})
				if err != nil {
					rt.Fatalf("sending: %v", err)
				}
				if !bytes.Equal(conn.out.Bytes(), w.bytes()) {
					rt.Fatalf("packet of kind %d on the wire\n got %s\nwant %s", kind, vShort(conn.out.Bytes()), vShort(w.bytes()))
				}
				stream = append(stream, conn.out.Bytes()...)
				conn.out.Reset()
				want = append(want, w)
			}
			cuts := vCuts(rt)
			r := &LevinProtocol{&vConn{in: stream, cuts: cuts}}
			var all []*LevinCommand
			for i, w := range want {
				got, err := vRead(rt, r)
				all = append(all, got)
				if err != nil {
					rt.Fatalf("packet %d of %d: %v", i, n, err)
				}
				if got.Command != w.command || got.IsNotify == w.ret || got.IsResponse != (w.flags == 2) || !bytes.Equal(got.Payload, w.body) {
					rt.Fatalf("packet %d read as %d notify %v response %v %s\nwas %d %v %d %s", i, got.Command, got.IsNotify, got.IsResponse, vShort(got.Payload), w.command, !w.ret, w.flags, vShort(w.body))
				}
			}
			if got, err := vRead(rt, r); err == nil {
				rt.Fatalf("a packet out of nothing: %+v", got)
			}
			for i, w := range want { // what was delivered does not change by what comes later
				if got := all[i]; got.Command != w.command || !bytes.Equal(got.Payload, w.body) {
					rt.Fatalf("packet %d became %d %s after %d more\nwas %d %s", i, got.Command, vShort(got.Payload), n-1-i, w.command, vShort(w.body))
				}
			}
			// cut inside the last packet
			last := len(want[n-1].bytes())
			cut := rapid.IntRange(1, last-1).Draw(rt, "cut")
			if rapid.Bool().Draw(rt, "early") {
				cut = rapid.IntRange(last-33, last-1).Draw(rt, "cutHead")
			}
			r = &LevinProtocol{&vConn{in: stream[:len(stream)-cut], cuts: cuts}}
			for i := 0; i < n-1; i++ {
				if _, err := vRead(rt, r); err != nil {
					rt.Fatalf("packet %d before the cut: %v", i, err)
				}
			}
			if got, err := vRead(rt, r); err == nil {
				rt.Fatalf("packet cut %d bytes before the end was delivered as %+v", cut, got)
			}
			if n > 1 || cuts != nil {
				c.Hit(stream, fmt.Sprint(cuts))
				c.Sample("%d packets, %d bytes, fragments %v, cut %d", n, len(stream), cuts, cut)
			}
		})
}

// vShared is a connection whose writes are atomic, as those of a socket, and give others a turn.
type vShared struct {
	vConn
	mu    sync.Mutex
	once  sync.Once
	begun chan bool // closed by the first Write, when not nil
	ended int       // offset at which the last whole packet ends
}

// Write lets the other senders in, above all inside a packet.
func (c *vShared) Write(p []byte) (int, error) {
	defer runtime.Gosched()
	c.mu.Lock()
	n, err := c.out.Write(p)
	b := c.out.Bytes()
	for len(b) >= c.ended+LevinHeadSize {
		size := binary.LittleEndian.Uint64(b[c.ended+8:])
		if uint64(len(b)-c.ended-LevinHeadSize) < size {
			break
		}
		c.ended += LevinHeadSize + int(size)
	}
	inside := len(b) > c.ended
	c.mu.Unlock()
	if c.begun != nil {
		c.once.Do(func() { close(c.begun) })
	}
	if inside {
		time.Sleep(2 * time.Millisecond)
	}
	return n, err
}

func TestVerifC05Together(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 600, Thorough: 10000,
		Rule: "2 to 6 goroutines send up to 20 notifications and replies each, of up to 2 MB, rarely 20 MB, over one connection at once: all are read back whole, those of one sender in its order; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			conn := &vShared{}
			p := &LevinProtocol{conn}
			body := kit.Bytes(rt, 500, "body")
			n := rapid.IntRange(2, 6).Draw(rt, "senders")
			counts := make([]int, n)
			replies := make([]bool, n)
			bodies := make([][]byte, n)
			sizes := make([]int, n)
			for i := range counts {
				counts[i] = rapid.IntRange(1, 20).Draw(rt, "packets")
				replies[i] = rapid.Bool().Draw(rt, "replies")
				bodies[i] = append([]byte{byte(i)}, body...)
				if kit.Even(rt, 12, "large") == 0 { // also packets that would not be sent at once
					counts[i] = 1 + counts[i]/6
					bodies[i] = append(bodies[i], bytes.Repeat([]byte{byte(i) + 1}, 1<<(10+kit.Even(rt, 11, "power"))+kit.Even(rt, 5000, "more")-1000+1000*kit.Even(rt, 2, "off"))...)
				}
				sizes[i] = len(bodies[i])
			}
			if kit.Even(rt, 90, "huge") == 0 {
				conn.begun = make(chan bool)
				counts[0] = 1 + kit.Even(rt, 2, "hugePackets")
				bodies[0] = append(bodies[0], bytes.Repeat([]byte{1}, 2<<20+kit.Even(rt, 18<<20, "hugeSize"))...)
				sizes[0] = len(bodies[0])
			}
			var wg sync.WaitGroup
			start := make(chan bool)
			errs := make([]error, n)
			for i := range counts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if conn.begun != nil && i > 0 {
						<-conn.begun // the others come while the large packets are sent
					}
					for j := 0; j < counts[i] && errs[i] == nil; j++ {
						m := vBody{A: bodies[i], N: uint64(j)}
						if replies[i] {
							errs[i] = p.Reply(uint32(i), m, 1)
						} else {
							errs[i] = p.Notify(uint32(i), m)
						}
					}
				}()
			}
			close(start)
			kit.Within(kit.Patience, "sending", wg.Wait)
			r := &LevinProtocol{&vConn{in: conn.out.Bytes()}}
			next := make([]int, n)
			for k := 0; ; k++ {
				left := false
				for i := range next {
					left = left || next[i] < counts[i]
				}
				got, err := vRead(rt, r)
				if !left {
					if err == nil {
						rt.Fatalf("a packet out of nothing: %+v", got)
					}
					break
				}
				if err != nil {
					rt.Fatalf("packet %d of %v: %v, sending: %v", k, counts, err, errs)
				}
				i := int(got.Command)
				var m vBody
				if err := p2pbinary.Unmarshal(got.Payload, &m); err != nil || i >= n || got.IsResponse != replies[i] || !got.IsNotify || m.N != uint64(next[i]) || !bytes.Equal(m.A, bodies[i]) {
					rt.Fatalf("packet %d of %v read as %d response %v %s: %v", k, counts, i, got.IsResponse, vShort(got.Payload), err)
				}
				next[i]++
			}
			c.Hit(fmt.Sprint(counts, replies, sizes), body)
			c.Sample("%v packets of senders at once, of %d bytes", counts, sizes)
		})
}

func TestVerifC05Refuse(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 6000, Thorough: 60000,
		Rule: "a good packet with one header defect (signature altered in any byte, declared size above the limit with the stream going on) preceded by good ones; or any header bytes; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			_, body := vDrawBody(rt)
			w := vPack(rapid.Bool().Draw(rt, "ret"), vCommand(rt), int32(kit.U32(rt, "code")), rapid.SampledFrom([]uint32{1, 2}).Draw(rt, "flags"), body)
			conn := &vConn{cuts: vCuts(rt)}
			switch rapid.IntRange(0, 2).Draw(rt, "defect") {
			case 0:
				b := w.bytes()
				b[rapid.IntRange(0, 7).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
				conn.in = b
				c.Label("signature")
			case 1:
				w.size = 100000000 + rapid.Uint64Range(1, 1000).Draw(rt, "over")
				if rapid.IntRange(0, 3).Draw(rt, "far") > 0 {
					s := rapid.IntRange(27, 63).Draw(rt, "shift")
					w.size = uint64(1)<<s + rapid.Uint64Range(0, uint64(len(body))).Draw(rt, "low")
				}
				conn.in = w.bytes()
				conn.zeros = 1 << 30
				c.Label("size")
			case 2:
				// random header, nothing behind it: no panic, no huge buffer kept for nothing beyond the limit
				b := kit.Bytes(rt, 40, "raw")
				if len(b) > 8 && rapid.Bool().Draw(rt, "sign") {
					binary.LittleEndian.PutUint64(b, 0x0101010101012101)
				}
				if len(b) >= 33 && binary.LittleEndian.Uint64(b) == 0x0101010101012101 && binary.LittleEndian.Uint64(b[8:]) <= uint64(len(b)-33) {
					c.Label("whole")
					return
				}
				conn.in = b
				c.Label("raw")
			}
			c.Hit(conn.in)
			c.Sample("%s", vShort(conn.in))
			if got, err := vRead(rt, &LevinProtocol{conn}); err == nil {
				rt.Fatalf("delivered %d, %d bytes from header %x", got.Command, len(got.Payload), w.bytes()[:33])
			}
		})
}

func TestVerifC05Memory(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 3000, Thorough: 40000,
		Rule: "packets declaring 10 MB to the limit whose stream ends after up to 200 kB: refused, with memory in proportion to the bytes that came; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			size := 10000000 + kit.Even(rt, 90000001, "size")
			came := 0
			if rapid.Bool().Draw(rt, "some") {
				came = kit.Even(rt, 200000, "came")
			}
			w := vPack(rapid.Bool().Draw(rt, "ret"), vCommand(rt), 0, 2, nil)
			w.size = uint64(size)
			invoke := rapid.Bool().Draw(rt, "invoke")
			// a small stream, held back by the other side
			conn := &vConn{in: w.bytes(), zeros: came, cuts: vCuts(rt)}
			var err error
			used := kit.Allocated(func() {
				if invoke {
					var res vBody
					kit.Within(kit.Patience, "Invoke", func() { err = (&LevinProtocol{conn}).Invoke(w.command, vBody{}, &res) })
				} else {
					_, err = vRead(rt, &LevinProtocol{conn})
				}
			})
			c.Hit(size, came, invoke)
			c.Sample("%d of %d bytes: %d bytes allocated", came, size, used)
			if err == nil {
				rt.Fatalf("%d of %d bytes delivered", came, size)
			}
			if bound := uint64(4<<20 + 20*came); used > bound {
				rt.Fatalf("%d bytes allocated for %d that came of the declared %d", used, came, size)
			}
		})
}

func TestVerifC05Limit(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 2, Thorough: 8,
		Rule: "packets declaring exactly the limit of 100000000 bytes and slightly less are delivered whole; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			for _, size := range []uint64{100000000, 100000000 - 1 - uint64(kit.Even(rt, 1000, "less"))} {
				w := vPack(false, 2004, 0, 1, nil)
				w.size = size
				got, err := vRead(rt, &LevinProtocol{&vConn{in: w.bytes(), zeros: int(size)}})
				if err != nil || uint64(len(got.Payload)) != size {
					rt.Fatalf("packet of %d bytes: %v", size, err)
				}
				c.Hit(size)
			}
		})
}

func TestVerifC05Invoke(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 60000,
		Rule: "a request whose answer is right, or carries another command, is no response, is cut, has a wrong signature, a damaged body, or does not come; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			body, raw := vDrawBody(rt)
			answer, rawAnswer := vDrawBody(rt)
			cmd := vCommand(rt)
			w := vPack(rapid.Bool().Draw(rt, "ret"), cmd, int32(kit.U32(rt, "code")), 2, rawAnswer)
			kind := rapid.SampledFrom([]string{"right", "right", "command", "no response", "cut", "signature", "size", "body", "none"}).Draw(rt, "kind")
			b := w.bytes()
			switch kind {
			case "command":
				w.command = vCommand(rt)
				if w.command == cmd {
					w.command++
				}
				b = w.bytes()
			case "no response":
				w.flags = rapid.SampledFrom([]uint32{0, 1, 4}).Draw(rt, "flags")
				b = w.bytes()
			case "cut":
				b = b[:rapid.IntRange(1, len(b)-1).Draw(rt, "cut")]
			case "signature":
				b[rapid.IntRange(0, 7).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "size":
				w.size = uint64(1) << rapid.IntRange(27, 63).Draw(rt, "shift")
				b = w.bytes()
			case "body":
				w.body = append([]byte{}, rawAnswer...)
				w.body[rapid.IntRange(0, 8).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
				b = w.bytes()
			case "none":
				b = nil
			}
			conn := &vConn{in: b, cuts: vCuts(rt)}
			var res vBody
			var err error
			kit.Within(kit.Patience, "Invoke", func() {
				kit.NoPanic(rt, "Invoke", func() { err = (&LevinProtocol{conn}).Invoke(cmd, body, &res) })
			})
			c.Label(kind)
			c.Hit(kind, b, raw)
			c.Sample("%s: command %d answered by %s", kind, cmd, vShort(b))
			if sent := vPack(true, cmd, 0, 1, raw).bytes(); !bytes.Equal(conn.out.Bytes(), sent) {
				rt.Fatalf("request on the wire\n got %s\nwant %s", vShort(conn.out.Bytes()), vShort(sent))
			}
			if kind == "right" {
				if err != nil {
					rt.Fatalf("right answer: %v", err)
				}
				if !bytes.Equal(res.A, answer.A) || res.N != answer.N {
					rt.Fatalf("answer %+v read as %+v", answer, res)
				}
			} else if err == nil {
				rt.Fatalf("request succeeded although the answer has the defect %q: %s", kind, vShort(b))
			}
		})
}

// vBroken is a connection that fails to write after some bytes; what it would read is a right answer.
type vBroken struct {
	vConn
	room  int
	reads int
}

func (c *vBroken) Write(p []byte) (int, error) {
	n := min(c.room, len(p))
	c.room -= n
	c.out.Write(p[:n])
	if n < len(p) {
		return n, errors.New("connection reset")
	}
	return n, nil
}

func (c *vBroken) Read(p []byte) (int, error) {
	c.reads++
	return c.vConn.Read(p)
}

func TestVerifC05Send(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 4000, Thorough: 40000,
		Rule: "requests, notifications and replies that cannot be encoded, for they hold a channel, a function or a map in some place, or that the connection takes only in part: the sender gets an error although a right answer is waiting, a packet that cannot be encoded leaves the connection untouched, and one sent before or after it arrives whole; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			body, raw := vDrawBody(rt)
			cmd := vCommand(rt)
			_, answer := vDrawBody(rt)
			conn := &vBroken{room: 1 << 40}
			p := &LevinProtocol{conn}
			send := func(kind int, v any) (err error) {
				kit.Within(kit.Patience, "sending", func() {
					kit.NoPanic(rt, "sending", func() {
						switch kind {
						case 0:
							err = p.Notify(cmd, v)
						case 1:
							err = p.Reply(cmd, v, 1)
						case 2:
							var res vBody
							err = p.Invoke(cmd, v, &res)
						}
					})
				})
				return
			}
			kind := kit.Even(rt, 3, "kind")
			ask := vPack(true, cmd, 0, 1, raw).bytes()
			whole := [][]byte{vPack(false, cmd, 0, 1, raw).bytes(), vPack(false, cmd, 1, 2, raw).bytes(), ask}[kind]
			good := func(when string) {
				if kind == 2 {
					conn.in = append(conn.in, vPack(false, cmd, 1, 2, answer).bytes()...)
				}
				if err := send(kind, body); err != nil || !bytes.Equal(conn.out.Bytes(), whole) {
					rt.Fatalf("packet of kind %d %s: %v\n got %s\nwant %s", kind, when, err, vShort(conn.out.Bytes()), vShort(whole))
				}
				conn.out.Reset()
			}
			if rapid.Bool().Draw(rt, "before") {
				good("before")
			}
			waiting := vPack(false, cmd, 1, 2, answer).bytes()
			conn.in = append([]byte{}, waiting...)
			conn.reads = 0
			what := ""
			if rapid.Bool().Draw(rt, "full") {
				conn.room = kit.Even(rt, len(whole), "room")
				if kit.Even(rt, 3, "edge") == 0 {
					conn.room = []int{0, 32, 33, len(whole) - 1}[kit.Even(rt, 4, "room")]
				}
				what = fmt.Sprintf("with room for %d of %d bytes", conn.room, len(whole))
				if err := send(kind, body); err == nil {
					rt.Fatalf("packet of kind %d sent %s gave no error", kind, what)
				}
			} else {
				type deep struct {
					B vBody `binary:"b"`
					C any   `binary:"c"`
				}
				bads := []any{
					struct {
						C chan int `binary:"c"`
					}{make(chan int)},
					struct {
						F func() `binary:"f"`
					}{func() {}},
					struct {
						M map[string]int `binary:"m"`
					}{map[string]int{"a": 1}},
					deep{body, make(chan int)},
					struct {
						B vBody      `binary:"b"`
						C complex128 `binary:"c"`
					}{body, 1i},
				}
				i := kit.Even(rt, len(bads), "bad")
				what = fmt.Sprintf("with unknown type %d", i)
				if err := send(kind, bads[i]); err == nil {
					rt.Fatalf("packet of kind %d %s gave no error", kind, what)
				}
				if conn.out.Len() > 0 || conn.reads > 0 {
					rt.Fatalf("packet of kind %d %s wrote %s and read %d times", kind, what, vShort(conn.out.Bytes()), conn.reads)
				}
				conn.in = nil
				good("after")
			}
			c.Hit(cmd, raw, what)
			c.Sample("kind %d %s", kind, what)
		})
}
