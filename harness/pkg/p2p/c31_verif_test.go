//go:build go1.23

package p2p

import (
	"context"
	"fmt"
	"net"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

// vStep is one thing a client does.
type vStep struct {
	kind string
	send []byte
	wait time.Duration
}

// vVisit is a client of a running node, or a server that the node calls.
type vVisit struct {
	called bool
	absent bool // nobody takes the call
	id     uint64
	steps  []vStep
	log    []string
}

var vKinds = []string{"hello", "hello", "timed", "unknown number", "unknown notification", "wrong message", "noise", "cut", "huge", "refused hello", "pause", "close", "reset"}

// drawVisit draws what a client does until it ends the connection, is dropped or falls silent.
func vDrawVisit(rt *rapid.T, w *chaingen.World, id uint64) *vVisit {
	v := &vVisit{id: id, called: kit.Even(rt, 5, "called") == 0 && !kit.Race} // calls are made by hand, unordered with Run
	good := vHello{network: w.Net.NetworkID, version: w.Net.P2PCurrentVersion, id: id, height: w.Top + 1, top: w.Recs[w.Top].Hash}
	v.absent = v.called && kit.Even(rt, 4, "absent") == 0
	greeted := false
	for n := kit.Even(rt, 5, "steps"); n > 0; n-- {
		s := vStep{kind: vKinds[kit.Even(rt, len(vKinds), "kind")]}
		if v.called && !greeted && s.kind == "timed" {
			s.kind = "hello"
		}
		switch s.kind {
		case "hello":
			if greeted {
				s.kind, s.send = "second hello", vPack(true, 1001, 0, 1, good.request()).bytes()
			} else if v.called {
				s.send = vPack(false, 1001, 1, 2, good.response()).bytes()
			} else {
				s.send = vPack(true, 1001, 0, 1, good.request()).bytes()
			}
			if greeted && v.called {
				s.kind = "second hello to the caller"
			}
			greeted = true
		case "timed":
			s.send = vPack(true, 1002, 0, 1, good.timed()).bytes()
		case "unknown number":
			s.send = vPack(true, 1900, 0, 1, good.timed()).bytes()
		case "unknown notification":
			s.send = vPack(false, 2900, 0, 1, good.timed()).bytes()
		case "wrong message":
			s.send = vPack(true, 1002, 0, 1, kit.Bytes(rt, 60, "wrong")).bytes()
		case "noise":
			s.send = append([]byte{7}, kit.Blob(rt, 33+kit.Even(rt, 300, "noise"), "noise")...)
		case "cut":
			b := vPack(true, 1002, 0, 1, good.timed()).bytes()
			s.send = b[:1+kit.Even(rt, len(b)-1, "cut")]
		case "huge":
			p := vPack(true, 1002, 0, 1, nil)
			p.size = 1<<31 | rapid.Uint64().Draw(rt, "size")
			s.send = p.bytes()
		case "refused hello":
			h := good
			h.network[kit.Even(rt, 16, "networkByte")] ^= 1 << kit.Even(rt, 8, "networkBit")
			s.send = vPack(true, 1001, 0, 1, h.request()).bytes()
			if v.called {
				s.send = vPack(false, 1001, 1, 2, h.response()).bytes()
			}
			if v.called && greeted {
				s.kind = "refused hello to the caller" // an answer to nothing
			}
		case "pause":
			s.wait = time.Duration(kit.Even(rt, 2500, "pause")) * time.Millisecond
		}
		v.steps = append(v.steps, s)
		switch s.kind {
		case "cut", "close", "reset", "noise", "huge", "refused hello", "second hello", "second hello to the caller", "refused hello to the caller":
			n = 1 // the last
		}
	}
	return v
}

// play does the steps on a connection to the node; told is closed when the node has been told to stop.
//
// While a call is answered the gate is held, so that the node is not stopped before it has taken the peer up: calls are
// counted only from there on. settled is called when nothing more than the stop of the node is to be expected.
func (v *vVisit) play(n *Node, conn net.Conn, told, ended chan bool, gate *sync.RWMutex, settled func(), fail func(string, ...any)) {
	defer settled()
	defer conn.Close()
	note := func(format string, a ...any) { v.log = append(v.log, fmt.Sprintf(format, a...)) }
	stopping := func() bool {
		select {
		case <-told:
			return true
		default:
			return false
		}
	}
	answers, live := 0, !v.called
	if v.called {
		answers = 1 // the hello of the caller
	}
	mustEnd := ""
	for _, s := range v.steps {
		note("%s", s.kind)
		switch s.kind {
		case "close":
			return
		case "reset":
			conn.(*net.TCPConn).SetLinger(0)
			return
		case "pause":
			time.Sleep(s.wait)
			continue
		}
		answering := v.called && s.kind == "hello"
		if answering {
			gate.RLock()
			if stopping() {
				gate.RUnlock()
				break
			}
		}
		_, err := conn.Write(s.send)
		if answering {
			vWait(func() bool {
				select {
				case <-ended:
					return true
				default:
				}
				n.ps.RLock()
				defer n.ps.RUnlock()
				return n.ps.white.Has(v.id)
			})
			gate.RUnlock()
		}
		if err != nil {
			// only a node that stops, or ends a call that got no proper answer, ends the connection here
			if live && !stopping() {
				fail("node ended the connection: %v, %q", err, v.log)
			}
			return
		}
		switch s.kind {
		case "hello":
			live = true
			if !v.called {
				answers++
			}
		case "timed":
			answers++
		case "noise", "huge", "refused hello", "second hello", "second hello to the caller":
			mustEnd = s.kind
		case "refused hello to the caller":
			return // what an answer to nothing leads to is not judged here
		case "cut":
		default:
			if !live {
				mustEnd = s.kind + " for an answer to the handshake"
			}
		}
		if mustEnd != "" {
			break
		}
	}
	for answers > 0 && (live || mustEnd == "") {
		number, _, _, err := vNext(conn)
		if err != nil {
			if !stopping() {
				fail("no answer: %v, %q", err, v.log)
			}
			return
		}
		if number == 1001 || number == 1002 {
			answers--
			note("answer %d", number)
		}
	}
	if mustEnd == "" {
		settled()
		<-told
	}
	if !vEnded(conn) {
		fail("connection stays open after %q", append(v.log, mustEnd))
	}
}

var vFrame = regexp.MustCompile(`/p2p/[a-z_0-9]+\.go:\d+`)

// vLeft lists goroutines that are in the code of the package.
func vLeft() (l []string) {
	buf := make([]byte, 64<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		for _, f := range vFrame.FindAllString(g, -1) {
			if !strings.Contains(f, "_test.go") {
				l = append(l, g)
				break
			}
		}
	}
	return
}

func TestVerifC31Life(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1, Thorough: 8, Limit: 11 * time.Minute,
		Rule: "16 running nodes at once, each with 4 to 14 connections, most taken and some made by the node, whose other ends do up to 4 of 13 things (proper and refused handshakes, syncs, unknown and damaged messages, noise, cut packets, pauses) and then close, reset or stay silent; answers come to all that ask properly, also to one that comes last, connections of dropped ones end, and when the node is told to stop, at any moment, Run returns, every connection ends, the port is free and no goroutine stays; non-trivial: nodes with connections open at the stop"},
		func(rt *rapid.T, c *kit.Case) {
			type life struct {
				w      *chaingen.World
				n      *Node
				addr   string
				visits []*vVisit
				stop   time.Duration
				last   bool
				ending bool // stopped only when all connections of dropped ones have ended
				cancel func()
				done   chan error
				told   chan bool
				gate   sync.RWMutex
			}
			var mu sync.Mutex
			var bad []string
			fail := func(format string, a ...any) {
				mu.Lock()
				bad = append(bad, fmt.Sprintf(format, a...))
				mu.Unlock()
			}
			var lives []*life
			for i := 0; i < 16; i++ {
				w := vWorld(rt)
				l := &life{w: w, n: vNode(w), told: make(chan bool)}
				for j := 4 + kit.Even(rt, 11, "visits"); j > 0; j-- {
					l.visits = append(l.visits, vDrawVisit(rt, w, uint64(100*i+j+1)))
				}
				l.stop = time.Duration(kit.Even(rt, 7000, "stop")) * time.Millisecond
				l.last = kit.Even(rt, 3, "last") > 0
				l.ending = kit.Even(rt, 2, "ending") == 0
				lives = append(lives, l)
			}
			var wg sync.WaitGroup
			for i, l := range lives {
				ctx, cancel := context.WithCancel(context.Background())
				l.cancel = cancel
				defer cancel()
				l.addr, l.done = vListen(rt, l.n, ctx)
				wg.Add(1)
				go func() {
					defer wg.Done()
					var vs, settled sync.WaitGroup
					calls := make([]chan bool, len(l.visits))
					for k, v := range l.visits {
						var conn net.Conn
						var err error
						if v.called {
							srv, e := net.Listen("tcp4", "127.0.0.1:0")
							if e != nil {
								fail("VERIF-INFRA %v", e)
								return
							}
							calls[k] = make(chan bool)
							if v.absent {
								srv.Close()
							}
							go func() {
								l.n.syncWithAddr(srv.Addr().String())
								close(calls[k])
							}()
							if v.absent {
								kit.Within(kit.Patience, "a call that nobody takes", func() { <-calls[k] })
								continue
							}
							srv.(*net.TCPListener).SetDeadline(time.Now().Add(kit.Patience))
							conn, err = srv.Accept()
							srv.Close()
						} else {
							conn, err = net.Dial("tcp4", l.addr)
						}
						if err != nil {
							fail("VERIF-INFRA no connection: %v", err)
							return
						}
						vs.Add(1)
						settled.Add(1)
						go func() {
							defer vs.Done()
							v.play(l.n, conn, l.told, calls[k], &l.gate, sync.OnceFunc(settled.Done), fail)
						}()
					}
					time.Sleep(l.stop)
					if l.last { // one that comes late is served like any other
						v := &vVisit{}
						h := vHello{network: l.w.Net.NetworkID, version: l.w.Net.P2PCurrentVersion, id: uint64(100*i + 99), height: l.w.Top + 1, top: l.w.Recs[l.w.Top].Hash}
						v.steps = []vStep{{kind: "hello", send: vPack(true, 1001, 0, 1, h.request()).bytes()}, {kind: "close"}}
						conn, err := net.Dial("tcp4", l.addr)
						if err != nil {
							fail("node does not take connections: %v", err)
						} else {
							if _, err := conn.Write(v.steps[0].send); err != nil {
								fail("node does not read: %v", err)
							} else if number, _, _, err := vNext(conn); err != nil || number != 1001 {
								fail("late client got %d %v", number, err)
							}
							defer conn.Close()
						}
					}
					if l.ending {
						kit.Within(2*kit.Patience, "connections of dropped peers", settled.Wait)
					}
					l.gate.Lock()
					close(l.told)
					l.cancel()
					l.gate.Unlock()
					kit.Within(kit.Patience, "Run after its context ended", func() {
						if err := <-l.done; err != nil {
							fail("Run: %v", err)
						}
					})
					kit.Within(2*kit.Patience, "connections of a stopped node", vs.Wait)
					for _, x := range calls {
						if x != nil {
							kit.Within(kit.Patience, "a call of a stopped node", func() { <-x })
						}
					}
					if again, err := net.Listen("tcp4", l.addr); err != nil {
						// another process may have taken the port
						if conn, err := net.Dial("tcp4", l.addr); err == nil {
							conn.SetReadDeadline(time.Now().Add(time.Second))
							fail("port still taken after Run: %v", err)
							conn.Close()
						}
					} else {
						again.Close()
					}
				}()
			}
			wg.Wait()
			if len(bad) > 0 {
				rt.Fatalf("%q", bad)
			}
			if !vWait(func() bool { return len(vLeft()) == 0 }) {
				l := vLeft()
				rt.Fatalf("%d goroutines stay when all nodes have stopped:\n%s", len(l), l[0])
			}
			for _, l := range lives {
				for _, v := range l.visits {
					c.Label(fmt.Sprintf("called %v: %s", v.called, strings.Join(v.log, ", ")))
				}
				c.Hit(fmt.Sprintf("%v %v", l.stop, l.addr))
				c.Sample("stopped after %v with %d connections", l.stop, len(l.visits))
			}
		})
}

func TestVerifC31Stop(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 2, Thorough: 40,
		Rule: "120 nodes over one chain, each told to stop while up to 24 clients connect from 2 ms before to 4 ms after, some of them saying hello: Run returns, every connection ends, nothing panics and no goroutine stays; under the race detector; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := vWorld(rt)
			h := vHello{network: w.Net.NetworkID, version: w.Net.P2PCurrentVersion, id: 5, height: w.Top + 1, top: w.Recs[w.Top].Hash}
			hello := vPack(true, 1001, 0, 1, h.request()).bytes()
			type stop struct {
				n     *Node
				addr  string
				done  chan error
				end   func()
				after []int // microseconds
				hello []bool
			}
			var stops []*stop
			for i := 0; i < 120; i++ {
				s := &stop{n: vNode(w)}
				for j := kit.Even(rt, 25, "clients"); j > 0; j-- {
					s.after = append(s.after, kit.Even(rt, 6000, "after"))
					s.hello = append(s.hello, rapid.Bool().Draw(rt, "hello"))
				}
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				s.end = cancel
				s.addr, s.done = vListen(rt, s.n, ctx)
				stops = append(stops, s)
			}
			var mu sync.Mutex
			var bad []string
			fail := func(format string, a ...any) {
				mu.Lock()
				bad = append(bad, fmt.Sprintf(format, a...))
				mu.Unlock()
			}
			var wg sync.WaitGroup
			clients, taken := 0, 0
			for _, s := range stops {
				for j := range s.after {
					clients++
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(time.Duration(s.after[j]) * time.Microsecond)
						conn, err := net.Dial("tcp4", s.addr)
						if err != nil {
							return
						}
						defer conn.Close()
						if s.hello[j] {
							conn.Write(hello)
						}
						if !vEnded(conn) {
							fail("connection %d µs after the stop stays open", s.after[j]-2000)
						}
						mu.Lock()
						taken++
						mu.Unlock()
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(2 * time.Millisecond)
					s.end()
					kit.Within(kit.Patience, "Run after its context ended", func() {
						if err := <-s.done; err != nil {
							fail("Run: %v", err)
						}
					})
				}()
			}
			wg.Wait()
			if len(bad) > 0 {
				rt.Fatalf("%q", bad)
			}
			if !vWait(func() bool { return len(vLeft()) == 0 }) {
				l := vLeft()
				rt.Fatalf("%d goroutines stay when all nodes have stopped:\n%s", len(l), l[0])
			}
			c.Hit(clients, w.Top)
			c.Sample("120 nodes stopped, %d clients, %d of them taken", clients, taken)
		})
}

func TestVerifC31Many(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 4, Thorough: 60,
		Rule: "a running node that meanwhile has taken up to 1324 connections, up to 500 of them at once, one third silent, one third ended by their other ends and one third of peers that said hello, with IDs of their own: all hellos are answered, so is one that comes last, then timed syncs of all, and the node stops as always; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := vWorld(rt)
			h := vHello{network: w.Net.NetworkID, version: w.Net.P2PCurrentVersion, height: w.Top + 1, top: w.Recs[w.Top].Hash}
			n := vNode(w)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			addr, done := vListen(rt, n, ctx)
			var open, greeted []net.Conn
			defer func() {
				for _, conn := range open {
					conn.Close()
				}
			}()
			room, limit := 500, syscall.Rlimit{}
			if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &limit); err == nil && limit.Cur < 4000 {
				room = int(limit.Cur / 8)
			}
			total := 1 + kit.Even(rt, 300, "total")
			if kit.Even(rt, 2, "many") == 0 {
				total += 1024
			}
			hello := func(id uint64, conn net.Conn) {
				h.id = id
				if _, err := conn.Write(vPack(true, 1001, 0, 1, h.request()).bytes()); err != nil {
					rt.Fatalf("node does not read from connection %d: %v", id, err)
				}
			}
			answer := func(what uint32, conn net.Conn) {
				for {
					number, _, _, err := vNext(conn)
					if err != nil {
						rt.Fatalf("no answer to %d among %d connections, %d of them open: %v", what, total, len(open), err)
					}
					if number == what {
						return
					}
				}
			}
			for i := 1; i <= total; i++ {
				conn, err := net.Dial("tcp4", addr)
				if err != nil {
					rt.Fatalf("connection %d, with %d open: %v", i, len(open), err)
				}
				kind := kit.Even(rt, 3, "kind")
				if len(open) >= room || kind == 0 {
					conn.Close()
					continue
				}
				open = append(open, conn)
				if kind == 1 {
					greeted = append(greeted, conn)
					hello(uint64(i), conn)
				}
			}
			last, err := net.Dial("tcp4", addr)
			if err != nil {
				rt.Fatalf("connection after %d others, with %d open: %v", total, len(open), err)
			}
			hello(uint64(total+1), last)
			open, greeted = append(open, last), append(greeted, last)
			for _, conn := range greeted {
				answer(1001, conn)
			}
			for _, conn := range greeted {
				if _, err := conn.Write(vPack(true, 1002, 0, 1, h.timed()).bytes()); err != nil {
					rt.Fatalf("node does not read: %v", err)
				}
			}
			for _, conn := range greeted {
				answer(1002, conn)
			}
			cancel()
			kit.Within(kit.Patience, "Run after its context ended", func() { err = <-done })
			if err != nil {
				rt.Fatalf("Run: %v", err)
			}
			for _, conn := range open {
				if !vEnded(conn) {
					rt.Fatalf("connection stays open, one of %d", len(open))
				}
			}
			if !vWait(func() bool { return len(vLeft()) == 0 }) {
				l := vLeft()
				rt.Fatalf("%d goroutines stay after %d connections:\n%s", len(l), total, l[0])
			}
			c.Hit(total, len(open), len(greeted))
			c.Sample("%d connections, %d open, %d said hello", total, len(open), len(greeted))
		})
}

func TestVerifC31Busy(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1, Thorough: 6, Limit: 5 * time.Minute,
		Rule: "12 nodes at once that are told to stop while 1 to 6 of their connections are in the middle of handling what a peer sent, held there by the storage for 6.5 to 9 s, which is longer than the listener needs to end: Run returns soon after, and not before, the last of them goes on; non-trivial: all nodes whose storage was asked"},
		func(rt *rapid.T, c *kit.Case) {
			type busy struct {
				w       *chaingen.World
				n       *Node
				disk    *chaingen.Faulty
				peers   int
				hold    time.Duration
				held    int32
				release chan bool
				addr    string
				done    chan error
				cancel  func()
				failed  string
			}
			var all []*busy
			for i := 0; i < 12; i++ {
				b := &busy{disk: &chaingen.Faulty{}, release: make(chan bool), peers: 1 + kit.Even(rt, 6, "peers"), hold: time.Duration(6500+kit.Even(rt, 2500, "hold")) * time.Millisecond}
				b.w = chaingen.New(rt, chaingen.Options{Top: 20 + uint32(kit.Even(rt, 60, "top")), Wrap: b.disk.Wrapper})
				b.n = vNode(b.w)
				ctx, cancel := context.WithCancel(context.Background())
				b.cancel = cancel
				defer cancel()
				b.addr, b.done = vListen(rt, b.n, ctx)
				b.disk.Lookup = func(uint32) error {
					atomic.AddInt32(&b.held, 1)
					<-b.release
					return nil
				}
				all = append(all, b)
			}
			var wg sync.WaitGroup
			for _, b := range all {
				wg.Add(1)
				go func() {
					defer wg.Done()
					open := sync.OnceFunc(func() { close(b.release) })
					defer open()
					for i := 0; i < b.peers; i++ {
						conn, err := net.Dial("tcp4", b.addr)
						if err != nil {
							b.failed = fmt.Sprintf("node does not take connections: %v", err)
							return
						}
						defer conn.Close()
						// A top that the node does not have makes it ask for the chain
						h := vHello{network: b.w.Net.NetworkID, version: b.w.Net.P2PCurrentVersion, id: uint64(i + 1), height: b.w.Top + 5, top: [32]byte{1, 2, 3}}
						conn.Write(vPack(true, 1001, 0, 1, h.request()).bytes())
					}
					for end := time.Now().Add(20 * time.Second); int(atomic.LoadInt32(&b.held)) < b.peers && time.Now().Before(end); {
						time.Sleep(10 * time.Millisecond)
					}
					b.cancel()
					held := atomic.LoadInt32(&b.held)
					select {
					case err := <-b.done:
						if held > 0 {
							b.failed = fmt.Sprintf("Run returned %v while %d connections are handled", err, held)
							return
						}
						b.done <- err
					case <-time.After(b.hold):
					}
					open()
					kit.Within(kit.Patience, "Run after its context ended and the last message was handled", func() {
						if err := <-b.done; err != nil {
							b.failed = fmt.Sprintf("Run: %v", err)
						}
					})
				}()
			}
			wg.Wait()
			for _, b := range all {
				if b.failed != "" {
					rt.Fatalf("%s", b.failed)
				}
			}
			if !vWait(func() bool { return len(vLeft()) == 0 }) {
				l := vLeft()
				rt.Fatalf("%d goroutines stay when all nodes have stopped:\n%s", len(l), l[0])
			}
			for _, b := range all {
				if held := atomic.LoadInt32(&b.held); held > 0 {
					c.Hit(held, b.hold, b.w.Top)
					c.Sample("%d connections held for %v", held, b.hold)
				}
			}
		})
}
