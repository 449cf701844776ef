//go:build go1.23

package cmd_test

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

const (
	bind    = "127.0.0.1:32447"
	genesis = "3125b79e4a42f8d4d2fc4dffea8442e185ebda940ecd4d3b449056a4ea0efea4"
)

// output gathers what a process prints and tells when a text has come.
type output struct {
	sync.Mutex
	b    bytes.Buffer
	want string
	came chan bool
}

func (o *output) Write(p []byte) (int, error) {
	o.Lock()
	defer o.Unlock()
	o.b.Write(p)
	if o.want != "" && bytes.Contains(o.b.Bytes(), []byte(o.want)) {
		o.want = ""
		close(o.came)
	}
	return len(p), nil
}

func (o *output) String() string {
	o.Lock()
	defer o.Unlock()
	return o.b.String()
}

// daemon is a running krbd.
type daemon struct {
	cmd  *exec.Cmd
	out  *output
	done chan error
}

// start runs the daemon in a home directory of its own, on one processor if narrow, with so many files if not 0.
func start(binary, home string, args, env []string, narrow bool, files int) (*daemon, error) {
	d := &daemon{out: &output{want: "Server started.", came: make(chan bool)}, done: make(chan error, 1)}
	d.cmd = exec.Command(binary, args...)
	if files > 0 {
		d.cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, files), binary}, args...)...)
	}
	d.cmd.Dir = home
	d.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + home, "GORACE=halt_on_error=1 exitcode=66"}, env...)
	d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	var all [128]byte
	if narrow {
		// the child inherits it
		syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&all)))
		one := all
		found := false
		for i := range one {
			for b := 0; b < 8; b++ {
				if one[i]>>b&1 == 1 {
					if found {
						one[i] &^= 1 << b
					}
					found = true
				}
			}
		}
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&one)))
	}
	err := d.cmd.Start()
	if narrow {
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&all)))
	}
	// the thread stays locked, and so alive, as the child would die with it
	if err != nil {
		return nil, err
	}
	go func() { d.done <- d.cmd.Wait() }()
	return d, nil
}

func (d *daemon) kill() {
	d.cmd.Process.Kill()
}

// ends waits for the end of the daemon and gives its exit code.
func (d *daemon) ends() (int, bool) {
	select {
	case err := <-d.done:
		d.done <- err
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			return ee.ExitCode(), true
		}
		return 0, true
	case <-time.After(60 * time.Second):
		return 0, false
	}
}

func listens() bool {
	c, err := net.DialTimeout("tcp4", bind, time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// listing of a directory, with what the files hold
func listing(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s %x", p, b))
		} else {
			l = append(l, p)
		}
		return nil
	})
	return strings.Join(l, "\n")
}

// hello makes a handshake and compares the answer with the main network.
func hello(id uint64) error {
	c, err := net.DialTimeout("tcp4", bind, 10*time.Second)
	if err != nil {
		return err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	mainnet := config.MainNet()
	var top [32]byte
	hex.Decode(top[:], []byte(genesis))
	req := p2p.HandshakeRequest{
		NodeData:    p2p.BasicNodeData{NetworkID: mainnet.NetworkID, Version: mainnet.P2PCurrentVersion, PeerID: id},
		PayloadData: p2p.SyncData{CurrentHeight: 1, TopBlockHash: top},
	}
	var res p2p.HandshakeResponse
	if err := (&p2p.LevinProtocol{Conn: c}).Invoke(p2p.CommandHandshake, req, &res); err != nil {
		return err
	}
	if res.NodeData.NetworkID != mainnet.NetworkID || res.NodeData.Version != mainnet.P2PCurrentVersion || res.PayloadData.CurrentHeight != 1 || hex.EncodeToString(res.PayloadData.TopBlockHash[:]) != genesis {
		return fmt.Errorf("answer of another network or chain: %+v", res)
	}
	return nil
}

// freeOfOthers waits until no other run of this check has a daemon.
func freeOfOthers(t *testing.T) func() {
	f, err := os.OpenFile("/tmp/verif-krbd.lock", os.O_CREATE|os.O_RDWR, 0o666)
	if err != nil {
		t.Fatalf("VERIF-INFRA %v", err)
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		t.Fatalf("VERIF-INFRA %v", err)
	}
	return func() { f.Close() }
}

func TestVerifC33Daemon(t *testing.T) {
	dir := t.TempDir()
	binary := filepath.Join(dir, "krbd")
	build := exec.Command("go", "build", "-race", "-o", binary, ".")
	build.Dir = os.Getenv("VERIF_REPO")
	if out, err := build.CombinedOutput(); err != nil {
		t.Fatalf("VERIF-INFRA build: %v %s", err, out)
	}
	defer freeOfOthers(t)()
	if listens() {
		t.Fatalf("VERIF-INFRA port %s is in use", bind)
	}
	n := 0
	kit.Run(t, kit.Spec{Quick: 12, Thorough: 150, Limit: 10 * time.Minute,
		Rule: "krbd, built with the race detector, started with config files, flags, arguments and variables of all kinds, on one or all processors, some with so few files that a crowd of clients exhausts them before: it serves up to 6 clients (handshakes, silence, noise, cut packets) on the main network, and interrupted up to 4 times at any moment after it says that it started it ends with exit code 0, frees its port and leaves no files; with help, version, unknown flags or a port in use it ends at once with the right code; non-trivial: daemons that served"},
		func(rt *rapid.T, c *kit.Case) {
			n++
			home := filepath.Join(dir, fmt.Sprint("home", n))
			os.Mkdir(home, 0o777)
			var args, env []string
			mode := rapid.SampledFrom([]string{"serve", "serve", "serve", "serve", "serve", "help", "version", "unknown flag", "port in use"}).Draw(rt, "mode")
			text := func() []byte {
				switch kit.Even(rt, 3, "config") {
				case 0:
					return kit.Blob(rt, kit.Even(rt, 200, "size"), "blob")
				case 1:
					return []byte("bind: 127.0.0.1:1\nBindAddr: \"0.0.0.0:9\"\nnetwork: testnet\nconfig: /nowhere\ntoggle: true\n")
				}
				return []byte("a: [b\n\t: }")
			}
			where := kit.Even(rt, 5, "where")
			switch where {
			case 0:
				os.WriteFile(filepath.Join(home, rapid.SampledFrom([]string{".krbd.yml", ".krbd.yaml", ".krbd.json", ".krbd.toml", ".krbd"}).Draw(rt, "name")), text(), 0o666)
			case 1:
				p := filepath.Join(home, rapid.SampledFrom([]string{"x.yml", "x.json", "x", "x.toml", "x.ini"}).Draw(rt, "name"))
				os.WriteFile(p, text(), 0o666)
				args = append(args, "--config", p)
			case 2:
				args = append(args, "--config="+rapid.SampledFrom([]string{"/nowhere/x.yml", ".", "x"}).Draw(rt, "name"))
			}
			if kit.Even(rt, 3, "toggle") == 0 {
				args = append(args, rapid.SampledFrom([]string{"-t", "--toggle", "--toggle=false"}).Draw(rt, "toggle"))
			}
			for i := kit.Even(rt, 4, "env"); i > 0; i-- {
				env = append(env, rapid.SampledFrom([]string{"CONFIG", "TOGGLE", "BINDADDR", "KRBD_CONFIG", "NETWORK", "PORT"}).Draw(rt, "env")+"=testnet")
			}
			narrow := kit.Even(rt, 2, "narrow") == 0
			switch mode {
			case "help":
				args = append(args, rapid.SampledFrom([]string{"-h", "--help"}).Draw(rt, "help"))
			case "version":
				args = append(args, "--version")
			case "unknown flag":
				args = append(args, rapid.SampledFrom([]string{"--bind=0.0.0.0:1", "-x", "--testnet"}).Draw(rt, "unknown"))
			}
			files := 0
			if mode == "serve" && kit.Even(rt, 4, "crowded") == 0 {
				files = 16 + kit.Even(rt, 16, "files")
			}
			before := listing(home)
			about := fmt.Sprintf("%s: krbd %q %q", mode, args, env)
			c.Label(mode)
			if mode == "port in use" {
				l, err := net.Listen("tcp4", bind)
				if err != nil {
					rt.Fatalf("VERIF-INFRA %v", err)
				}
				defer l.Close()
			}
			d, err := start(binary, home, args, env, narrow, files)
			if err != nil {
				rt.Fatalf("VERIF-INFRA %v", err)
			}
			defer d.kill()
			over := func() {
				if listing(home) != before {
					rt.Fatalf("%s: files changed from\n%s\nto\n%s", about, before, listing(home))
				}
			}
			if mode != "serve" {
				code, ended := d.ends()
				if !ended {
					rt.Fatalf("%s does not end", about)
				}
				if good := mode == "help" || mode == "version"; good != (code == 0) {
					rt.Fatalf("%s ends with code %d:\n%s", about, code, d.out)
				}
				if mode != "port in use" && strings.Contains(d.out.String(), "Server started.") {
					rt.Fatalf("%s started a server", about)
				}
				over()
				return
			}
			kinds := []string{}
			for i := kit.Even(rt, 7, "clients"); i > 0; i-- {
				kinds = append(kinds, rapid.SampledFrom([]string{"hello", "hello", "silent", "noise", "cut", "close"}).Draw(rt, "client"))
			}
			wait := time.Duration(0)
			if rapid.Bool().Draw(rt, "later") {
				wait = time.Duration(kit.Even(rt, 4000, "wait")) * time.Millisecond
			}
			again := kit.Even(rt, 4, "again")
			gap := time.Duration(kit.Even(rt, 4, "gap")*300) * time.Millisecond
			if files > 0 {
				c.Label("out of files")
				kinds = append(kinds, "hello")
				about += fmt.Sprintf(", with %d files and first more clients", files)
			}
			about += fmt.Sprintf(", clients %q, stopped after %v and %d times more, %v apart, one processor: %v", kinds, wait, again, gap, narrow)

			select {
			case <-d.out.came:
			case err := <-d.done:
				d.done <- err
				rt.Fatalf("%s ended: %v\n%s", about, err, d.out)
			case <-time.After(60 * time.Second):
				rt.Fatalf("%s does not start:\n%s", about, d.out)
			}
			if len(kinds) > 0 || wait > 0 {
				for i := 0; !listens(); i++ {
					if i > 3000 {
						rt.Fatalf("%s does not listen:\n%s", about, d.out)
					}
					time.Sleep(10 * time.Millisecond)
				}
			}
			if files > 0 {
				var crowd []net.Conn
				for i := 0; i < files+20; i++ {
					conn, err := net.DialTimeout("tcp4", bind, 10*time.Second)
					if err != nil {
						rt.Fatalf("VERIF-INFRA %v", err)
					}
					crowd = append(crowd, conn)
				}
				time.Sleep(time.Duration(kit.Even(rt, 400, "crowd")) * time.Millisecond)
				for _, conn := range crowd {
					conn.Close()
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var wg sync.WaitGroup
			bad := make([]error, len(kinds))
			for i, k := range kinds {
				if k == "hello" {
					wg.Add(1)
					go func() { defer wg.Done(); bad[i] = hello(uint64(i + 1)) }()
					continue
				}
				conn, err := net.DialTimeout("tcp4", bind, 10*time.Second)
				if err != nil {
					rt.Fatalf("%s takes no connection: %v", about, err)
				}
				go func() { <-ctx.Done(); conn.Close() }()
				switch k {
				case "noise":
					conn.Write(kit.Blob(rt, 100, "noise"))
				case "cut":
					conn.Write([]byte{1, 33, 1, 1, 1, 1, 1, 1, 40, 0})
				case "close":
					conn.Close()
				}
			}
			wg.Wait()
			for i := range bad {
				if bad[i] != nil {
					rt.Fatalf("%s: handshake %d: %v\n%s", about, i, bad[i], d.out)
				}
			}
			time.Sleep(wait)
			for i := 0; i <= again; i++ {
				d.cmd.Process.Signal(os.Interrupt)
				if i < again {
					time.Sleep(gap)
				}
			}
			code, ended := d.ends()
			if !ended {
				rt.Fatalf("%s does not end when interrupted:\n%s", about, d.out)
			}
			if code != 0 || !strings.Contains(d.out.String(), "Server stopped.") {
				rt.Fatalf("%s, interrupted, ends with code %d:\n%s", about, code, d.out)
			}
			if l, err := net.Listen("tcp4", bind); err != nil {
				rt.Fatalf("%s has ended and its port is taken: %v", about, err)
			} else {
				l.Close()
			}
			over()
			c.Hit(about)
			c.Sample("%s", about)
		})
}
