//go:build go1.23

// Package kit runs generated checks: case counts by tier, evidence, watchdog, deterministic randomness.
package kit

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

// Spec of one generated check.
type Spec struct {
	Quick, Thorough int
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Limit, if set, is how long a case may take.
	Limit time.Duration
}

// Case is handed to the property once per generated case.
type Case struct {
	rec *recorder
	key uint64
	hit bool
	smp string
}

type recorder struct {
	mu          sync.Mutex
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	seen        map[uint64]struct{}
	samplesAt   int
}

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tells the tier.
func Thorough() bool { return Tier() == "thorough" }

// Run checks prop on Spec's number of generated cases.
func Run(t *testing.T, s Spec, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	n := s.Quick
	if Thorough() {
		n = s.Thorough
	}
	if err := flag.Set("rapid.checks", fmt.Sprint(n)); err != nil {
		t.Fatalf("VERIF-INFRA %v", err)
	}
	// a case takes milliseconds, the longest some seconds: one that does not end hangs in the code under test
	limit := 180 * time.Second
	if Thorough() {
		limit = 10 * time.Minute
	}
	if s.Limit > 0 {
		limit = s.Limit
	}
	rec := &recorder{Test: t.Name(), Rule: s.Rule, Labels: map[string]int{}, seen: map[uint64]struct{}{}, samplesAt: 1}
	defer rec.write()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{rec: rec}
		Within(limit, "a case", func() { prop(rt, c) })
		rec.mu.Lock()
		rec.Evaluations++
		if c.hit {
			if _, ok := rec.seen[c.key]; !ok {
				rec.seen[c.key] = struct{}{}
				rec.Distinct++
				if c.smp != "" && rec.Distinct >= rec.samplesAt && len(rec.Samples) < 8 {
					rec.samplesAt *= 5
					rec.Samples = append(rec.Samples, c.smp)
				}
			}
		}
		rec.mu.Unlock()
	})
}

func (r *recorder) write() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	b, _ := json.Marshal(r)
	name := filepath.Join(out, fmt.Sprintf("%s.%d.json", r.Test, os.Getpid()))
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fmt.Println("VERIF-INFRA", err)
	}
}

// Hit marks the case as non-trivial; parts identify it for counting distinct cases.
func (c *Case) Hit(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xfe, 0x01})
	}
	c.key ^= h.Sum64() * 31
	c.hit = true
}

// Label counts the case in a class.
func (c *Case) Label(l string) {
	c.rec.mu.Lock()
	c.rec.Labels[l]++
	c.rec.mu.Unlock()
}

// Sample describes the case for the evidence file.
func (c *Case) Sample(format string, args ...any) {
	if c.smp != "" {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.smp = s
}

// ---- in-flight input (for deaths that cannot be recovered) ----

var inflight *os.File

// InFlight notes the input being tried, so that a death of the process leaves it behind.
func InFlight(what string, data []byte) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	if inflight == nil {
		f, err := os.Create(filepath.Join(out, fmt.Sprintf("inflight.%d", os.Getpid())))
		if err != nil {
			return
		}
		inflight = f
	}
	if len(data) > 1<<16 {
		data = data[:1<<16]
	}
	s := []byte(fmt.Sprintf("%s %x\n", what, data))
	inflight.WriteAt(s, 0)
	inflight.Truncate(int64(len(s)))
}

// ---- watchdog ----

// Within runs f, which must return; if it has not returned after d the process ends with a violation report.
func Within(d time.Duration, what string, f func()) {
	timer := time.AfterFunc(d, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("VERIF-HANG %s did not return within %v\n%s\n", what, d, buf)
		os.Exit(3)
	})
	defer timer.Stop()
	f()
}

// Patience is how long a call that must return is given: far beyond what it needs on a busy machine.
const Patience = 90 * time.Second

// ---- allocation ----

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// Allocated tells how many heap bytes f allocated (cumulative, not live).
func Allocated(f func()) uint64 {
	metrics.Read(allocSample)
	a := allocSample[0].Value.Uint64()
	f()
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64() - a
}

// ---- randomness ----

// Stream is a deterministic byte stream.
type Stream struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
}

// NewStream makes the stream of a seed.
func NewStream(seed uint64) *Stream {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	return &Stream{key: sha256.Sum256(append([]byte("verif stream"), b[:]...))}
}

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(p)
	for len(p) > 0 {
		if len(s.buf) == 0 {
			var b [40]byte
			copy(b[:], s.key[:])
			binary.LittleEndian.PutUint64(b[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(b[:])
			s.buf = h[:]
		}
		k := copy(p, s.buf)
		p = p[k:]
		s.buf = s.buf[k:]
	}
	return n, nil
}

// SeedCrypto makes crypto/rand deterministic for the case.
func SeedCrypto(rt *rapid.T) {
	seed := rapid.Uint64().Draw(rt, "cryptoSeed")
	crand.Reader = NewStream(seed)
}

// Expand makes n bytes of a seed.
func Expand(seed uint64, n int) []byte {
	b := make([]byte, n)
	NewStream(seed).Read(b)
	return b
}

// ---- generators ----

// Blob draws n bytes: element by element when short (shrinks well), expanded from a seed when long.
func Blob(rt *rapid.T, n int, name string) []byte {
	if n <= 48 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, name)
	}
	return Expand(rapid.Uint64().Draw(rt, name+"Seed"), n)
}

// Bytes draws up to max bytes.
func Bytes(rt *rapid.T, max int, name string) []byte {
	return Blob(rt, rapid.IntRange(0, max).Draw(rt, name+"Len"), name)
}

// Arr32 draws 32 bytes: mostly random, sometimes constant patterns.
func Arr32(rt *rapid.T, name string) (a [32]byte) {
	switch rapid.IntRange(0, 9).Draw(rt, name+"Kind") {
	case 0:
		return
	case 1:
		for i := range a {
			a[i] = 0xff
		}
	case 2:
		a[rapid.IntRange(0, 31).Draw(rt, name+"Pos")] = rapid.Byte().Draw(rt, name+"Val")
	default:
		copy(a[:], Expand(rapid.Uint64().Draw(rt, name+"Seed"), 32))
	}
	return
}

// U64 draws 64-bit values with boundaries of varint widths, powers of two and ten, and random ones.
func U64(rt *rapid.T, name string) uint64 {
	switch rapid.IntRange(0, 5).Draw(rt, name+"Kind") {
	case 0:
		return rapid.Uint64Range(0, 300).Draw(rt, name)
	case 1:
		s := rapid.IntRange(0, 63).Draw(rt, name+"Shift")
		d := rapid.IntRange(-2, 2).Draw(rt, name+"Delta")
		return uint64(1)<<s + uint64(int64(d))
	case 2:
		return ^uint64(0) - rapid.Uint64Range(0, 3).Draw(rt, name)
	case 3:
		p := uint64(1)
		for i := rapid.IntRange(0, 19).Draw(rt, name+"Exp"); i > 0; i-- {
			p *= 10
		}
		return p*rapid.Uint64Range(1, 9).Draw(rt, name+"Digit") + uint64(int64(rapid.IntRange(-1, 1).Draw(rt, name+"Delta")))
	case 4:
		// patterns of ones and zeros
		a := rapid.IntRange(0, 64).Draw(rt, name+"Hi")
		b := rapid.IntRange(0, 64).Draw(rt, name+"Lo")
		v := ^uint64(0)
		if a < 64 {
			v = uint64(1)<<a - 1
		}
		if b < 64 {
			v ^= uint64(1)<<b - 1
		}
		return v
	}
	return rapid.Uint64().Draw(rt, name)
}

// U32 draws 32-bit values in the same way.
func U32(rt *rapid.T, name string) uint32 {
	switch rapid.IntRange(0, 3).Draw(rt, name+"Kind") {
	case 0:
		return rapid.Uint32Range(0, 300).Draw(rt, name)
	case 1:
		return uint32(1)<<rapid.IntRange(0, 31).Draw(rt, name+"Shift") + uint32(rapid.IntRange(-1, 1).Draw(rt, name+"Delta"))
	case 2:
		return ^uint32(0) - rapid.Uint32Range(0, 3).Draw(rt, name)
	}
	return rapid.Uint32().Draw(rt, name)
}

// Even draws 0 to n-1 without rapid's preference for small values.
func Even(rt *rapid.T, n int, name string) int {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], rapid.Uint64().Draw(rt, name))
	h.Write(b[:])
	v := h.Sum64()
	v ^= v >> 29
	return int(v % uint64(n))
}

// NoPanic runs f and turns a panic into a failure of the case.
func NoPanic(rt *rapid.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			rt.Fatalf("%s panicked: %v\n%s", what, r, buf)
		}
	}()
	f()
}

// Try runs f and returns its panic, if any.
func Try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Quiet is a writer for loggers.
var Quiet io.Writer = io.Discard

// Owned holds a result of f against want while others are made, then scribbles over it: what a call returned belongs to
// the caller, and what the caller does with it does not show in later results.
func Owned(rt *rapid.T, what string, want []byte, f func() []byte, others ...func()) {
	var first []byte
	NoPanic(rt, what, func() { first = f() })
	for _, o := range others {
		NoPanic(rt, what, o)
	}
	if !bytes.Equal(first, want) {
		rt.Fatalf("%s: a result %s turned into %s", what, clip(want), clip(first))
	}
	for i := range first {
		first[i] ^= 0x5a
	}
	var again []byte
	NoPanic(rt, what, func() { again = f() })
	if !bytes.Equal(again, want) {
		rt.Fatalf("%s: writing to a result changed the next one from %s to %s", what, clip(want), clip(again))
	}
}

func clip(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// IndexList is a list, whether it never falls and whether nothing in it occurs twice.
func IndexList(rt *rapid.T) (l []uint32, sorted, unique bool) {
	n := Even(rt, []int{6, 40, 300}[Even(rt, 3, "size")], "count")
	seen := map[uint32]bool{}
	for i := 0; i < n; i++ {
		x := uint32(0)
		switch Even(rt, 3, "valueKind") {
		case 0:
			x = uint32(Even(rt, 1000, "value"))
		case 1:
			x = U32(rt, "value")
		case 2:
			x = uint32(Even(rt, 1<<32, "value"))
		}
		l = append(l, x)
	}
	if Even(rt, 3, "order") > 0 {
		slices.Sort(l)
	}
	if Even(rt, 3, "repeat") > 0 {
		out := l[:0]
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		l = out
	}
	switch Even(rt, 5, "change") {
	case 0: // something once more, anywhere
		if len(l) > 1 {
			l[Even(rt, len(l), "to")] = l[Even(rt, len(l), "from")]
		}
	case 1: // two in the wrong places
		if len(l) > 1 {
			i := Even(rt, len(l)-1, "swap")
			l[i], l[i+1] = l[i+1], l[i]
		}
	case 2:
		if len(l) > 1 { // the last or first repeats
			if Even(rt, 2, "end") == 0 {
				l[len(l)-1] = l[len(l)-2]
			} else {
				l[1] = l[0]
			}
		}
	}
	sorted, unique = true, true
	seen = map[uint32]bool{}
	for i, x := range l {
		sorted = sorted && (i == 0 || l[i-1] <= x)
		unique = unique && !seen[x]
		seen[x] = true
	}
	return
}
