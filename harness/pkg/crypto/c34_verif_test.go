//go:build go1.23

package crypto

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// vSource is a source of randomness that hands out chosen bytes first, in pieces, and remembers what it gave.
type vSource struct {
	script []byte
	rest   *kit.Stream
	piece  int // at most so many bytes a time; 0 is no limit
	left   int // fails after so many bytes; negative is never
	taken  []byte
}

func (s *vSource) Read(p []byte) (int, error) {
	if s.left == 0 {
		return 0, errors.New("no more randomness")
	}
	if s.piece > 0 && len(p) > s.piece {
		p = p[:s.piece]
	}
	if s.left > 0 && len(p) > s.left {
		p = p[:s.left]
	}
	n := copy(p, s.script)
	s.script = s.script[n:]
	s.rest.Read(p[n:])
	if s.left > 0 {
		s.left -= len(p)
	}
	s.taken = append(s.taken, p...)
	return len(p), nil
}

// scalars are the scalars made of what was handed out since.
func (s *vSource) scalars(rt *rapid.T, from int) (l []*big.Int) {
	if (len(s.taken)-from)%64 != 0 {
		rt.Fatalf("%d bytes of randomness taken, no multiple of 64", len(s.taken)-from)
	}
	for b := s.taken[from:]; len(b) > 0; b = b[64:] {
		l = append(l, ref.ScalarOf(b[:64]))
	}
	return
}

// vWide draws 64 bytes: random, or the sum of a small value and a multiple of the group order.
func vWide(rt *rapid.T) []byte {
	if kit.Even(rt, 2, "wide") == 0 {
		return kit.Blob(rt, 64, "block")
	}
	v := new(big.Int).SetBytes(kit.Blob(rt, 32, "times"))
	v.Mul(v, ref.L)
	low := new(big.Int).SetBytes(kit.Bytes(rt, 31, "low"))
	v.Add(v, low).Add(v, big.NewInt(1))
	b := make([]byte, 64)
	for i, x := range v.Bytes() {
		b[len(v.Bytes())-1-i] = x
	}
	return b
}

// take removes a value from a list.
func take(l []*big.Int, v *big.Int) ([]*big.Int, bool) {
	for i, x := range l {
		if x.Cmp(v) == 0 {
			return append(append([]*big.Int{}, l[:i]...), l[i+1:]...), true
		}
	}
	return l, false
}

func TestVerifC34Fresh(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 500, Thorough: 10000,
		Rule: "two to six draws of scalars, keys, signatures and ring signatures from one source of randomness that hands out chosen or random bytes in pieces of any size: each scalar and key is the reduction of 64 bytes of its own, the nonces recovered from signatures with the secret are too and never tiny, and so is every other scalar of a ring; no 64 bytes serve twice; non-trivial: two draws at least are signatures"},
		func(rt *rapid.T, c *kit.Case) {
			src := &vSource{rest: kit.NewStream(rapid.Uint64().Draw(rt, "source")), left: -1}
			src.rest.Read(make([]byte, 4096)) // a block drawn from the same seed starts where the stream does
			if kit.Even(rt, 2, "pieces") == 0 {
				src.piece = rapid.IntRange(1, 80).Draw(rt, "piece")
			}
			blocks := map[string]bool{} // no two blocks give the same scalar
			for i := kit.Even(rt, 5, "scripted"); i > 0; i-- {
				b := vWide(rt)
				if v := ref.ScalarOf(b).String(); !blocks[v] {
					blocks[v] = true
					src.script = append(src.script, b...)
				}
			}
			crand.Reader = src
			g, s := vDrawRing(rt, 4)
			sec := g.sec
			signs := 0
			var kinds []string
			unique := map[string]bool{}
			fresh := func(what string, v *big.Int, l []*big.Int) []*big.Int {
				l, ok := take(l, v)
				if !ok {
					rt.Fatalf("%s %v is not the reduction of 64 fresh bytes", what, v)
				}
				if unique[v.String()] {
					rt.Fatalf("%s %v was in use before", what, v)
				}
				unique[v.String()] = true
				return l
			}
			for i := 2 + kit.Even(rt, 5, "draws"); i > 0; i-- {
				from := len(src.taken)
				kind := []string{"scalar", "key", "sign", "sign", "ring", "ring"}[kit.Even(rt, 6, "kind")]
				kinds = append(kinds, kind)
				switch kind {
				case "scalar":
					v := RandomScalar()
					fresh("scalar", vBig(v), src.scalars(rt, from))
				case "key":
					v, err := GenerateKey()
					if err != nil {
						rt.Fatalf("key: %v", err)
					}
					fresh("key", vBig(v), src.scalars(rt, from))
					if _, err := PublicFromSecret(&v); err != nil {
						rt.Fatalf("generated key %x refused: %v", v, err)
					}
				case "sign":
					signs++
					h := g.hash
					if kit.Even(rt, 2, "other hash") == 0 {
						h = vHash(rt, "hash")
					}
					sig, err := h.Sign(&sec)
					if err != nil {
						rt.Fatalf("signing: %v", err)
					}
					k := new(big.Int).Mul(vBig(sig.C), s)
					k.Add(k, vBig(sig.R)).Mod(k, ref.L)
					fresh("nonce", k, src.scalars(rt, from))
					if k.BitLen() <= 224 {
						rt.Fatalf("tiny nonce %v", k)
					}
				case "ring":
					signs++
					sigs, err := GenerateRingSignature(&g.hash, &g.image, &g.pubs, &sec, uint64(g.at))
					if err != nil {
						rt.Fatalf("ring: %v", err)
					}
					l := src.scalars(rt, from)
					for j, x := range sigs {
						if j == g.at {
							k := new(big.Int).Mul(vBig(x.C), s)
							l = fresh("ring nonce", k.Add(k, vBig(x.R)).Mod(k, ref.L), l)
						} else {
							l = fresh("ring challenge", vBig(x.C), l)
							l = fresh("ring response", vBig(x.R), l)
						}
					}
				}
			}
			if signs > 1 {
				c.Hit(s, src.taken)
			}
			for _, k := range kinds {
				c.Label(k)
			}
			c.Sample("%v from %d bytes in pieces of %d", kinds, len(src.taken), src.piece)
		})
}

// TestVerifC34Child runs in a process of its own, since code may end the process when there is no randomness.
func TestVerifC34Child(t *testing.T) {
	var seed uint64
	var left int
	var what string
	if _, err := fmt.Sscanf(os.Getenv("VERIF_C34"), "%d %d %s", &seed, &left, &what); err != nil {
		t.Skip("runs for TestVerifC34Empty")
	}
	secret := SecretKey(ref.ToLE(ref.ScalarOf(kit.Expand(seed, 64))))
	pub, _ := PublicFromSecret(&secret)
	image, _ := GenerateKeyImage(pub, &secret)
	h := Hash{1}
	pubs := []PublicKey{*pub, PublicKey(ref.MulBase(big.NewInt(5)).Encode())}
	crand.Reader = &vSource{rest: kit.NewStream(seed), left: left, piece: 16}
	defer func() {
		if recover() != nil {
			fmt.Println("VERIF-REFUSED")
		}
	}()
	var err error
	switch what {
	case "scalar":
		RandomScalar()
	case "key":
		_, err = GenerateKey()
	case "sign":
		_, err = h.Sign(&secret)
	case "ring":
		_, err = GenerateRingSignature(&h, image, &pubs, &secret, 0)
	}
	if err == nil {
		fmt.Println("VERIF-MADE")
	} else {
		fmt.Println("VERIF-REFUSED")
	}
}

func TestVerifC34Empty(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 60, Thorough: 400,
		Rule: "a source of randomness that fails after so many bytes, in a process of its own: with fewer bytes than a scalar, key, signature or ring signature takes nothing is made, with enough it is; non-trivial: too few"},
		func(rt *rapid.T, c *kit.Case) {
			what := []string{"scalar", "key", "sign", "ring"}[kit.Even(rt, 4, "what")]
			need := 64
			if what == "ring" {
				need = 3 * 64
			}
			left := rapid.IntRange(0, need-1).Draw(rt, "left")
			enough := kit.Even(rt, 6, "enough") == 0
			if enough {
				left = 64 * 64
			}
			seed := rapid.Uint64().Draw(rt, "seed")
			exe, err := os.Executable()
			if err != nil {
				rt.Fatalf("VERIF-INFRA: %v", err)
			}
			cmd := exec.Command(exe, "-test.run", "^TestVerifC34Child$", "-test.v")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C34=%d %d %s", seed, left, what))
			out, _ := cmd.CombinedOutput()
			if made := strings.Contains(string(out), "VERIF-MADE"); made != enough {
				rt.Fatalf("%s with %d bytes of randomness, made: %v\n%s", what, left, made, out)
			}
			if !enough {
				c.Hit(what, left, seed)
			}
			c.Label(what)
			c.Sample("%s with %d bytes", what, left)
		})
}
