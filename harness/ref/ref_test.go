//go:build go1.23

package ref

import (
	"bufio"
	"encoding/hex"
	"math/big"
	"os"
	"strings"
	"testing"
)

func hx(s string) (b [32]byte) { x, _ := hex.DecodeString(s); copy(b[:], x); return }

func TestRef(t *testing.T) {
	if hex.EncodeToString(func() []byte { h := Keccak256(nil); return h[:] }()) != "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470" {
		t.Fatal("keccak")
	}
	if !Base().Mul(L).Equal(Identity()) {
		t.Fatal("order")
	}
	if e := Base().Encode(); hex.EncodeToString(e[:2]) != "5866" {
		t.Fatal("base")
	}
	f, err := os.Open("/repo/crypto/fixtures/hash_to_ec.txt")
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(f)
	n := 0
	for sc.Scan() && n < 60 {
		w := strings.Fields(sc.Text())
		if len(w) < 2 {
			continue
		}
		w = w[len(w)-2:]
		in := hx(w[0])
		h := Keccak256(in[:])
		p := HashToPoint(h).Encode()
		if p != hx(w[1]) {
			t.Fatalf("hash_to_ec %s %x", w, p)
		}
		n++
	}
	t.Log(n)
	for _, p := range LowOrder() {
		if !p.Mul(big.NewInt(8)).Equal(Identity()) {
			t.Fatal("low")
		}
	}
	for n := 1; n < 40; n++ {
		var l [][32]byte
		for i := 0; i < n; i++ {
			l = append(l, Keccak256([]byte{byte(i)}))
		}
		h := l[0]
		br := TreeBranch(l)
		for i := len(br) - 1; i >= 0; i-- {
			h = Hash(h[:], br[i][:])
		}
		if h != TreeHash(l) {
			t.Fatal("branch", n)
		}
	}
}
