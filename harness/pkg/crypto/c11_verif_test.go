//go:build go1.23

package crypto_test

import (
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func toList(l [][32]byte) (r crypto.HashList) {
	for _, h := range l {
		r = append(r, crypto.Hash(h))
	}
	return
}

func TestVerifC11Tree(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 3000, Thorough: 30000,
		Rule: "lists of 1 to 300 hashes (all small sizes, powers of two and their neighbours to 32769, rarely up to 85536, repeated hashes): root against the recursive definition, branch of the first leaf leading to the root, list unchanged; non-trivial: at least two hashes"},
		func(rt *rapid.T, c *kit.Case) {
			n := rapid.IntRange(1, 20).Draw(rt, "n")
			switch rapid.IntRange(0, 5).Draw(rt, "kind") {
			case 0:
				n = 1<<rapid.IntRange(0, 9).Draw(rt, "shift") + rapid.IntRange(-1, 1).Draw(rt, "delta")
				if n < 1 {
					n = 1
				}
			case 1:
				n = rapid.IntRange(1, 300).Draw(rt, "n")
			case 2:
				if rapid.IntRange(0, 20).Draw(rt, "huge") == 0 {
					n = 1<<(10+kit.Even(rt, 6, "shift")) + rapid.IntRange(-1, 1).Draw(rt, "delta")
					if kit.Even(rt, 12, "more") == 0 {
						n = 65536 + 1 + kit.Even(rt, 20000, "beyond")
					}
				}
			}
			b := kit.Expand(rapid.Uint64().Draw(rt, "seed"), 32*n)
			l := make([][32]byte, n)
			for i := range l {
				l[i] = [32]byte(b[32*i : 32*i+32])
			}
			if n > 1 && rapid.IntRange(0, 3).Draw(rt, "repeat") == 0 {
				l[rapid.IntRange(0, n-1).Draw(rt, "to")] = l[rapid.IntRange(0, n-1).Draw(rt, "from")]
			}
			want := ref.TreeHash(l)
			hl := toList(l)
			// room behind the list, which hashing must not touch
			room := append(hl, crypto.Hash{1, 2, 3})
			hl = room[:n]
			var root *crypto.Hash
			kit.NoPanic(rt, "MerkleRootHash", func() { root = hl.MerkleRootHash() })
			if root == nil || *root != crypto.Hash(want) {
				rt.Fatalf("root of %d hashes is %v, expected %x", n, root, want)
			}
			if again := hl.MerkleRootHash(); *again != *root {
				rt.Fatalf("root of %d hashes changes from %v to %v", n, root, again)
			}
			root[0] ^= 0xff // the result is the caller's own
			for i, h := range hl {
				if h != crypto.Hash(l[i]) {
					rt.Fatalf("hash %d of %d changed", i, n)
				}
			}
			if room[n] != (crypto.Hash{1, 2, 3}) {
				rt.Fatalf("bytes behind the list changed")
			}
			branch := toList(ref.TreeBranch(l))
			keep := append(crypto.HashList{}, branch...)
			var top crypto.Hash
			kit.NoPanic(rt, "TreeHashFromBranch", func() { top = branch.TreeHashFromBranch(crypto.Hash(l[0])) })
			if top != crypto.Hash(want) {
				rt.Fatalf("branch of %d hashes leads to %x, expected %x", n, top, want)
			}
			for i := range keep {
				if keep[i] != branch[i] {
					rt.Fatalf("branch changed")
				}
			}
			// any branch, not only those of real lists
			fold := l[0]
			for i := n - 1; i >= 0 && n < 60; i-- {
				fold = ref.Hash(fold[:], l[i][:])
			}
			if n < 60 && hl.TreeHashFromBranch(crypto.Hash(l[0])) != crypto.Hash(fold) {
				rt.Fatalf("branch of %d arbitrary hashes leads elsewhere", n)
			}
			if n > 1 {
				c.Hit(n, b[:32])
				c.Sample("%d hashes, root %x", n, want)
			}
			switch {
			case n == 1:
				c.Label("1")
			case n <= 20:
				c.Label("2-20")
			case n <= 300:
				c.Label("21-300")
			default:
				c.Label("over 300")
			}
		})
}
