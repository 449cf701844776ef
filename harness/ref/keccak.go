//go:build go1.23

// Package ref holds the oracles: independent definitions of what go-karbo computes. It imports nothing of go-karbo.
package ref

import (
	"encoding/binary"
	"math/bits"
)

var keccakRC = func() (rc [24]uint64) {
	// round constants from the LFSR of the Keccak specification
	lfsr := byte(1)
	for i := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				rc[i] |= 1 << ((1 << uint(j)) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	return
}()

// rho and pi: lane i goes to piTo[i], rotated by rhoBy[i]
var piTo, rhoBy = func() (to, by [25]int) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		nx, ny := y, (2*x+3*y)%5
		to[x+5*y], by[x+5*y] = nx+5*ny, (t+1)*(t+2)/2%64
		x, y = nx, ny
	}
	return
}()

func keccakF(a *[25]uint64) {
	var b [25]uint64
	for r := 0; r < 24; r++ {
		c0 := a[0] ^ a[5] ^ a[10] ^ a[15] ^ a[20]
		c1 := a[1] ^ a[6] ^ a[11] ^ a[16] ^ a[21]
		c2 := a[2] ^ a[7] ^ a[12] ^ a[17] ^ a[22]
		c3 := a[3] ^ a[8] ^ a[13] ^ a[18] ^ a[23]
		c4 := a[4] ^ a[9] ^ a[14] ^ a[19] ^ a[24]
		d0 := c4 ^ bits.RotateLeft64(c1, 1)
		d1 := c0 ^ bits.RotateLeft64(c2, 1)
		d2 := c1 ^ bits.RotateLeft64(c3, 1)
		d3 := c2 ^ bits.RotateLeft64(c4, 1)
		d4 := c3 ^ bits.RotateLeft64(c0, 1)
		for y := 0; y < 25; y += 5 {
			b[piTo[y]%25] = bits.RotateLeft64(a[y]^d0, rhoBy[y])
			b[piTo[y+1]%25] = bits.RotateLeft64(a[y+1]^d1, rhoBy[y+1])
			b[piTo[y+2]%25] = bits.RotateLeft64(a[y+2]^d2, rhoBy[y+2])
			b[piTo[y+3]%25] = bits.RotateLeft64(a[y+3]^d3, rhoBy[y+3])
			b[piTo[y+4]%25] = bits.RotateLeft64(a[y+4]^d4, rhoBy[y+4])
		}
		for y := 0; y < 25; y += 5 {
			b0, b1, b2, b3, b4 := b[y], b[y+1], b[y+2], b[y+3], b[y+4]
			a[y] = b0 ^ (^b1 & b2)
			a[y+1] = b1 ^ (^b2 & b3)
			a[y+2] = b2 ^ (^b3 & b4)
			a[y+3] = b3 ^ (^b4 & b0)
			a[y+4] = b4 ^ (^b0 & b1)
		}
		a[0] ^= keccakRC[r]
	}
}

// Keccak256 with the original (pre-SHA3) padding.
func Keccak256(data []byte) (out [32]byte) {
	const rate = 136
	p := append([]byte{}, data...)
	p = append(p, 0x01)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [25]uint64
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		keccakF(&a)
	}
	for i := 0; i < 4; i++ {
		w := a[i]
		for k := 0; k < 8; k++ {
			out[8*i+k] = byte(w >> (8 * k))
		}
	}
	return
}

// Hash of the concatenation.
func Hash(parts ...[]byte) [32]byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return Keccak256(b)
}

// Varint is the shortest base-128 encoding.
func Varint(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// TreeHash is the CryptoNote tree hash (CNS003 / tree-hash.c), written recursively.
func TreeHash(l [][32]byte) [32]byte {
	switch len(l) {
	case 0:
		panic("tree hash of nothing")
	case 1:
		return l[0]
	case 2:
		return Hash(l[0][:], l[1][:])
	}
	// cnt: the largest power of two below the count; the last 2*(n-cnt) leaves are paired first
	cnt := 1
	for cnt*2 < len(l) {
		cnt *= 2
	}
	first := 2*cnt - len(l)
	level := append([][32]byte{}, l[:first]...)
	for i := first; i < len(l); i += 2 {
		level = append(level, Hash(l[i][:], l[i+1][:]))
	}
	return full(level)
}

func full(l [][32]byte) [32]byte {
	if len(l) == 1 {
		return l[0]
	}
	a, b := full(l[:len(l)/2]), full(l[len(l)/2:])
	return Hash(a[:], b[:])
}

// TreeBranch is the authentication branch of the first leaf, nearest the root first (tree_branch of the C code).
func TreeBranch(l [][32]byte) [][32]byte {
	if len(l) == 1 {
		return nil
	}
	cnt := 1
	for cnt*2 < len(l) {
		cnt *= 2
	}
	// the leaves under the levels of the tree
	level := l
	var up [][32]byte // leaf to root
	if len(l) > 2 || len(l) == 2 {
		first := 2*cnt - len(l)
		if first == 0 {
			up = append(up, l[1])
		}
		nl := append([][32]byte{}, l[:first]...)
		for i := first; i < len(l); i += 2 {
			nl = append(nl, Hash(l[i][:], l[i+1][:]))
		}
		level = nl
	}
	for len(level) > 1 {
		up = append(up, level[1])
		var nl [][32]byte
		for i := 0; i < len(level); i += 2 {
			nl = append(nl, Hash(level[i][:], level[i+1][:]))
		}
		level = nl
	}
	out := make([][32]byte, len(up))
	for i := range up {
		out[len(up)-1-i] = up[i]
	}
	return out
}
