//go:build go1.23

package ref

import (
	"encoding/binary"
	"math/bits"
)

// Tx is a transaction of the CryptoNote format (CNS004).
type Tx struct {
	Version uint64
	Unlock  uint64
	In      []In
	Out     []Out
	Extra   []byte
	Sigs    [][][64]byte // one list per input; none for a coinbase transaction
}

// In is a coinbase (Gen) or key input.
type In struct {
	Gen     bool
	Height  uint32
	Amount  uint64
	Offsets []uint32
	Image   [32]byte
}

// Out is a key output.
type Out struct {
	Amount uint64
	Key    [32]byte
}

// Enc writes varints, possibly padded: the n-th varint written gets Pad zero continuation bytes when n == PadAt.
type Enc struct {
	B     []byte
	n     int
	PadAt int // -1: never
	Pad   int
	Over  bool // instead of padding add a tenth byte that overflows
}

// NewEnc is the canonical encoder.
func NewEnc() *Enc { return &Enc{PadAt: -1} }

// V writes a varint.
func (e *Enc) V(v uint64) {
	b := Varint(v)
	if e.n == e.PadAt {
		if e.Over {
			// same low bits, plus bits above the 64th
			for len(b) < 9 {
				b[len(b)-1] |= 0x80
				b = append(b, 0)
			}
			b[8] |= 0x80
			b = append(b[:9], 0x02)
		} else {
			b[len(b)-1] |= 0x80
			for i := 1; i < e.Pad; i++ {
				b = append(b, 0x80)
			}
			b = append(b, 0)
		}
	}
	e.n++
	e.B = append(e.B, b...)
}

// Varints is the number of varints written.
func (e *Enc) Varints() int { return e.n }

// Prefix writes the unsigned part.
func (e *Enc) Prefix(t *Tx) {
	e.V(t.Version)
	e.V(t.Unlock)
	e.V(uint64(len(t.In)))
	for _, i := range t.In {
		if i.Gen {
			e.B = append(e.B, 0xff)
			e.V(uint64(i.Height))
			continue
		}
		e.B = append(e.B, 0x02)
		e.V(i.Amount)
		e.V(uint64(len(i.Offsets)))
		for _, o := range i.Offsets {
			e.V(uint64(o))
		}
		e.B = append(e.B, i.Image[:]...)
	}
	e.V(uint64(len(t.Out)))
	for _, o := range t.Out {
		e.V(o.Amount)
		// the tag is a single byte in the format; go-karbo reads it as a varint, which is the same for valid tags
		e.B = append(e.B, 0x02)
		e.B = append(e.B, o.Key[:]...)
	}
	e.V(uint64(len(t.Extra)))
	e.B = append(e.B, t.Extra...)
}

// Tx writes the whole transaction.
func (e *Enc) Tx(t *Tx) {
	e.Prefix(t)
	for _, s := range t.Sigs {
		for _, g := range s {
			e.B = append(e.B, g[:]...)
		}
	}
}

// PrefixBytes of a transaction.
func (t *Tx) PrefixBytes() []byte { e := NewEnc(); e.Prefix(t); return e.B }

// Bytes of a transaction.
func (t *Tx) Bytes() []byte { e := NewEnc(); e.Tx(t); return e.B }

// Hash of a transaction.
func (t *Tx) Hash() [32]byte { return Keccak256(t.Bytes()) }

// Parent block of merge-mined versions.
type Parent struct {
	Major, Minor uint8
	Timestamp    uint64
	Prev         [32]byte
	Nonce        uint32
	TxCount      uint16
	Branch       [][32]byte // length: depth of the tree of TxCount transactions
	Base         Tx         // unsigned; its extra carries the merge-mining tag with len(Chain)
	Chain        [][32]byte
}

// Block of versions 1 to 5.
type Block struct {
	Major, Minor uint8
	Timestamp    uint64
	Prev         [32]byte
	Nonce        uint32
	Parent       *Parent
	Sig          [64]byte
	Base         Tx
	Txs          [][32]byte
}

// TreeDepth is the floor of the binary logarithm.
func TreeDepth(n int) int {
	if n <= 1 {
		return 0
	}
	return bits.Len(uint(n)) - 1
}

func (e *Enc) header(b *Block) {
	e.V(uint64(b.Major))
	e.V(uint64(b.Minor))
	if b.Major == 2 || b.Major == 3 {
		e.B = append(e.B, b.Prev[:]...)
		return
	}
	e.V(b.Timestamp)
	e.B = append(e.B, b.Prev[:]...)
	e.B = binary.LittleEndian.AppendUint32(e.B, b.Nonce)
}

func (e *Enc) parent(p *Parent, hashing bool) {
	e.V(uint64(p.Major))
	e.V(uint64(p.Minor))
	e.V(p.Timestamp)
	e.B = append(e.B, p.Prev[:]...)
	e.B = binary.LittleEndian.AppendUint32(e.B, p.Nonce)
	if hashing {
		h := Keccak256(p.Base.PrefixBytes())
		for i := len(p.Branch) - 1; i >= 0; i-- {
			h = Hash(h[:], p.Branch[i][:])
		}
		e.B = append(e.B, h[:]...)
	}
	e.V(uint64(p.TxCount))
	for _, h := range p.Branch {
		e.B = append(e.B, h[:]...)
	}
	e.Prefix(&p.Base)
	for _, h := range p.Chain {
		e.B = append(e.B, h[:]...)
	}
}

// Parent writes a parent as it is part of a block.
func (e *Enc) Parent(p *Parent) { e.parent(p, false) }

// Block writes a block.
func (e *Enc) Block(b *Block) {
	e.header(b)
	if b.Major >= 5 {
		e.B = append(e.B, b.Sig[:]...)
	}
	if b.Parent != nil {
		e.parent(b.Parent, false)
	}
	e.Tx(&b.Base)
	e.V(uint64(len(b.Txs)))
	for _, h := range b.Txs {
		e.B = append(e.B, h[:]...)
	}
}

// Bytes of a block.
func (b *Block) Bytes() []byte { e := NewEnc(); e.Block(b); return e.B }

// HashingBytes is header, Merkle root and transaction count.
func (b *Block) HashingBytes() []byte {
	e := NewEnc()
	e.header(b)
	root := TreeHash(append([][32]byte{b.Base.Hash()}, b.Txs...))
	e.B = append(e.B, root[:]...)
	e.V(uint64(len(b.Txs) + 1))
	return e.B
}

// Hash of a block.
func (b *Block) Hash() [32]byte {
	e := NewEnc()
	e.B = b.HashingBytes()
	if b.Parent != nil {
		e.parent(b.Parent, true)
	}
	return Hash(Varint(uint64(len(e.B))), e.B)
}

// MMTag is the merge-mining field of an extra.
func MMTag(depth uint64, root [32]byte) []byte {
	b := []byte{0x03, byte(len(Varint(depth)) + 32)}
	b = append(b, Varint(depth)...)
	return append(b, root[:]...)
}
