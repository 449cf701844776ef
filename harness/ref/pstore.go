//go:build go1.23

package ref

import "encoding/binary"

// Portable storage type tags.
const (
	PSInt64, PSInt32, PSInt16, PSInt8     = 1, 2, 3, 4
	PSUint64, PSUint32, PSUint16, PSUint8 = 5, 6, 7, 8
	PSFloat, PSString, PSBool, PSObj      = 9, 10, 11, 12
	PSArrayFlag                           = 0x80
)

// PSWidth of the simple types.
var PSWidth = map[byte]int{1: 8, 2: 4, 3: 2, 4: 1, 5: 8, 6: 4, 7: 2, 8: 1, 9: 8, 11: 1}

// PSNode is a value of the portable storage.
type PSNode struct {
	Tag    byte   // without the array flag
	Bits   uint64 // simple types
	Blob   []byte // PSString
	Fields []PSField
	Array  bool
	Items  []*PSNode // arrays, of Tag
	// SizeAs replaces the size written before blobs, arrays and objects, when not nil
	SizeAs *uint64
	// RawTag replaces the tag written, when not nil
	RawTag *byte
}

// PSField of an object.
type PSField struct {
	Name string
	Node *PSNode
}

// PSHeader starts every storage.
var PSHeader = []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 0x01}

// PSSize is the size prefix by magnitude: the two low bits tell 1, 2, 4 or 8 bytes.
func PSSize(n uint64) []byte {
	var b [8]byte
	switch {
	case n < 1<<6:
		return []byte{byte(n << 2)}
	case n < 1<<14:
		binary.LittleEndian.PutUint16(b[:], uint16(n<<2|1))
		return b[:2]
	case n < 1<<30:
		binary.LittleEndian.PutUint32(b[:], uint32(n<<2|2))
		return b[:4]
	}
	binary.LittleEndian.PutUint64(b[:], n<<2|3)
	return b[:]
}

func (n *PSNode) size(v int) []byte {
	if n.SizeAs != nil {
		return PSSize(*n.SizeAs)
	}
	return PSSize(uint64(v))
}

func (n *PSNode) tag() byte {
	if n.RawTag != nil {
		return *n.RawTag
	}
	if n.Array {
		return n.Tag | PSArrayFlag
	}
	return n.Tag
}

func (n *PSNode) body(b []byte) []byte {
	if n.Array {
		b = append(b, n.size(len(n.Items))...)
		for _, i := range n.Items {
			b = i.body(b)
		}
		return b
	}
	switch n.Tag {
	case PSString:
		b = append(b, n.size(len(n.Blob))...)
		return append(b, n.Blob...)
	case PSObj:
		b = append(b, n.size(len(n.Fields))...)
		for _, f := range n.Fields {
			b = append(b, byte(len(f.Name)))
			b = append(b, f.Name...)
			b = append(b, f.Node.tag())
			b = f.Node.body(b)
		}
		return b
	}
	for i := 0; i < PSWidth[n.Tag]; i++ {
		b = append(b, byte(n.Bits>>(8*i)))
	}
	return b
}

// PSBytes is the whole storage of a root object.
func PSBytes(root *PSNode) []byte { return root.body(append([]byte{}, PSHeader...)) }
