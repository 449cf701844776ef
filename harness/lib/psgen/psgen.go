//go:build go1.23

// Package psgen generates message shapes for the portable storage: a Go type, a value of it and the storage tree
// the format prescribes for that value.
package psgen

import (
	"fmt"
	"math"
	"reflect"

	"github.com/google/uuid"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// Kind of field.
type Kind int

// Field kinds.
const (
	Simple Kind = iota // integers, bool, float
	String
	Blob   // []byte
	Fixed  // [n]byte, hashes
	Packed // list of fixed-size items as one blob
	Array  // array of Elem
	Object
)

// Shape of a value.
type Shape struct {
	Kind   Kind
	Type   reflect.Type
	Tag    byte   // Simple
	Size   int    // Fixed; item size of Packed
	Elem   *Shape // Array
	Fields []Field
}

// Field of an object shape.
type Field struct {
	Name  string
	Omit  bool
	Shape *Shape
}

var simples = []struct {
	tag byte
	typ reflect.Type
}{
	{ref.PSInt64, reflect.TypeOf(int64(0))}, {ref.PSInt32, reflect.TypeOf(int32(0))},
	{ref.PSInt16, reflect.TypeOf(int16(0))}, {ref.PSInt8, reflect.TypeOf(int8(0))},
	{ref.PSUint64, reflect.TypeOf(uint64(0))}, {ref.PSUint32, reflect.TypeOf(uint32(0))},
	{ref.PSUint16, reflect.TypeOf(uint16(0))}, {ref.PSUint8, reflect.TypeOf(uint8(0))},
	{ref.PSFloat, reflect.TypeOf(float64(0))}, {ref.PSBool, reflect.TypeOf(false)},
}

// Entry is a fixed-size packed record, like the peer entries of the protocol.
type Entry struct {
	IP   uint32
	Port uint32
	ID   uint64
	Seen uint64
}

var fixed = []reflect.Type{
	reflect.TypeOf(crypto.Hash{}), reflect.TypeOf(uuid.UUID{}), reflect.TypeOf([1]byte{}), reflect.TypeOf([3]byte{}), reflect.TypeOf([64]byte{}),
}

var packed = []struct {
	typ  reflect.Type
	size int
}{
	{reflect.TypeOf([]crypto.Hash{}), 32}, {reflect.TypeOf([]Entry{}), 24}, {reflect.TypeOf([]uint64{}), 8},
	{reflect.TypeOf([]uint32{}), 4}, {reflect.TypeOf([]uint16{}), 2},
}

func drawShape(rt *rapid.T, depth int) *Shape {
	max := 6
	if depth <= 0 {
		max = 4
	}
	switch Kind(rapid.IntRange(0, max).Draw(rt, "kind")) {
	case Simple:
		s := rapid.SampledFrom(simples).Draw(rt, "simple")
		return &Shape{Kind: Simple, Type: s.typ, Tag: s.tag}
	case String:
		return &Shape{Kind: String, Type: reflect.TypeOf("")}
	case Blob:
		return &Shape{Kind: Blob, Type: reflect.TypeOf([]byte{})}
	case Fixed:
		t := rapid.SampledFrom(fixed).Draw(rt, "fixed")
		return &Shape{Kind: Fixed, Type: t, Size: t.Len()}
	case Packed:
		p := rapid.SampledFrom(packed).Draw(rt, "packed")
		return &Shape{Kind: Packed, Type: p.typ, Size: p.size}
	case Array:
		for {
			e := drawShape(rt, depth-1)
			if e.Kind != Array {
				return &Shape{Kind: Array, Type: reflect.SliceOf(e.Type), Elem: e}
			}
		}
	default:
		return DrawObject(rt, depth-1)
	}
}

// DrawObject draws an object shape.
func DrawObject(rt *rapid.T, depth int) *Shape {
	n := rapid.IntRange(0, 5).Draw(rt, "fields")
	wide := rapid.IntRange(0, 60).Draw(rt, "wide") == 0
	if wide {
		n = rapid.IntRange(62, 66).Draw(rt, "wideFields")
		depth = 0
	}
	s := &Shape{Kind: Object}
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		f := Field{Name: fmt.Sprintf("f%d", i)}
		if !wide && rapid.IntRange(0, 20).Draw(rt, "longName") == 0 {
			l := rapid.SampledFrom([]int{40, 127, 128, 254, 255}).Draw(rt, "nameLen")
			for len(f.Name) < l {
				f.Name += "x"
			}
		}
		if wide {
			f.Shape = &Shape{Kind: Simple, Type: reflect.TypeOf(uint8(0)), Tag: ref.PSUint8}
		} else {
			f.Shape = drawShape(rt, depth)
		}
		f.Omit = rapid.IntRange(0, 3).Draw(rt, "omit") == 0
		tag := f.Name
		switch f.Shape.Kind {
		case Array:
			tag += ",array"
		case Fixed, Packed:
			tag += rapid.SampledFrom([]string{"", ",binary"}).Draw(rt, "opt")
		}
		if f.Omit {
			tag += ",omitempty"
		}
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.Shape.Type, Tag: reflect.StructTag(fmt.Sprintf("binary:%q", tag))})
		s.Fields = append(s.Fields, f)
		if rapid.IntRange(0, 30).Draw(rt, "untagged") == 0 { // fields without tag are not part of the message
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("U%d", i), Type: reflect.TypeOf("")})
		}
	}
	s.Type = reflect.StructOf(sf)
	return s
}

// Sizes around the limits of the size prefix.
func drawLen(rt *rapid.T, big bool) int {
	switch rapid.IntRange(0, 11).Draw(rt, "lenKind") {
	case 0, 1:
		return 0
	case 2:
		return rapid.SampledFrom([]int{62, 63, 64, 65, 127, 128, 255, 256}).Draw(rt, "len")
	case 3:
		if big && rapid.IntRange(0, 5).Draw(rt, "bigLen") == 0 {
			return rapid.SampledFrom([]int{16382, 16383, 16384, 16385, 20000}).Draw(rt, "len")
		}
	}
	return rapid.IntRange(1, 12).Draw(rt, "len")
}

// DrawValue draws a value of the shape and builds the tree of it.
func DrawValue(rt *rapid.T, s *Shape, big bool) (reflect.Value, *ref.PSNode) {
	v := reflect.New(s.Type).Elem()
	switch s.Kind {
	case Simple:
		bits := kit.U64(rt, "bits")
		switch s.Tag {
		case ref.PSBool:
			bits &= 1
			v.SetBool(bits == 1)
		case ref.PSFloat:
			f := rapid.SampledFrom([]float64{0, 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), float64(bits)}).Draw(rt, "float")
			v.SetFloat(f)
			bits = math.Float64bits(f)
		case ref.PSInt64, ref.PSInt32, ref.PSInt16, ref.PSInt8:
			v.SetInt(int64(bits) << (64 - 8*ref.PSWidth[s.Tag]) >> (64 - 8*ref.PSWidth[s.Tag]))
		default:
			v.SetUint(bits << (64 - 8*ref.PSWidth[s.Tag]) >> (64 - 8*ref.PSWidth[s.Tag]))
		}
		return v, &ref.PSNode{Tag: s.Tag, Bits: bits}
	case String:
		b := kit.Blob(rt, drawLen(rt, big), "string")
		v.SetString(string(b))
		return v, &ref.PSNode{Tag: ref.PSString, Blob: b}
	case Blob:
		b := kit.Blob(rt, drawLen(rt, big), "blob")
		if len(b) > 0 {
			v.SetBytes(b)
		}
		return v, &ref.PSNode{Tag: ref.PSString, Blob: b}
	case Fixed:
		b := kit.Blob(rt, s.Size, "fixed")
		if rapid.IntRange(0, 3).Draw(rt, "zero") == 0 {
			b = make([]byte, s.Size)
		}
		reflect.Copy(v, reflect.ValueOf(b))
		return v, &ref.PSNode{Tag: ref.PSString, Blob: b}
	case Packed:
		n := drawLen(rt, false)
		if n > 100 {
			n = 100
		}
		b := kit.Blob(rt, n*s.Size, "packed")
		for i := 0; i < n; i++ {
			it := reflect.New(s.Type.Elem()).Elem()
			setPacked(it, b[i*s.Size:])
			v.Set(reflect.Append(v, it))
		}
		return v, &ref.PSNode{Tag: ref.PSString, Blob: b}
	case Array:
		n := drawLen(rt, big && s.Elem.Kind == Simple)
		if s.Elem.Kind != Simple && n > 3 && rapid.IntRange(0, 9).Draw(rt, "shorten") != 0 {
			n = 1 + n%3
		}
		if n > 300 && s.Elem.Kind != Simple {
			n = 64
		}
		node := &ref.PSNode{Tag: elemTag(s.Elem), Array: true}
		sl := reflect.MakeSlice(s.Type, 0, 0)
		var last reflect.Value
		var lastNode *ref.PSNode
		for i := 0; i < n; i++ {
			// long arrays repeat a few values
			if i < 6 {
				last, lastNode = DrawValue(rt, s.Elem, false)
			}
			sl = reflect.Append(sl, last)
			node.Items = append(node.Items, lastNode)
		}
		if n > 0 {
			v.Set(sl)
		}
		return v, node
	}
	node := &ref.PSNode{Tag: ref.PSObj}
	for i, f := range s.Fields {
		fv, fn := DrawValue(rt, f.Shape, big)
		v.FieldByName(fmt.Sprintf("F%d", i)).Set(fv)
		if f.Omit && fv.IsZero() {
			continue
		}
		node.Fields = append(node.Fields, ref.PSField{Name: f.Name, Node: fn})
	}
	return v, node
}

func elemTag(s *Shape) byte {
	switch s.Kind {
	case Simple:
		return s.Tag
	case Object:
		return ref.PSObj
	}
	return ref.PSString
}

func setPacked(v reflect.Value, b []byte) int {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(b[i]))
		}
		return v.Len()
	case reflect.Struct:
		o := 0
		for i := 0; i < v.NumField(); i++ {
			o += setPacked(v.Field(i), b[o:])
		}
		return o
	}
	n := int(v.Type().Size())
	var x uint64
	for i := n - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	v.SetUint(x)
	return n
}

// Clone a tree.
func Clone(n *ref.PSNode) *ref.PSNode {
	c := *n
	c.Blob = append([]byte{}, n.Blob...)
	c.Items = nil
	for _, i := range n.Items {
		c.Items = append(c.Items, Clone(i))
	}
	c.Fields = nil
	for _, f := range n.Fields {
		c.Fields = append(c.Fields, ref.PSField{Name: f.Name, Node: Clone(f.Node)})
	}
	return &c
}

// Permute the fields of every object.
func Permute(rt *rapid.T, n *ref.PSNode) {
	if len(n.Fields) > 1 {
		n.Fields = rapid.Permutation(n.Fields).Draw(rt, "order")
	}
	for _, f := range n.Fields {
		Permute(rt, f.Node)
	}
	if len(n.Items) < 10 {
		for _, i := range n.Items {
			Permute(rt, i)
		}
	}
}

// Located is a node with its shape.
type Located struct {
	Node  *ref.PSNode
	Shape *Shape
	InArr bool
	Owner *ref.PSNode // object having it as a field
}

// Walk lists the nodes of a tree with their shapes.
func Walk(n *ref.PSNode, s *Shape, inArr bool, owner *ref.PSNode, out *[]Located) {
	*out = append(*out, Located{n, s, inArr, owner})
	if s.Kind == Array {
		for i, it := range n.Items {
			if i > 8 {
				break
			}
			Walk(it, s.Elem, true, nil, out)
		}
	}
	if s.Kind == Object {
		for _, f := range n.Fields {
			for _, sf := range s.Fields {
				if sf.Name == f.Name {
					Walk(f.Node, sf.Shape, false, n, out)
				}
			}
		}
	}
}
