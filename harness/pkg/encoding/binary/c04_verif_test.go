//go:build go1.23

package binary_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/psgen"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func maxFields(s *psgen.Shape) int {
	m := len(s.Fields)
	for _, f := range s.Fields {
		if k := maxFields(f.Shape); k > m {
			m = k
		}
	}
	if s.Elem != nil {
		if k := maxFields(s.Elem); k > m {
			m = k
		}
	}
	return m
}

// decode tries the bytes: no panic, an end, and memory in proportion.
func decode(rt *rapid.T, s *psgen.Shape, b []byte) error {
	kit.InFlight(fmt.Sprint(s.Type), b)
	v := reflect.New(s.Type).Interface()
	var err error
	var p any
	var alloc uint64
	kit.Within(kit.Patience, "Unmarshal", func() {
		alloc = kit.Allocated(func() { p = kit.Try(func() { err = binary.Unmarshal(b, v) }) })
	})
	if p != nil {
		rt.Fatalf("Unmarshal of %v from %s panicked: %v", s.Type, short(b), p)
	}
	if limit := uint64(4<<20) + uint64(len(b))*uint64(2048+2048*maxFields(s)); alloc > limit {
		rt.Fatalf("Unmarshal of %v allocated %d bytes for %d bytes of input %s", s.Type, alloc, len(b), short(b))
	}
	return err
}

var simpleTags = []byte{ref.PSInt64, ref.PSInt32, ref.PSInt16, ref.PSInt8, ref.PSUint64, ref.PSUint32, ref.PSUint16, ref.PSUint8, ref.PSFloat, ref.PSBool}

// wellFormed makes a value of a tag.
func wellFormed(rt *rapid.T, tag byte) *ref.PSNode {
	n := &ref.PSNode{Tag: tag}
	switch tag {
	case ref.PSString:
		n.Blob = kit.Bytes(rt, 40, "blob")
	case ref.PSObj:
	default:
		n.Bits = kit.U64(rt, "bits")
		if tag == ref.PSBool {
			n.Bits &= 1
		}
	}
	return n
}

// misfit replaces the node by a well-formed value of a type that the field cannot hold.
func misfit(rt *rapid.T, l psgen.Located) bool {
	s := l.Shape
	own := byte(0) // tags that the field (or the items of it) may hold
	var may []byte
	array := false
	switch s.Kind {
	case psgen.Simple:
		own = s.Tag
		may = []byte{own}
	case psgen.String, psgen.Fixed, psgen.Blob, psgen.Packed:
		own = ref.PSString
		may = []byte{own}
	case psgen.Object:
		own = ref.PSObj
		may = []byte{own}
	case psgen.Array:
		array = true
	}
	pick := func(not []byte) byte {
		var c []byte
		for _, t := range append(append([]byte{}, simpleTags...), ref.PSString, ref.PSObj) {
			ok := true
			for _, x := range not {
				ok = ok && x != t
			}
			if ok {
				c = append(c, t)
			}
		}
		return rapid.SampledFrom(c).Draw(rt, "tag")
	}
	asArray := rapid.Bool().Draw(rt, "asArray")
	if array {
		if !asArray {
			not := []byte{ref.PSString} // lists of items of a fixed size may also come packed
			switch s.Elem.Kind {
			case psgen.String, psgen.Blob, psgen.Packed:
				not = nil
				if rapid.Bool().Draw(rt, "packed") {
					*l.Node = *wellFormed(rt, ref.PSString)
					return true
				}
			}
			*l.Node = *wellFormed(rt, pick(not))
			return true
		}
		var not []byte
		switch s.Elem.Kind {
		case psgen.Simple:
			not = []byte{s.Elem.Tag}
		case psgen.Object:
			not = []byte{ref.PSObj}
		default:
			not = []byte{ref.PSString}
		}
		t := pick(not)
		*l.Node = ref.PSNode{Tag: t, Array: true}
		for i := rapid.IntRange(1, 3).Draw(rt, "items"); i > 0; i-- {
			l.Node.Items = append(l.Node.Items, wellFormed(rt, t))
		}
		return true
	}
	if l.InArr {
		return false
	}
	if !asArray {
		*l.Node = *wellFormed(rt, pick(may))
		return true
	}
	var t byte
	switch s.Kind {
	case psgen.Blob, psgen.Packed: // lists of the very items would fit
		not := []byte{ref.PSString, ref.PSObj}
		if s.Kind == psgen.Blob {
			not = append(not, ref.PSUint8)
		} else {
			not = append(not, ref.PSUint64, ref.PSUint32, ref.PSUint16)
		}
		t = pick(not)
	default:
		t = pick(nil)
	}
	*l.Node = ref.PSNode{Tag: t, Array: true, Items: []*ref.PSNode{wellFormed(rt, t)}}
	return true
}

func TestVerifC04Refuse(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 12000, Thorough: 100000,
		Rule: "a random message (as for C03) with exactly one defect: cut at a proper prefix, an unknown field, another header byte, a well-formed value of a type that does not fit, a fixed value of another size, a packed list of a broken size, a size claiming more than all bytes; non-trivial: the defect could be placed"},
		func(rt *rapid.T, c *kit.Case) {
			s := psgen.DrawObject(rt, 2)
			_, tree := psgen.DrawValue(rt, s, false)
			if rapid.Bool().Draw(rt, "permute") {
				psgen.Permute(rt, tree)
			}
			good := ref.PSBytes(tree)
			var all []psgen.Located
			psgen.Walk(tree, s, false, nil, &all)
			pick := func(f func(psgen.Located) bool) (psgen.Located, bool) {
				var l []psgen.Located
				for _, x := range all {
					if f(x) {
						l = append(l, x)
					}
				}
				if len(l) == 0 {
					return psgen.Located{}, false
				}
				return l[rapid.IntRange(0, len(l)-1).Draw(rt, "node")], true
			}
			kind := rapid.SampledFrom([]string{"prefix", "unknown field", "header", "type", "type", "type", "fixed size", "packed size", "claim"}).Draw(rt, "defect")
			done := true
			bad := good
			switch kind {
			case "prefix":
				n := len(good)
				for i := 0; i < n; i++ {
					if n > 120 && i > 20 && i < n-20 && i%(n/60) != 0 {
						continue
					}
					if decode(rt, s, good[:i]) == nil {
						rt.Fatalf("%v: prefix of %d of %d bytes accepted: %s", s.Type, i, n, short(good[:i]))
					}
				}
				c.Hit(good)
				c.Label(kind)
				return
			case "unknown field":
				l, _ := pick(func(l psgen.Located) bool { return l.Shape.Kind == psgen.Object })
				name := rapid.SampledFrom([]string{"", "f", "F0", "f00", "f99", "zz"}).Draw(rt, "name")
				if len(l.Shape.Fields) > 0 && rapid.Bool().Draw(rt, "near") {
					name = l.Shape.Fields[0].Name + rapid.SampledFrom([]string{" ", "x", "\x00"}).Draw(rt, "suffix")
					if len(name) > 255 {
						name = name[:255] // an existing name: skip below
					}
				}
				for _, f := range l.Shape.Fields {
					done = done && f.Name != name
				}
				at := rapid.IntRange(0, len(l.Node.Fields)).Draw(rt, "at")
				f := ref.PSField{Name: name, Node: wellFormed(rt, rapid.SampledFrom(append([]byte{ref.PSString, ref.PSObj}, simpleTags...)).Draw(rt, "tag"))}
				l.Node.Fields = append(l.Node.Fields[:at:at], append([]ref.PSField{f}, l.Node.Fields[at:]...)...)
				bad = ref.PSBytes(tree)
			case "header":
				bad = append([]byte{}, good...)
				bad[rapid.IntRange(0, 8).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "type":
				l, ok := pick(func(l psgen.Located) bool { return l.Owner != nil })
				done = ok && misfit(rt, l)
				bad = ref.PSBytes(tree)
			case "fixed size":
				l, ok := pick(func(l psgen.Located) bool { return l.Shape.Kind == psgen.Fixed })
				if done = ok; done {
					n := rapid.SampledFrom([]int{0, l.Shape.Size - 1, l.Shape.Size + 1, l.Shape.Size * 2, 200}).Draw(rt, "size")
					done = n != l.Shape.Size
					*l.Node = ref.PSNode{Tag: ref.PSString, Blob: kit.Blob(rt, n, "blob")}
					bad = ref.PSBytes(tree)
				}
			case "packed size":
				l, ok := pick(func(l psgen.Located) bool { return l.Shape.Kind == psgen.Packed })
				if done = ok; done {
					n := rapid.IntRange(0, 5).Draw(rt, "items")*l.Shape.Size + rapid.IntRange(1, l.Shape.Size-1).Draw(rt, "rest")
					*l.Node = ref.PSNode{Tag: ref.PSString, Blob: kit.Blob(rt, n, "blob")}
					bad = ref.PSBytes(tree)
				}
			case "claim":
				l, ok := pick(func(l psgen.Located) bool {
					return l.Shape.Kind == psgen.Object || l.Shape.Kind == psgen.Array || l.Node.Tag == ref.PSString
				})
				if done = ok; done {
					claim := uint64(len(good)) + uint64(rapid.IntRange(1, 300).Draw(rt, "over"))
					if rapid.Bool().Draw(rt, "huge") {
						claim = uint64(1)<<rapid.IntRange(18, 61).Draw(rt, "shift") + uint64(rapid.IntRange(-1, 1).Draw(rt, "delta"))
					}
					if len(good) > 100000 {
						claim += uint64(len(good))
					}
					l.Node.SizeAs = &claim
					bad = ref.PSBytes(tree)
				}
			}
			if !done {
				c.Label("no place")
				return
			}
			c.Hit(kind, bad)
			c.Label(kind)
			c.Sample("%s: %v from %s", kind, s.Type, short(bad))
			if decode(rt, s, bad) == nil {
				rt.Fatalf("%s: %v accepted %s", kind, s.Type, short(bad))
			}
		})
}

func TestVerifC04Survive(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 200000,
		Rule: "a random message damaged by up to 6 random edits (bytes changed, inserted, removed, duplicated ranges, sizes rewritten), or random bytes behind a valid header; only the absence of panics, hangs and outsized allocations is asked; non-trivial: more bytes than the header remain"},
		func(rt *rapid.T, c *kit.Case) {
			s := psgen.DrawObject(rt, 2)
			var b []byte
			if rapid.IntRange(0, 5).Draw(rt, "raw") == 0 {
				b = append(append([]byte{}, ref.PSHeader...), kit.Bytes(rt, 60, "raw")...)
				c.Label("raw")
			} else {
				_, tree := psgen.DrawValue(rt, s, false)
				var all []psgen.Located
				psgen.Walk(tree, s, false, nil, &all)
				for i := rapid.IntRange(0, 2).Draw(rt, "sizes"); i > 0; i-- {
					l := all[rapid.IntRange(0, len(all)-1).Draw(rt, "node")]
					v := kit.U64(rt, "size") >> 2
					l.Node.SizeAs = &v
				}
				for i := rapid.IntRange(0, 1).Draw(rt, "tags"); i > 0; i-- {
					l := all[rapid.IntRange(0, len(all)-1).Draw(rt, "node")]
					v := rapid.Byte().Draw(rt, "tag")
					l.Node.RawTag = &v
				}
				if rapid.IntRange(0, 3).Draw(rt, "other") == 0 { // another value, be it one that fits
					l := all[rapid.IntRange(0, len(all)-1).Draw(rt, "node")]
					if l.Owner != nil {
						*l.Node = *wellFormed(rt, rapid.SampledFrom(append([]byte{ref.PSString, ref.PSString, ref.PSString, ref.PSObj}, simpleTags...)).Draw(rt, "other"))
						c.Label("other value")
					}
				}
				b = ref.PSBytes(tree)
				for i := rapid.IntRange(0, 3).Draw(rt, "edits"); i > 0; i-- {
					at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
					if len(b) > 9 && at < 9 {
						at = 9 + at%(len(b)-9)
					}
					switch rapid.IntRange(0, 3).Draw(rt, "edit") {
					case 0:
						b[at] = rapid.Byte().Draw(rt, "byte")
					case 1:
						b = append(b[:at:at], b[at+1:]...)
					case 2:
						b = append(b[:at:at], append([]byte{rapid.Byte().Draw(rt, "byte")}, b[at:]...)...)
					case 3:
						to := at + rapid.IntRange(0, 8).Draw(rt, "span")
						if to > len(b) {
							to = len(b)
						}
						b = append(b[:to:to], b[at:]...)
					}
					if len(b) == 0 {
						break
					}
				}
			}
			if len(b) > len(ref.PSHeader) {
				c.Hit(b)
				c.Sample("%v from %s", s.Type, short(b))
			}
			if decode(rt, s, b) == nil {
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
		})
}
