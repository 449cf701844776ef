//go:build go1.23

package binary_test

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"testing"

	"github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/psgen"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func short(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// full tells whether no field is left out.
func full(n *ref.PSNode, s *psgen.Shape) bool {
	switch s.Kind {
	case psgen.Object:
		if len(n.Fields) != len(s.Fields) {
			return false
		}
		for i, f := range s.Fields {
			if !full(n.Fields[i].Node, f.Shape) {
				return false
			}
		}
	case psgen.Array:
		for _, it := range n.Items {
			if !full(it, s.Elem) {
				return false
			}
		}
	}
	return true
}

func TestVerifC03RoundTrip(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 8000, Thorough: 60000,
		Rule: "struct types built at random from every supported field kind (nested to depth 3, up to 66 fields, names up to 255 bytes, omitted empty fields), with values whose sizes straddle the limits of the size prefix; non-trivial: the message has at least one field"},
		func(rt *rapid.T, c *kit.Case) {
			s := psgen.DrawObject(rt, 3)
			v, tree := psgen.DrawValue(rt, s, true)
			want := ref.PSBytes(tree)
			got, err := binary.Marshal(v.Interface())
			if err != nil {
				rt.Fatalf("Marshal of %v: %v", s.Type, err)
			}
			if !bytes.Equal(got, want) {
				rt.Fatalf("Marshal of %v\n%+v\n got %s\nwant %s", s.Type, v.Interface(), short(got), short(want))
			}
			back := reflect.New(s.Type)
			if err := binary.Unmarshal(want, back.Interface()); err != nil {
				rt.Fatalf("Unmarshal of %v from %s: %v", s.Type, short(want), err)
			}
			if !reflect.DeepEqual(back.Elem().Interface(), v.Interface()) {
				rt.Fatalf("Unmarshal of %v from %s\n got %+v\nwant %+v", s.Type, short(want), back.Elem().Interface(), v.Interface())
			}
			if rapid.IntRange(0, 3).Draw(rt, "others") == 0 {
				o, _ := psgen.DrawValue(rt, s, true)
				kit.Owned(rt, "Marshal", want, func() []byte { b, _ := binary.Marshal(v.Interface()); return b }, func() { binary.Marshal(o.Interface()) })
			}
			// into a variable that was used before: what the message holds replaces what was there
			if full(tree, s) {
				used, _ := psgen.DrawValue(rt, s, false)
				at := reflect.New(s.Type)
				at.Elem().Set(used)
				if err := binary.Unmarshal(want, at.Interface()); err != nil {
					rt.Fatalf("Unmarshal of %v from %s into a used variable: %v", s.Type, short(want), err)
				}
				if again, err := binary.Marshal(at.Elem().Interface()); err != nil || !bytes.Equal(again, want) {
					rt.Fatalf("Unmarshal of %v from %s into %+v gives %+v (%v)", s.Type, short(want), used.Interface(), at.Elem().Interface(), err)
				}
				c.Label("used variable")
			}
			// the same message with the fields in another order
			psgen.Permute(rt, tree)
			b := ref.PSBytes(tree)
			back = reflect.New(s.Type)
			if err := binary.Unmarshal(b, back.Interface()); err != nil {
				rt.Fatalf("Unmarshal of reordered %v from %s: %v", s.Type, short(b), err)
			}
			if !reflect.DeepEqual(back.Elem().Interface(), v.Interface()) {
				rt.Fatalf("Unmarshal of reordered %v from %s\n got %+v\nwant %+v", s.Type, short(b), back.Elem().Interface(), v.Interface())
			}
			if len(tree.Fields) > 0 {
				c.Hit(want)
				c.Sample("%v -> %s", s.Type, short(want))
			}
			var all []psgen.Located
			psgen.Walk(tree, s, false, nil, &all)
			for _, l := range all {
				c.Label(fmt.Sprint("kind ", l.Shape.Kind))
			}
			switch {
			case len(want) > 16384:
				c.Label("over 16384 bytes")
			case len(want) > 64:
				c.Label("over 64 bytes")
			}
		})
}

// TestVerifC03Huge is about the sizes that need eight bytes.
func TestVerifC03Huge(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1, Thorough: 2,
		Rule: "blobs of 2^30-1, of 2^30 and of up to 6 bytes more: the prefix takes four bytes for the first and eight for the others; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			more := kit.Even(rt, 7, "more")
			all := make([]byte, 1<<30+6)
			for _, n := range []int{1<<30 - 1, 1 << 30, 1<<30 + more} {
				runtime.GC()
				mark := kit.Blob(rt, 8, "mark")
				x := all[:n]
				copy(x[n-8:], mark)
				type message struct {
					S []byte `binary:"s"`
				}
				got, err := binary.Marshal(message{x})
				if err != nil {
					rt.Fatalf("%d bytes: %v", n, err)
				}
				want := append(append([]byte{}, ref.PSHeader...), 4, 1, 's', 10)
				if n < 1<<30 {
					want = append(want, 0xfe, 0xff, 0xff, 0xff)
				} else {
					want = append(want, byte(3+4*(n-(1<<30))), 0, 0, 0, 1, 0, 0, 0)
				}
				if len(got) != len(want)+n || !bytes.Equal(got[:len(want)], want) || !bytes.Equal(got[len(got)-8:], mark) {
					rt.Fatalf("%d bytes encoded as %x..., %d bytes; expected %x and the blob", n, got[:min(len(got), 40)], len(got), want)
				}
			}
			c.Hit(more)
			c.Sample("2^30-1 and 2^30+%d bytes", more)
		})
}

// TestVerifC03Long is about long lists and blobs of some megabytes.
func TestVerifC03Long(t *testing.T) {
	type entry struct {
		A uint64 `binary:"a"`
		B string `binary:"b"`
	}
	type message struct {
		S []byte   `binary:"s"`
		T string   `binary:"t"`
		P []uint32 `binary:"p,binary"`
		N []uint16 `binary:"n,array"`
		L []string `binary:"l,array"`
		O []entry  `binary:"o,array"`
		E bool     `binary:"e"`
	}
	kit.Run(t, kit.Spec{Quick: 40, Thorough: 600,
		Rule: "a message of blobs and strings of up to 6 MB, up to 600000 packed items, and arrays of up to 70000 numbers, strings and objects, lengths even or at a power of two: the bytes of the storage model, read back as they were; non-trivial: more than 1 MiB"},
		func(rt *rapid.T, c *kit.Case) {
			all := kit.Expand(rapid.Uint64().Draw(rt, "seed"), 6<<20)
			size := func(max int, label string) int {
				switch kit.Even(rt, 4, label+"Kind") {
				case 0:
					return kit.Even(rt, 4, label)
				case 1:
					max = min(max, 1<<kit.Even(rt, 24, label+"Bits")+1)
					return max - kit.Even(rt, min(max, 3), label)
				}
				return kit.Even(rt, max+1, label)
			}
			m := message{S: all[:size(6<<20, "s")], T: string(all[:size(6<<20, "t")]), E: true}
			if len(m.S) == 0 {
				m.S = nil
			}
			tree := &ref.PSNode{Tag: ref.PSObj}
			add := func(name string, n *ref.PSNode) { tree.Fields = append(tree.Fields, ref.PSField{Name: name, Node: n}) }
			blob := func(b []byte) *ref.PSNode { return &ref.PSNode{Tag: ref.PSString, Blob: b} }
			add("s", blob(m.S))
			add("t", blob([]byte(m.T)))
			p := all[:4*size(600000, "p")]
			for i := 0; i < len(p); i += 4 {
				m.P = append(m.P, uint32(p[i])|uint32(p[i+1])<<8|uint32(p[i+2])<<16|uint32(p[i+3])<<24)
			}
			add("p", blob(p))
			arr := func(tag byte) *ref.PSNode { return &ref.PSNode{Tag: tag, Array: true} }
			a := arr(ref.PSUint16)
			for i := size(70000, "n"); i > 0; i-- {
				m.N = append(m.N, uint16(i*7))
				a.Items = append(a.Items, &ref.PSNode{Tag: ref.PSUint16, Bits: uint64(uint16(i * 7))})
			}
			add("n", a)
			a = arr(ref.PSString)
			for i := size(70000, "l"); i > 0; i-- {
				x := string(all[i*8 : i*8+i%9])
				m.L = append(m.L, x)
				a.Items = append(a.Items, blob([]byte(x)))
			}
			add("l", a)
			a = arr(ref.PSObj)
			for i := size(70000, "o"); i > 0; i-- {
				x := entry{uint64(i), string(all[i : i+i%5])}
				m.O = append(m.O, x)
				a.Items = append(a.Items, &ref.PSNode{Tag: ref.PSObj, Fields: []ref.PSField{
					{Name: "a", Node: &ref.PSNode{Tag: ref.PSUint64, Bits: x.A}}, {Name: "b", Node: blob([]byte(x.B))}}})
			}
			add("o", a)
			add("e", &ref.PSNode{Tag: ref.PSBool, Bits: 1})
			want := ref.PSBytes(tree)
			what := fmt.Sprintf("%d, %d bytes, %d packed, %d numbers, %d strings, %d objects", len(m.S), len(m.T), len(m.P), len(m.N), len(m.L), len(m.O))
			if len(want) > 1<<20 {
				c.Hit(what)
			}
			c.Sample("%s", what)
			got, err := binary.Marshal(m)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("%s: %v\n got %s\nwant %s", what, err, short(got), short(want))
			}
			var back message
			if err := binary.Unmarshal(want, &back); err != nil {
				rt.Fatalf("%s: %v", what, err)
			}
			if !reflect.DeepEqual(back, m) {
				rt.Fatalf("%s: read as %d, %d bytes, %d packed, %d numbers, %d strings, %d objects", what, len(back.S), len(back.T), len(back.P), len(back.N), len(back.L), len(back.O))
			}
		})
}
