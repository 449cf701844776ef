//go:build go1.23

package p2p

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// Builders of messages: the value and the tree the protocol prescribes for it.

func vParse(rt *rapid.T, number uint32, notify bool, payload []byte) (v any, err error) {
	lc := &LevinCommand{Command: number, IsNotify: notify, Payload: payload}
	kit.InFlight(fmt.Sprint("message ", number), payload)
	var p any
	var alloc uint64
	kit.Within(kit.Patience, "parsing", func() {
		alloc = kit.Allocated(func() {
			p = kit.Try(func() {
				if notify {
					v, err = parseNotification(lc)
				} else {
					v, err = parseCommand(lc)
				}
			})
		})
	})
	if p != nil {
		rt.Fatalf("message %d from %s panicked: %v", number, vShort(payload), p)
	}
	if alloc > uint64(8<<20)+uint64(len(payload))*20000 {
		rt.Fatalf("message %d of %d bytes allocated %d bytes: %s", number, len(payload), alloc, vShort(payload))
	}
	return
}

func TestVerifC06Content(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 6000, Thorough: 60000,
		Rule: "a random message of each kind (10 by number, 3 answers): sent bytes compared with the protocol's, parsed back and compared, with its fields reordered or some left out, then every number tried; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			m := rapid.SampledFrom(vMessages).Draw(rt, "message")
			v, tree := m.draw(rt)
			want := ref.PSBytes(tree)
			c.Label(fmt.Sprintf("%T", v))
			c.Hit(fmt.Sprintf("%T", v), want)
			c.Sample("%T: %s", v, vShort(want))
			got, err := binary.Marshal(v)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("%T\n encoded %s\nexpected %s\n%v", v, vShort(got), vShort(want), err)
			}
			if m.answers {
				conn := &vConn{in: vPack(false, m.number, 1, 2, want).bytes(), cuts: vCuts(rt)}
				res := reflect.New(reflect.TypeOf(v))
				if err := (&LevinProtocol{conn}).Invoke(m.number, PingRequest{}, res.Interface()); err != nil {
					rt.Fatalf("%T: %v", v, err)
				}
				if !reflect.DeepEqual(res.Elem().Interface(), v) {
					rt.Fatalf("%T\n sent %+v\n read %+v", v, v, res.Elem().Interface())
				}
				return
			}
			if rapid.Bool().Draw(rt, "reorder") && len(tree.Fields) > 1 {
				tree.Fields = rapid.Permutation(tree.Fields).Draw(rt, "order")
			}
			expect := v
			if rapid.IntRange(0, 3).Draw(rt, "drop") == 0 {
				// fields left out are empty
				i := rapid.IntRange(0, len(tree.Fields)-1).Draw(rt, "dropped")
				name := tree.Fields[i].Name
				tree.Fields = append(tree.Fields[:i:i], tree.Fields[i+1:]...)
				e := reflect.New(reflect.TypeOf(v)).Elem()
				e.Set(reflect.ValueOf(v))
				for j := 0; j < e.NumField(); j++ {
					tag, _ := e.Type().Field(j).Tag.Lookup("binary")
					if len(tag) >= len(name) && tag[:len(name)] == name && (len(tag) == len(name) || tag[len(name)] == ',') {
						e.Field(j).SetZero()
					}
				}
				expect = e.Interface()
			}
			payload := ref.PSBytes(tree)
			parsed, err := vParse(rt, m.number, m.notify, payload)
			if err != nil {
				rt.Fatalf("%T from %s: %v", v, vShort(payload), err)
			}
			if !reflect.DeepEqual(parsed, expect) {
				rt.Fatalf("%T\n sent %+v\n read %T %+v", v, expect, parsed, parsed)
			}
			// under a number it does not belong to
			for _, o := range vMessages {
				if !o.parsed || o.number == m.number {
					continue
				}
				foreign := false
				for _, f := range tree.Fields {
					own := false
					for _, n := range o.fields {
						own = own || n == f.Name
					}
					foreign = foreign || !own
				}
				if parsed, err := vParse(rt, o.number, o.notify, payload); foreign && err == nil {
					rt.Fatalf("%T taken as message %d %+v", v, o.number, parsed)
				}
			}
			number := kit.U32(rt, "number")
			if rapid.Bool().Draw(rt, "near") {
				number = rapid.SampledFrom([]uint32{1000, 1004, 1005, 1006, 1007, 2000, 2005, 2010, 2011}).Draw(rt, "nearNumber")
			}
			known, knownN := false, false
			for _, o := range vMessages {
				if o.parsed && o.number == number {
					known = known || !o.notify
					knownN = knownN || o.notify
				}
			}
			if parsed, err := vParse(rt, number, false, payload); !known && err == nil {
				rt.Fatalf("command %d parsed as %T", number, parsed)
			}
			if parsed, err := vParse(rt, number, true, payload); !knownN && err == nil {
				rt.Fatalf("notification %d parsed as %T", number, parsed)
			}
		})
}

// vPacked are the fields of fixed size and the lists of entries of fixed size.
var vPacked = map[string]struct {
	size int
	list bool
}{
	"txs": {32, true}, "blocks": {32, true}, "missed_ids": {32, true}, "block_ids": {32, true}, "m_block_ids": {32, true},
	"local_peerlist": {24, true}, "network_id": {16, false}, "top_id": {32, false},
}

func TestVerifC06Damage(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 5000, Thorough: 60000,
		Rule: "a random message cut at proper prefixes (all refused), with an inner size claiming more than all bytes (refused), with a packed list that is no whole number of entries (refused), with a single value of another type in a field (refused) or with random byte edits (no panic, no outsized allocation); non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			m := vMessages[rapid.IntRange(0, 9).Draw(rt, "message")]
			v, tree := m.draw(rt)
			b := ref.PSBytes(tree)
			switch kind := rapid.SampledFrom([]string{"prefix", "claim", "packed", "retyped", "bytes", "bytes"}).Draw(rt, "kind"); kind {
			case "prefix":
				for i := 0; i < 12; i++ {
					n := rapid.IntRange(0, len(b)-1).Draw(rt, "cut")
					if i < 4 {
						n = len(b) - 1 - i
					}
					if p, err := vParse(rt, m.number, m.notify, b[:n]); err == nil {
						rt.Fatalf("%d of %d bytes of %T parsed as %+v", n, len(b), v, p)
					}
				}
				c.Label(kind)
			case "claim":
				n := tree
				for len(n.Fields) > 0 && rapid.Bool().Draw(rt, "deeper") {
					x := n.Fields[rapid.IntRange(0, len(n.Fields)-1).Draw(rt, "field")].Node
					if x.Tag != ref.PSObj && x.Tag != ref.PSString {
						break
					}
					n = x
					if n.Array && len(n.Items) > 0 && rapid.Bool().Draw(rt, "item") {
						n = n.Items[0]
					}
				}
				claim := uint64(len(b)) + kit.U64(rt, "claim")>>3
				n.SizeAs = &claim
				b = ref.PSBytes(tree)
				if p, err := vParse(rt, m.number, m.notify, b); err == nil {
					rt.Fatalf("%T with a size of %d for %d bytes parsed as %+v", v, claim, len(b), p)
				}
				c.Label(kind)
			case "packed":
				m := rapid.SampledFrom(vMessages).Draw(rt, "any")
				v, tree := m.draw(rt)
				packed := ""
				var damage func(n *ref.PSNode)
				damage = func(n *ref.PSNode) {
					for _, f := range n.Fields {
						size, list := vPacked[f.Name].size, vPacked[f.Name].list
						switch {
						case f.Node.Tag == ref.PSObj:
							damage(f.Node)
						case size > 0 && f.Node.Tag == ref.PSString && !f.Node.Array:
							n := len(f.Node.Blob) / size
							k := kit.Even(rt, n+1, "entries")*size + 1 + kit.Even(rt, size-1, "over")
							if !list && rapid.Bool().Draw(rt, "whole") {
								k = 2 * size
							}
							f.Node.Blob = append(append([]byte{}, f.Node.Blob...), make([]byte, 2*size)...)[:k]
							packed = fmt.Sprintf("%s of %d bytes", f.Name, k)
						}
					}
				}
				damage(tree)
				if packed == "" {
					return
				}
				b = ref.PSBytes(tree)
				if m.answers {
					conn := &vConn{in: vPack(false, m.number, 1, 2, b).bytes()}
					res := reflect.New(reflect.TypeOf(v))
					var err error
					kit.NoPanic(rt, packed, func() { err = (&LevinProtocol{conn}).Invoke(m.number, PingRequest{}, res.Interface()) })
					if err == nil {
						rt.Fatalf("answer %T with %s read as %+v", v, packed, res.Elem().Interface())
					}
				} else if p, err := vParse(rt, m.number, m.notify, b); err == nil {
					rt.Fatalf("%T with %s parsed as %+v", v, packed, p)
				}
				c.Label(kind)
			case "retyped":
				m := rapid.SampledFrom(vMessages).Draw(rt, "any")
				v, tree := m.draw(rt)
				var at []*ref.PSNode
				var name []string
				var walk func(n *ref.PSNode)
				walk = func(n *ref.PSNode) {
					for _, f := range n.Fields {
						at, name = append(at, f.Node), append(name, f.Name)
						walk(f.Node)
					}
					for i, x := range n.Items {
						if i < 3 {
							walk(x)
						}
					}
				}
				walk(tree)
				if len(at) == 0 {
					return
				}
				i := kit.Even(rt, len(at), "field")
				x := &ref.PSNode{Tag: rapid.SampledFrom([]byte{ref.PSString, ref.PSString, ref.PSObj, ref.PSUint64, ref.PSUint32, ref.PSUint8, ref.PSBool, ref.PSInt64, ref.PSFloat}).Draw(rt, "type")}
				if x.Tag == ref.PSString {
					x.Blob = kit.Bytes(rt, 100, "blob")
				} else if x.Tag != ref.PSBool && x.Tag != ref.PSObj {
					x.Bits = kit.U64(rt, "bits")
				}
				if x.Tag == at[i].Tag && !at[i].Array {
					return
				}
				*at[i] = *x
				what := fmt.Sprintf("%s as a single value of type %d", name[i], x.Tag)
				b = ref.PSBytes(tree)
				if m.answers {
					conn := &vConn{in: vPack(false, m.number, 1, 2, b).bytes()}
					res := reflect.New(reflect.TypeOf(v))
					var err error
					kit.Within(kit.Patience, "reading an answer", func() {
						kit.NoPanic(rt, what, func() { err = (&LevinProtocol{conn}).Invoke(m.number, PingRequest{}, res.Interface()) })
					})
					if err == nil {
						rt.Fatalf("answer %T with %s read as %+v", v, what, res.Elem().Interface())
					}
				} else if p, err := vParse(rt, m.number, m.notify, b); err == nil {
					rt.Fatalf("%T with %s parsed as %+v", v, what, p)
				}
				c.Label(kind)
			default:
				for i := rapid.IntRange(1, 4).Draw(rt, "edits"); i > 0; i-- {
					at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
					if at < 9 {
						at = (at*7 + 9) % len(b)
					}
					b[at] = rapid.Byte().Draw(rt, "byte")
				}
				if rapid.IntRange(0, 3).Draw(rt, "raw") == 0 {
					b = append(append([]byte{}, ref.PSHeader...), kit.Bytes(rt, 60, "raw")...)
				}
				vParse(rt, m.number, m.notify, b)
				c.Label(kind)
			}
			c.Hit(m.number, b)
			c.Sample("%T: %s", v, vShort(b))
		})
}

// TestVerifC06Raw is about the block in a raw block.
func TestVerifC06Raw(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 1500, Thorough: 15000,
		Rule: "raw blocks holding the encoding of a block of any version, cut or changed in one byte in half of the cases: the block in it is the one that was encoded, and what cannot be decoded is refused; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			b := cngen.Block(rt, byte(1+kit.Even(rt, 5, "version"))).Bytes()
			raw := &RawBlock{Block: append([]byte{}, b...)}
			kind := kit.Even(rt, 4, "kind")
			switch kind {
			case 0:
				raw.Block = raw.Block[:kit.Even(rt, len(raw.Block), "cut")]
			case 1:
				raw.Block[kit.Even(rt, len(raw.Block), "at")] ^= byte(1 + kit.Even(rt, 255, "bits"))
			}
			c.Label([]string{"cut", "changed", "whole", "whole"}[kind])
			c.Hit(raw.Block)
			c.Sample("%s", vShort(raw.Block))
			sent := append([]byte{}, raw.Block...)
			var got *cryptonote.Block
			var err error
			if p := kit.Try(func() { got, err = raw.ToBlock() }); p != nil {
				rt.Fatalf("panic %v on %s", p, vShort(sent))
			}
			if !bytes.Equal(raw.Block, sent) {
				rt.Fatalf("the bytes of the raw block changed: %s", vShort(sent))
			}
			if err != nil {
				if kind > 1 {
					rt.Fatalf("refused %s: %v", vShort(sent), err)
				}
				return
			}
			if kind == 0 {
				rt.Fatalf("a cut block accepted: %s", vShort(sent))
			}
			if back := got.Serialize(); !bytes.Equal(back, sent[:min(len(sent), len(back))]) || kind > 1 && len(back) != len(sent) {
				rt.Fatalf("%s\nis another block: %s", vShort(sent), vShort(back))
			}
		})
}

// TestVerifC06Large is about messages of several megabytes.
func TestVerifC06Large(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 70, Thorough: 800,
		Rule: "messages with up to 8 MB of blocks, 300 of them or one large one, with up to 9000 transactions in one, or up to 100000 hashes: encoded as the protocol says, and read back as they were; non-trivial: more than 1 MiB"},
		func(rt *rapid.T, c *kit.Case) {
			size := func(max int, label string) int {
				if kit.Even(rt, 3, label+"Edge") == 0 {
					max = min(max, 1<<(10+kit.Even(rt, 14, label+"Bits"))+1)
				}
				return kit.Even(rt, max+1, label)
			}
			seed := rapid.Uint64().Draw(rt, "seed")
			all := kit.Expand(seed, 8<<20)
			left := size(len(all), "total")
			take := func(n int) []byte {
				n = min(n, left)
				left -= n
				return append([]byte{}, all[left:left+n]...)
			}
			raw := func(block int, txs, each int) (b RawBlock, n *ref.PSNode) {
				t := vObj()
				b.Block = take(block)
				t.blob("block", b.Block)
				arr := &ref.PSNode{Tag: ref.PSString, Array: true}
				for i := 0; i < txs; i++ {
					x := take(each + i%3)
					b.Transactions = append(b.Transactions, x)
					arr.Items = append(arr.Items, &ref.PSNode{Tag: ref.PSString, Blob: x})
				}
				if txs > 0 {
					t.field("txs", arr)
				}
				return b, t.n
			}
			hashes := func(b []byte) (l []crypto.Hash) {
				for ; len(b) > 0; b = b[32:] {
					var h crypto.Hash
					copy(h[:], b)
					l = append(l, h)
				}
				return
			}
			m := vObj()
			var v any
			number := uint32(2004)
			switch kit.Even(rt, 7, "kind") {
			case 0, 1:
				x := NotificationResponseGetObjects{CurrentBlockchainHeight: 7}
				arr := &ref.PSNode{Tag: ref.PSObj, Array: true}
				n := 1 + size(300, "blocks")
				for i := 0; i < n; i++ {
					txs := i % 3
					rb, node := raw(left/(n-i)/(1+txs), txs, left/(n-i)/(1+txs))
					x.Blocks = append(x.Blocks, rb)
					arr.Items = append(arr.Items, node)
				}
				m.field("blocks", arr)
				m.num("current_blockchain_height", ref.PSUint32, 7)
				v = x
			case 2:
				number = 2001
				block := kit.Even(rt, left+1, "block")
				txs := size(9000, "txs")
				rb, node := raw(block, txs, (left-block)/(txs+1))
				m.field("b", node)
				m.num("current_blockchain_height", ref.PSUint32, 7)
				m.num("hop", ref.PSUint32, 1)
				v = NotificationNewBlock{rb, 7, 1}
			case 3:
				number = 2009
				b := take(left)
				m.num("current_blockchain_height", ref.PSUint32, 7)
				m.num("hop", ref.PSUint32, 1)
				m.blob("block", b)
				v = NotificationNewLiteBlock{7, 1, b}
			case 4:
				number = 2006
				b := take(32 * size(100000, "hashes"))
				b = b[:len(b)/32*32]
				m.blob("block_ids", b)
				v = NotificationRequestChain{hashes(b)}
			case 5:
				number = 2007
				b := take(32 * size(100000, "hashes"))
				b = b[:len(b)/32*32]
				m.num("start_height", ref.PSUint32, 7)
				m.num("total_height", ref.PSUint32, 9)
				m.blob("m_block_ids", b)
				v = NotificationResponseChainEntry{7, 9, hashes(b)}
			default:
				number = 2003
				a, b := take(32*size(50000, "txs")), take(32*size(50000, "blocks"))
				a, b = a[:len(a)/32*32], b[:len(b)/32*32]
				m.blob("txs", a)
				m.blob("blocks", b)
				v = NotificationRequestGetObjects{hashes(a), hashes(b)}
			}
			want := ref.PSBytes(m.n)
			c.Label(fmt.Sprintf("%T", v))
			if len(want) > 1<<20 {
				c.Hit(seed, len(want))
				c.Label("over 1 MiB")
			}
			c.Sample("%T of %d bytes", v, len(want))
			got, err := binary.Marshal(v)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("%T\n encoded %s\nexpected %s\n%v", v, vShort(got), vShort(want), err)
			}
			parsed, err := vParse(rt, number, true, want)
			if err != nil {
				rt.Fatalf("%T of %d bytes: %v", v, len(want), err)
			}
			if reflect.TypeOf(parsed) != reflect.TypeOf(v) {
				rt.Fatalf("%T read as %T", v, parsed)
			}
			again, err := binary.Marshal(parsed)
			if err != nil || !bytes.Equal(again, want) {
				rt.Fatalf("%T of %d bytes read as another: %s (%v)", v, len(want), vShort(again), err)
			}
			if rapid.Bool().Draw(rt, "cut") && len(want) > 100 {
				at := len(want) - 1 - kit.Even(rt, min(len(want)-20, 1<<20), "cutBy")
				if x, err := vParse(rt, number, true, want[:at]); err == nil {
					rt.Fatalf("%T of %d bytes accepted when cut to %d: %T", v, len(want), at, x)
				}
			}
		})
}
