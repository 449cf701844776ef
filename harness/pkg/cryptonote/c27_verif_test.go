//go:build go1.23

package cryptonote_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// fusion draws a transaction that gathers small amounts.
func fusion(rt *rapid.T, h uint32, number int) *ref.Tx {
	t := &ref.Tx{Version: 1, Extra: kit.Bytes(rt, 40, "fusionExtra")}
	dust := uint64(1)
	if h < 266000 {
		dust = 100_000_000
	}
	sum := uint64(0)
	ins := rapid.IntRange(12, 40).Draw(rt, "fusionInputs")
	for i := 0; i < ins; i++ {
		in := chaingen.DrawInput(rt, uint32(number<<8+i))
		in.Amount = dust
		switch kit.Even(rt, 4, "amountKind") {
		case 0:
			in.Amount += rapid.Uint64Range(0, 1e10).Draw(rt, "amount")
		case 1:
			in.Amount *= uint64(1 + kit.Even(rt, 9, "digit"))
		case 2: // round the sum up to a power of ten
			if i == ins-1 && sum > 0 {
				p := uint64(10)
				for p < 2*sum+dust {
					p *= 10
				}
				in.Amount = p*uint64(1+kit.Even(rt, 9, "digit")) - sum
			}
		}
		sum += in.Amount
		t.In = append(t.In, in)
	}
	thr := uint64(0)
	if h < 266000 {
		thr = 100_000_000
	}
	for _, a := range ref.Decompose(sum, thr) {
		_, k := chaingen.Key(kit.Even(rt, 12, "key"))
		t.Out = append(t.Out, ref.Out{Amount: a, Key: k})
	}
	return t
}

// sums of a transaction's amounts, as far as they go.
func sums(t *ref.Tx) (in, out uint64) {
	for _, i := range t.In {
		in += i.Amount
	}
	for _, o := range t.Out {
		out += o.Amount
	}
	return
}

// bend changes a transaction in one respect.
func bend(rt *rapid.T, h uint32, t *ref.Tx, earlier []*ref.Tx) string {
	near := func(a uint64) uint64 {
		return a + uint64(int64(rapid.SampledFrom([]int{-1, 1, 0, -1000, 1000}).Draw(rt, "delta")))
	}
	// fee sets the fee by the largest input
	fee := func(f uint64) bool {
		in, out := sums(t)
		if len(t.In) == 0 || out+f < out {
			return false
		}
		k := 0
		for i := range t.In {
			if t.In[i].Amount > t.In[k].Amount {
				k = i
			}
		}
		n := t.In[k].Amount + (out + f - in)
		if in-t.In[k].Amount > out+f {
			return false
		}
		t.In[k].Amount = n
		return true
	}
	pick := func(n int, name string) int { return kit.Even(rt, n, name) }
	if pick(6, "grow") == 0 { // a long one
		in, out := sums(t)
		paid := in - out
		b := kit.Expand(rapid.Uint64().Draw(rt, "growSeed"), 400)
		switch n := 10 + pick(300, "growBy"); pick(3, "grown") {
		case 0:
			for i := 0; i < n && len(t.Out) > 0; i++ {
				_, k := chaingen.Key(int(b[i]) % 12)
				t.Out = append(t.Out, ref.Out{Amount: 1 + uint64(b[i])%9, Key: k})
			}
		case 1:
			for i := 0; i < n/2; i++ {
				x := ref.In{Offsets: []uint32{uint32(b[i]), 1}[:1+b[i+1]%2]}
				binary.LittleEndian.PutUint32(x.Image[3:], uint32(i+1))
				binary.LittleEndian.PutUint32(x.Image[20:], 1<<31)
				copy(x.Image[24:], t.In[0].Image[16:24])
				t.In = append(t.In, x)
			}
		case 2:
			x := &t.In[pick(len(t.In), "wide")]
			for i := 0; i < n && h <= 216394; i++ {
				x.Offsets = append(x.Offsets[:len(x.Offsets):len(x.Offsets)], 1+uint32(b[i]))
			}
		}
		fee(paid)
	}
	kinds := []string{"none", "fee edge", "fee edge", "fee edge", "no fee", "other fee", "extra fee", "extra fee", "repeated image", "image of the block", "empty ring", "zero offset", "zero first", "wide ring", "wide ring", "no inputs", "coinbase input",
		"zero output", "ugly output", "bad key", "outputs over inputs", "input overflow", "output overflow", "balanced overflow", "nothing in", "no outputs", "no outputs either", "large", "many outputs"}
	kind := kinds[pick(len(kinds), "bend")]
	switch kind {
	case "fee edge":
		fee(near(ref.MinFee(h, len(t.Extra))))
	case "no fee":
		fee(0)
	case "other fee": // what another height asks
		f := []uint64{100_000_000, 100_000_000_000, 10_000_000_000, 8_000_000_000}
		fee(near(f[pick(4, "feeOf")]))
	case "extra fee":
		n := []int{99, 100, 101, 102, 150, 500, 1000, 3000}[pick(8, "extraLen")]
		t.Extra = kit.Blob(rt, n, "longExtra")
		switch pick(3, "feeKind") {
		case 0:
			fee(near(ref.MinFee(h, n)))
		case 1:
			fee(near(ref.MinFee(h, 0)))
		case 2:
			fee(near(ref.MinFee(h, n) * 10 / 8))
		}
	case "repeated image":
		if len(t.In) > 1 {
			a := pick(len(t.In), "a")
			t.In[(a+1)%len(t.In)].Image = t.In[a].Image
		}
	case "image of the block":
		if len(earlier) > 0 {
			e := earlier[pick(len(earlier), "earlier")]
			if len(e.In) > 0 && len(t.In) > 0 {
				t.In[pick(len(t.In), "a")].Image = e.In[pick(len(e.In), "b")].Image
			}
		}
	case "empty ring":
		if len(t.In) > 0 {
			t.In[pick(len(t.In), "a")].Offsets = nil
		}
	case "zero offset", "zero first":
		if len(t.In) > 0 {
			in := &t.In[pick(len(t.In), "a")]
			in.Offsets = append([]uint32{}, in.Offsets...)
			for len(in.Offsets) < 3 {
				in.Offsets = append(in.Offsets, 1)
			}
			if kind == "zero first" {
				in.Offsets[0] = 0
			} else {
				in.Offsets[1+pick(len(in.Offsets)-1, "at")] = 0
			}
		}
	case "wide ring":
		if len(t.In) > 0 {
			n := 18 + pick(6, "width")
			if pick(3, "huge") == 0 {
				n = []int{126, 127, 128, 129, 255, 256, 257, 300}[pick(8, "width")]
			}
			in := &t.In[pick(len(t.In), "a")]
			in.Offsets = nil
			for i := 0; i < n; i++ {
				in.Offsets = append(in.Offsets, uint32(i+1))
			}
		}
	case "no inputs":
		t.In = nil
	case "coinbase input":
		if len(t.In) > 0 {
			t.In[pick(len(t.In), "a")] = ref.In{Gen: true, Height: h}
		}
	case "zero output":
		if len(t.Out) > 0 {
			t.Out[pick(len(t.Out), "a")].Amount = 0
		}
	case "ugly output":
		if len(t.Out) > 0 {
			o := &t.Out[pick(len(t.Out), "a")]
			o.Amount = o.Amount*10 + uint64(1+pick(9, "units"))
			fee(ref.MinFee(h, len(t.Extra)))
		}
	case "bad key":
		if len(t.Out) > 0 {
			t.Out[pick(len(t.Out), "a")].Key = chaingen.BadKey(rt)
		}
	case "outputs over inputs":
		if in, out := sums(t); in >= out && len(t.Out) > 0 {
			o := &t.Out[pick(len(t.Out), "a")]
			o.Amount += in - out + uint64(pick(3, "over"))
		}
	case "input overflow":
		if len(t.In) > 0 {
			t.In = append(t.In, chaingen.DrawInput(rt, 77<<8))
			rest := uint64(0)
			for _, i := range t.In[:len(t.In)-1] {
				rest += i.Amount
			}
			t.In[len(t.In)-1].Amount = math.MaxUint64 - rest + uint64(pick(3, "over")) // 0 and, at the end, all of 2^64
			// what is left after wrapping pays for the outputs as before
			switch last := &t.In[len(t.In)-1]; pick(3, "wrap") {
			case 0:
				last.Amount = 1 << 63
				t.In = append(t.In, chaingen.DrawInput(rt, 78<<8))
				t.In[len(t.In)-1].Amount = 1 << 63
			case 1:
				part := 1<<63 | rapid.Uint64().Draw(rt, "part")
				last.Amount = part
				t.In = append(t.In, chaingen.DrawInput(rt, 78<<8))
				t.In[len(t.In)-1].Amount = -part
				if pick(2, "front") == 0 {
					t.In[0], t.In[len(t.In)-1] = t.In[len(t.In)-1], t.In[0]
				}
			}
		}
	case "output overflow":
		if len(t.Out) > 0 && len(t.In) > 0 {
			rest := uint64(0)
			for _, o := range t.Out {
				rest += o.Amount
			}
			t.Out = append(t.Out, ref.Out{Amount: math.MaxUint64 - rest + uint64(pick(3, "over")), Key: t.Out[0].Key})
		}
	case "balanced overflow": // the wrapped sum leaves a fee
		if len(t.Out) > 0 && h < 700000 {
			t.Out = append(t.Out, ref.Out{Amount: math.MaxUint64, Key: t.Out[0].Key}, ref.Out{Amount: 1, Key: t.Out[0].Key})
		} else if len(t.Out) > 0 {
			// 2^64 of pretty amounts
			for _, a := range []uint64{10000000000000000000, 8000000000000000000, 400000000000000000, 40000000000000000, 6000000000000000, 700000000000000, 40000000000000, 4000000000000, 70000000000, 3000000000, 700000000, 9000000, 500000, 50000, 1000, 600, 10, 6} {
				t.Out = append(t.Out, ref.Out{Amount: a, Key: t.Out[0].Key})
			}
		}
	case "nothing in":
		for i := range t.In {
			t.In[i].Amount = 0
		}
		if pick(2, "nothingOut") == 0 {
			t.Out = nil
		}
	case "no outputs", "no outputs either":
		t.Out = nil
		if kind == "no outputs" {
			fee(ref.MinFee(h, len(t.Extra)))
		}
	case "large":
		if h > 500000 || kit.Even(rt, 4, "costly") > 0 {
			return "none"
		}
		n := 249400
		if pick(2, "fusionSize") == 0 && h <= 216000 {
			n = 300000
		}
		n += pick(3, "over") - 1
		// the length of the extra is written in three bytes
		have := len(t.Bytes()) - len(t.Extra) + 2
		for _, i := range t.In {
			have += 64 * len(i.Offsets)
		}
		if len(t.Sigs) > 0 {
			for _, s := range t.Sigs {
				have -= 64 * len(s)
			}
		}
		if len(t.Extra) > 127 {
			have--
		}
		t.Extra = make([]byte, n-have)
	case "many outputs":
		if len(t.Out) > 0 {
			t.Out = append(t.Out, t.Out...)
			fee(ref.MinFee(h, len(t.Extra)))
		}
	}
	return kind
}

// bendFusion changes a fusion in one respect.
func bendFusion(rt *rapid.T, h uint32, t *ref.Tx) string {
	pick := func(n int, name string) int { return kit.Even(rt, n, name) }
	kinds := []string{"none", "none", "fewer inputs", "more outputs", "order", "not digits", "dusty", "one coin", "eleven"}
	kind := kinds[pick(len(kinds), "bendFusion")]
	switch kind {
	case "fewer inputs", "eleven": // merged into one: the sum stays
		n := 11
		if kind == "fewer inputs" {
			n = 4*len(t.Out) - pick(2, "fewer")
		}
		for len(t.In) > n && len(t.In) > 1 {
			t.In[0].Amount += t.In[len(t.In)-1].Amount
			t.In = t.In[:len(t.In)-1]
		}
	case "more outputs": // a digit split in two
		for i, o := range t.Out {
			if o.Amount > 1 {
				half := o.Amount / 2
				t.Out = append(append(append([]ref.Out{}, t.Out[:i]...), ref.Out{Amount: half, Key: o.Key}, ref.Out{Amount: o.Amount - half, Key: o.Key}), t.Out[i+1:]...)
				break
			}
		}
	case "order":
		if n := len(t.Out); n > 1 {
			a := pick(n-1, "a")
			t.Out[a], t.Out[a+1] = t.Out[a+1], t.Out[a]
		}
	case "not digits":
		if n := len(t.Out); n > 1 {
			a := pick(n-1, "a")
			t.Out[a].Amount += t.Out[a+1].Amount
			t.Out = append(t.Out[:a+1], t.Out[a+2:]...)
		}
	case "dusty":
		i, j := pick(len(t.In), "i"), pick(len(t.In), "j")
		if i != j && t.In[i].Amount > 1 {
			d := t.In[i].Amount - 100_000_000 + 1 // one below the dust threshold
			if h >= 266000 || t.In[i].Amount < 100_000_000 {
				d = 1
			}
			t.In[i].Amount -= d
			t.In[j].Amount += d
		}
	case "one coin": // a fee of one
		t.In[pick(len(t.In), "i")].Amount++
	}
	return kind
}

func TestVerifC27Amounts(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 600, Thorough: 12000,
		Rule: "next blocks, in the checkpoint zone, with 1 to 4, rarely 40, transactions (some with up to 300 outputs or ring members or 150 inputs) at heights around every rule change and anywhere up to 1.2 million; transactions are ordinary or fusions and, in most, one is changed in one of 36 ways around the fee, extra fee, ring, key image, amount, overflow, size and fusion rules; the block, paid exactly, is accepted if and only if a model of the rules allows every transaction; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt), Zone: true})
			for try := 0; try < 6; try++ {
				if d, ok := w.Difficulty(); !ok || d == 0 {
					rt.Skip("difficulty")
				}
				h := w.Top + 1
				v, shares := w.Valid(rt, 0, false)
				n := rapid.IntRange(1, 4).Draw(rt, "transactions")
				if kit.Even(rt, 40, "manyTransactions") == 0 {
					n = 1 + kit.Even(rt, 40, "transactions")
				}
				var l []*ref.Tx
				label := ""
				at := kit.Even(rt, n, "which")
				for i := 0; i < n; i++ {
					var x *ref.Tx
					fus := kit.Even(rt, 3, "fusion") == 0
					if fus {
						x = fusion(rt, h, i)
					} else {
						x = chaingen.ValidTx(rt, h, i)
					}
					if i == at {
						if fus {
							label = "fusion: " + bendFusion(rt, h, x)
						} else {
							label = bend(rt, h, x, l)
						}
					}
					chaingen.Ringed(rt, x)
					l = append(l, x)
				}
				spent := map[[32]byte]bool{}
				why := ""
				for _, x := range l {
					fee, y := ref.TxRules(h, x, spent)
					if why == "" && y != "" {
						why = y
						// paid as the sums say, in case the rule is forgotten
						in, out := sums(x)
						fee = in - out
						if in < out {
							fee = 0
						}
					}
					v.Fee += fee
					v.Txs, v.B.Txs = append(v.Txs, x.Bytes()), append(v.B.Txs, x.Hash())
				}
				if v.Fee > 1<<62 || len(v.B.Base.Out) == 0 || !w.Settle(v, v.B.Major, shares) {
					c.Label("not payable")
					if why == "" {
						continue
					}
				}
				v.Sign()
				if why == "" {
					c.Label("accepted: " + label)
				} else {
					c.Label("refused: " + why)
				}
				c.Hit(v.B.Bytes())
				c.Sample("block %d with %d transactions, %s: %q", h, n, label, why)
				o := &offer{cand: v, valid: why == ""}
				o.try(rt, w, fmt.Sprintf("transaction %d of %d, %s: %q\ntransaction %s", at, n, label, why, short(v.Txs[at])))
			}
		})
}

// image makes a key image in the prime-order subgroup, or next to it.
func image(rt *rapid.T, good bool) [32]byte {
	p := ref.MulBase(ref.ScalarOf(kit.Expand(rapid.Uint64().Draw(rt, "image"), 32)))
	if good {
		return p.Encode()
	}
	switch kit.Even(rt, 4, "badImage") {
	case 0:
		return chaingen.BadKey(rt)
	case 1: // moved by a point of small order
		l := ref.LowOrder()
		for {
			q := l[kit.Even(rt, len(l), "torsion")]
			if !q.Equal(ref.Identity()) {
				return p.Add(q).Encode()
			}
		}
	case 2: // a point of small order alone
		l := ref.LowOrder()
		for {
			q := l[kit.Even(rt, len(l), "torsion")]
			if !q.Equal(ref.Identity()) {
				return q.Encode()
			}
		}
	}
	b := [32]byte{}
	copy(b[:], kit.Expand(rapid.Uint64().Draw(rt, "random"), 32))
	if q, ok := ref.Decode(b); ok && q.Mul(ref.L).Equal(ref.Identity()) {
		return chaingen.BadKey(rt)
	}
	return b
}

func TestVerifC27Outside(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 6000,
		Rule: "next blocks outside the checkpoint zone with a transaction whose ring signatures do not verify, key images in and outside the prime-order subgroup: refused, chain unchanged, and the same block without it accepted; blocks just below the end of the zone: accepted with any 32 bytes as key images, and at the end with proper ones; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt)})
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			h := w.Top + 1
			where := rapid.SampledFrom([]string{"outside", "just outside", "last", "inside"}).Draw(rt, "where")
			v, shares := w.Valid(rt, 0, false)
			x := chaingen.ValidTx(rt, h, 0)
			good := rapid.Bool().Draw(rt, "good")
			if where == "last" {
				good = true
			}
			for i := range x.In {
				x.In[i].Image = image(rt, good || i > 0 && where != "inside")
				for j := 0; j < i; j++ {
					if x.In[i].Image == x.In[j].Image {
						rt.Skip("same image")
					}
				}
			}
			chaingen.Ringed(rt, x)
			plain := v.Clone()
			fee, why := ref.TxRules(h, x, map[[32]byte]bool{})
			if why != "" {
				rt.Fatalf("VERIF-INFRA %s", why)
			}
			v.Fee = fee
			v.Txs, v.B.Txs = [][]byte{x.Bytes()}, [][32]byte{x.Hash()}
			if len(v.B.Base.Out) == 0 || !w.Settle(v, v.B.Major, shares) {
				rt.Skip("not payable")
			}
			v.Sign()
			switch where {
			case "just outside":
				if h < 2 {
					rt.Skip("height")
				}
				w.Checkpoint(rt, h-1, w.Recs[h-1].Hash)
			case "last":
				w.Checkpoint(rt, h, v.B.Hash())
			case "inside":
				w.Checkpoint(rt, h+1, [32]byte{1})
			}
			ok := where == "last" || where == "inside"
			c.Label(fmt.Sprintf("%s, good image %v", where, good))
			c.Hit(v.B.Bytes())
			c.Sample("block %d %s", h, where)
			o := &offer{cand: v, valid: ok}
			if !o.try(rt, w, where+" the zone with a transaction of random signatures") {
				o = &offer{cand: plain, valid: true}
				o.try(rt, w, "without the transaction")
			}
		})
}

func TestVerifC27List(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 400, Thorough: 8000,
		Rule: "next blocks in the checkpoint zone with 1 to 12, rarely 150, transactions, the list of hashes or the transactions changed in one place: missing, added, repeated, swapped, altered, cut short or followed by bytes; refused, and the unchanged block accepted; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt), Zone: true})
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			n := rapid.IntRange(1, 12).Draw(rt, "transactions")
			if kit.Even(rt, 12, "manyTransactions") == 0 {
				n = 1 + kit.Even(rt, 150, "transactions")
			}
			v, shares := w.Valid(rt, n, false)
			for i := 0; i < 6; i++ {
				kind := []string{"extra hash", "missing hash", "missing tx", "extra tx", "wrong hash", "swapped", "cut tx", "long tx", "twice", "fee reward", "again far", "both again", "undecodable"}[kit.Even(rt, 13, "change")]
				n := len(v.Txs)
				var o *offer
				switch kind {
				case "again far": // one of them takes the place of another
					if n < 2 {
						continue
					}
					o = &offer{cand: v.Clone()}
					a, b := kit.Even(rt, n, "a"), kit.Even(rt, n, "b")
					if a == b {
						continue
					}
					x := o.cand
					x.Fee = feeOf(v.Txs[a])
					for j := range v.Txs {
						if j != b && j != a {
							x.Fee += feeOf(v.Txs[j])
						}
					}
					x.Fee += feeOf(v.Txs[a])
					x.Txs[b], x.B.Txs[b] = x.Txs[a], x.B.Txs[a]
					if !w.Settle(x, x.B.Major, shares) {
						continue
					}
					x.Sign()
				case "both again": // hashes in another order than the transactions
					if n < 2 {
						continue
					}
					o = &offer{cand: v}
					raw := v.Raw()
					o.raw = append(raw[1:], raw[0])
				case "undecodable":
					o = &offer{cand: v, raw: v.Raw()}
					o.raw[kit.Even(rt, n, "at")] = kit.Bytes(rt, 40, "noise")
				default:
					if o = violate(rt, w, v, shares, kind); o == nil {
						continue
					}
				}
				c.Label(kind)
				if o.try(rt, w, kind) {
					return
				}
			}
			c.Hit(v.B.Bytes())
			c.Sample("block %d with %d transactions", w.Top+1, len(v.Txs))
			o := &offer{cand: v, valid: true}
			o.try(rt, w, "unchanged block")
		})
}

// feeOf an encoded transaction of the generator.
func feeOf(b []byte) uint64 {
	var x cryptonote.Transaction
	if err := x.Deserialize(bytes.NewReader(b)); err != nil {
		return 0
	}
	t, err := cngen.RefTx(&x)
	if err != nil {
		return 0
	}
	in, out := sums(t)
	return in - out
}

// TestVerifC27Size is about the largest transactions.
func TestVerifC27Size(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 90, Thorough: 2500,
		Rule: "next blocks, in the checkpoint zone, with one transaction or fusion, made of many inputs, wide rings, many outputs or long extra, whose size is one of the limits for transactions or fusions, one less, one more or twice it, at heights around and far from the heights where the limits change; the block, paid exactly, is accepted if and only if a model of the rules allows it; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			top := uint32(0)
			switch kit.Even(rt, 6, "height") {
			case 0:
				top = 216000 - 2 + uint32(kit.Even(rt, 4, "top"))
			case 1:
				top = 266000 - 2 + uint32(kit.Even(rt, 4, "top"))
			case 2:
				top = 60010 + uint32(kit.Even(rt, 156000, "top"))
			default:
				top = 216000 + uint32(kit.Even(rt, 1000000, "top"))
			}
			w := chaingen.New(rt, chaingen.Options{Top: top, Zone: true})
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			h := w.Top + 1
			v, shares := w.Valid(rt, 0, false)
			size := []int{249400, 249400, 300000}[kit.Even(rt, 3, "limit")] + []int{-1, 0, 1, 1, 0, 40000}[kit.Even(rt, 6, "off")]
			x := &ref.Tx{Version: 1}
			fus := h <= 280000 && kit.Even(rt, 2, "fusion") == 0
			what := "transaction"
			in, ring, out := 12+kit.Even(rt, 1000, "inputs"), 1+kit.Even(rt, 20, "ring"), 1+kit.Even(rt, 9, "outputs")
			if kit.Even(rt, 4, "outs") == 0 && !fus {
				out = 1 + kit.Even(rt, 5000, "manyOutputs")
			}
			if kit.Even(rt, 4, "few") == 0 {
				in = 12
			}
			grow := size - 45*out - 300
			for in > 12 && in*(44+65*ring) > grow {
				in--
			}
			each := uint64(100_000_000)
			for i := 0; i < in; i++ {
				e := ref.In{}
				binary.LittleEndian.PutUint32(e.Image[3:], uint32(i+1))
				for j := 0; j < ring; j++ {
					e.Offsets = append(e.Offsets, uint32(1+j))
				}
				e.Amount = each
				x.In = append(x.In, e)
			}
			sum := each * uint64(in)
			if fus {
				what = "fusion"
				thr := uint64(0)
				if h < 266000 {
					thr = each
				}
				for _, a := range ref.Decompose(sum, thr) {
					_, k := chaingen.Key(kit.Even(rt, 12, "key"))
					x.Out = append(x.Out, ref.Out{Amount: a, Key: k})
				}
			} else {
				_, k := chaingen.Key(kit.Even(rt, 12, "key"))
				for i := 0; i < out; i++ {
					x.Out = append(x.Out, ref.Out{Amount: 1 + uint64(i%9), Key: k})
				}
			}
			for try := 0; ; try++ {
				chaingen.Ringed(rt, x)
				if !fus {
					_, sent := sums(x)
					x.In[0].Amount = each
					if need := sent + ref.MinFee(h, len(x.Extra)); need > sum {
						x.In[0].Amount += need - sum
					}
				}
				have := len(x.Bytes())
				if have == size {
					break
				}
				if n := len(x.Extra) + size - have; n < 0 || try > 6 {
					rt.Skip("no such size")
				} else {
					x.Extra = make([]byte, n)
				}
			}
			fee, why := ref.TxRules(h, x, map[[32]byte]bool{})
			if why != "" {
				in, out := sums(x)
				fee = in - out
			}
			v.Fee = fee
			v.Txs, v.B.Txs = append(v.Txs, x.Bytes()), append(v.B.Txs, x.Hash())
			if v.Fee > 1<<62 || len(v.B.Base.Out) == 0 || !w.Settle(v, v.B.Major, shares) {
				c.Label("not payable")
				return
			}
			v.Sign()
			if why == "" {
				c.Label("accepted " + what)
			} else {
				c.Label("refused " + what + ": " + why)
			}
			c.Hit(v.B.Bytes())
			c.Sample("block %d with %s of %d bytes (%d inputs, rings of %d, %d outputs, extra %d): %q", h, what, size, len(x.In), ring, len(x.Out), len(x.Extra), why)
			o := &offer{cand: v, valid: why == ""}
			o.try(rt, w, fmt.Sprintf("%s of %d bytes, %d inputs, rings of %d, %d outputs, extra %d: %q", what, size, len(x.In), ring, len(x.Out), len(x.Extra), why))
		})
}

func TestVerifC27Limit(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 150, Thorough: 3000,
		Rule: "valid next blocks, in the checkpoint zone, with up to 4 transactions, on networks whose largest transaction size is that of the coinbase or of one of the transactions, one byte less, one more or anything near: the block is accepted exactly when no transaction is larger than that; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt), Zone: true})
			v, _ := w.Valid(rt, kit.Even(rt, 5, "txs"), false)
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			sizes := []int{len(v.B.Base.Bytes())}
			for _, x := range v.Txs {
				sizes = append(sizes, len(x))
			}
			largest := 0
			for _, s := range sizes {
				largest = max(largest, s)
			}
			limit := largest
			if kit.Even(rt, 3, "of") == 0 {
				limit = sizes[kit.Even(rt, len(sizes), "which")]
			}
			limit += []int{-1, 0, 0, 1, kit.Even(rt, 200, "off") - 100}[kit.Even(rt, 5, "by")]
			w.Net.MaxTxSize = uint64(max(limit, 0))
			valid := limit >= largest
			c.Label(fmt.Sprintf("accepted %v", valid))
			if !valid && sizes[0] > limit {
				c.Label("coinbase over the limit")
			}
			c.Hit(v.B.Bytes(), limit)
			c.Sample("block %d with transactions of %d bytes, at most %d: %v", w.Top+1, sizes, limit, valid)
			o := &offer{cand: v, valid: valid}
			what := fmt.Sprintf("transactions of %d bytes, at most %d", sizes, limit)
			if !o.try(rt, w, what) && !valid {
				w.Net.MaxTxSize = uint64(largest)
				o = &offer{cand: v, valid: true}
				o.try(rt, w, what+", then allowed")
			}
		})
}
