//go:build go1.23

package cryptonote_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// offer is one block offered to the chain, made of a candidate or, for what no encoding can carry, changed in memory.
type offer struct {
	cand  *chaingen.Cand
	raw   [][]byte // instead of the candidate's transactions
	alter func(b *cryptonote.Block)
	late  func() bool // false: too much time has passed for the offer to mean anything
	valid bool        // the rules allow it
}

// breaks lists the ways of breaking one rule.
var breaks = []string{"version", "orphan", "old parent", "early", "future", "future edge", "no input", "two inputs", "key input", "height", "unlock", "signatures",
	"zero output", "bad key", "two outputs", "overflow", "reward", "reward", "fee reward", "oversize", "wasteful", "extra hash", "missing hash", "missing tx", "extra tx", "wrong hash", "swapped", "cut tx", "long tx", "twice",
	"mm tag", "bad extra", "long extra", "extra edge", "parent version", "parent size", "parent edge", "forged", "other signer", "other data", "second key", "early edge"}

// breaksOf a version.
func breaksOf(major byte, txs int) (l []string) {
	only := map[string]func() bool{
		"forged": func() bool { return major == 5 }, "other signer": func() bool { return major == 5 }, "other data": func() bool { return major == 5 }, "second key": func() bool { return major == 5 },
		"zero output": func() bool { return major < 5 }, "parent version": func() bool { return major == 2 || major == 3 },
	}
	for _, k := range []string{"parent size", "parent edge"} {
		only[k] = only["parent version"]
	}
	for _, k := range []string{"fee reward", "missing hash", "missing tx", "wrong hash", "swapped", "cut tx", "long tx", "twice"} {
		only[k] = func() bool { return txs > 0 }
	}
	for _, k := range breaks {
		if f := only[k]; f == nil || f() {
			l = append(l, k)
		}
	}
	return
}

// violate makes a variant of a valid candidate that breaks exactly one rule (or, for the edges, still none); nil when that does not apply.
func violate(rt *rapid.T, w *chaingen.World, v *chaingen.Cand, shares []uint64, kind string) *offer {
	h := w.Top + 1
	major := v.B.Major
	o := &offer{cand: v.Clone()}
	c := o.cand
	// again pays and signs after a change
	again := func() *offer {
		if len(c.B.Base.Out) == 0 || !w.Settle(c, major, shares) {
			return nil
		}
		c.Sign()
		return o
	}
	// sign only
	sign := func() *offer { c.Sign(); return o }
	swap := func() bool {
		if len(c.Txs) == 0 {
			return false
		}
		return true
	}
	switch kind {
	case "version":
		n := byte(rapid.IntRange(1, 5).Draw(rt, "wrongVersion"))
		if n == major || n == 5 && len(c.B.Base.Out) != 1 {
			return nil
		}
		c.B.Major, c.B.Parent = n, nil
		if n == 2 || n == 3 {
			c.B.Parent = chaingen.SimpleParent(c.B.Timestamp)
			c.B.Parent.Nonce = c.B.Nonce
		}
		// paid as the right version, and as the wrong one
		if len(c.B.Base.Out) == 0 || !w.Settle(c, []byte{major, n}[rapid.IntRange(0, 1).Draw(rt, "paidAs")], shares) {
			return nil
		}
		c.Sign()
		return o
	case "orphan":
		c.B.Prev = kit.Arr32(rt, "orphan")
		if rapid.Bool().Draw(rt, "near") {
			c.B.Prev = w.Recs[w.Top].Hash
			c.B.Prev[rapid.IntRange(0, 31).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		}
		return sign()
	case "old parent":
		d := uint32(rapid.IntRange(1, 5).Draw(rt, "back"))
		if d > w.Top {
			return nil
		}
		p, ok := w.Recs[w.Top-d]
		if !ok {
			return nil
		}
		c.B.Prev = p.Hash
		return sign()
	case "early", "early edge":
		lo, full := w.Earliest()
		if lo == 0 && full {
			return nil
		}
		if lo > 0 {
			c.B.Timestamp = lo - 1
		}
		if !full {
			if o.valid = true; rapid.Bool().Draw(rt, "ancient") {
				c.B.Timestamp = rapid.Uint64Range(0, 100).Draw(rt, "time")
			}
		} else if kind == "early edge" {
			c.B.Timestamp, o.valid = lo, true
		} else if rapid.Bool().Draw(rt, "ancient") {
			if c.B.Timestamp = 0; kit.Even(rt, 4, "zero") > 0 {
				c.B.Timestamp = rapid.Uint64Range(0, lo-1).Draw(rt, "time")
			}
		}
		if p := c.B.Parent; p != nil {
			p.Timestamp = c.B.Timestamp
		}
		return sign()
	case "future", "future edge":
		limit := uint64(1680)
		if major >= 4 {
			limit = 720
		}
		if kind == "future" {
			limit += uint64(rapid.SampledFrom([]int{20, 60, 600, 2000, 1 << 20, 1 << 40}).Draw(rt, "ahead"))
			if rapid.IntRange(0, 5).Draw(rt, "never") == 0 {
				limit = 1<<63 + 1<<62
			}
		} else {
			o.valid = true
		}
		c.B.Timestamp = w.Net.Timestamp() + limit
		o.late = func() bool {
			// the offer was made in the second it was meant for, or is still too far ahead
			n := w.Net.Timestamp()
			if kind == "future edge" {
				return true // time only makes it more acceptable
			}
			max := uint64(1680)
			if major >= 4 {
				max = 720
			}
			return c.B.Timestamp > n+max
		}
		if p := c.B.Parent; p != nil {
			p.Timestamp = c.B.Timestamp
		}
		return sign()
	case "no input":
		c.B.Base.In = nil
		return again()
	case "two inputs":
		c.B.Base.In = append(c.B.Base.In, ref.In{Gen: true, Height: h})
		return again()
	case "key input":
		c.B.Base.In[0] = chaingen.DrawInput(rt, 99)
		chaingen.Ringed(rt, &c.B.Base)
		return again()
	case "height":
		d := rapid.SampledFrom([]uint32{1, ^uint32(0), 2, 1 << 31, ^h + 1}).Draw(rt, "delta") // the last: height 0
		c.B.Base.In[0].Height += d
		if rapid.Bool().Draw(rt, "unlockToo") {
			c.B.Base.Unlock = uint64(c.B.Base.In[0].Height) + 10
		}
		return again()
	case "unlock":
		u := c.B.Base.Unlock
		c.B.Base.Unlock = rapid.SampledFrom([]uint64{u - 1, u + 1, 0, u - 10, u + 1<<32, uint64(h) + 9, 1600000000}).Draw(rt, "unlock")
		return again()
	case "signatures":
		o.alter = func(b *cryptonote.Block) {
			b.BaseTransaction.TransactionSignatures = cryptonote.TransactionSignatures{make([]crypto.Signature, rapid.IntRange(0, 2).Draw(rt, "signatures"))}
		}
		return o
	case "zero output":
		if major >= 5 {
			return nil
		}
		_, k := chaingen.Key(3)
		at := kit.Even(rt, len(c.B.Base.Out)+1, "at")
		for i := 0; i < 6; i++ { // the size of the payment changes the payment
			out := append([]ref.Out{}, c.B.Base.Out[:at]...)
			out = append(out, ref.Out{Key: k})
			c.B.Base.Out = append(out, c.B.Base.Out[at:]...)
			r, _, ok := w.Reward(c, major)
			if !ok {
				return nil
			}
			sum := uint64(0)
			for _, x := range c.B.Base.Out {
				sum += x.Amount
			}
			if sum == r {
				return sign()
			}
			last := len(c.B.Base.Out) - 1
			if last == at {
				last--
			}
			if last < 0 || c.B.Base.Out[last].Amount+r <= sum {
				return nil
			}
			c.B.Base.Out[last].Amount += r - sum
			c.B.Base.Out = append(append([]ref.Out{}, c.B.Base.Out[:at]...), c.B.Base.Out[at+1:]...)
		}
		return nil
	case "bad key":
		if len(c.B.Base.Out) == 0 {
			return nil
		}
		c.B.Base.Out[kit.Even(rt, len(c.B.Base.Out), "at")].Key = chaingen.BadKey(rt)
		return sign()
	case "two outputs":
		if len(c.B.Base.Out) == 0 {
			return nil
		}
		_, k := chaingen.Key(rapid.IntRange(0, 11).Draw(rt, "second"))
		c.B.Base.Out = append(c.B.Base.Out, ref.Out{Amount: 1, Key: k})
		o.valid = major < 5
		return again()
	case "overflow":
		if len(c.B.Base.Out) == 0 {
			return nil
		}
		_, k := chaingen.Key(2)
		big := math.MaxUint64 - rapid.Uint64Range(0, 5).Draw(rt, "below")
		for i := 0; i < 6; i++ {
			c.B.Base.Out = []ref.Out{{Amount: big, Key: k}, {Amount: 1, Key: k}}
			r, _, ok := w.Reward(c, major)
			if !ok {
				return nil
			}
			for j := 0; j < 6; j++ {
				if r, _, ok = w.Reward(c, major); !ok {
					return nil
				}
				c.B.Base.Out[1].Amount = r - big // the sum is the reward, modulo 2^64
			}
			if x, _, _ := w.Reward(c, major); x == r && r < big {
				break
			}
		}
		return sign()
	case "reward", "fee reward":
		if len(c.B.Base.Out) == 0 {
			return nil
		}
		out := c.B.Base.Out
		last := &out[len(out)-1]
		d := rapid.SampledFrom([]uint64{1, ^uint64(0), 2, 1 << 20, ^uint64(1 << 20), 1000000}).Draw(rt, "delta")
		if kind == "fee reward" {
			if c.Fee == 0 {
				return nil
			}
			d = -c.Fee
			if rapid.Bool().Draw(rt, "doubled") {
				d = c.Fee
			}
		}
		if n := last.Amount + d; n == 0 || (d < 1<<63) != (n > last.Amount) {
			return nil
		}
		last.Amount += d
		if r, _, ok := w.Reward(c, major); ok {
			sum := uint64(0)
			for _, x := range out {
				sum += x.Amount
			}
			if sum == r {
				return nil
			}
		}
		return sign()
	case "wasteful": // more than twice the median
		m := ref.RewardMedian(major, w.SizeMedian())
		if 2*m > 400000 || h >= 500000 {
			return nil
		}
		n := 2*m + 1 + rapid.Uint64Range(0, 3).Draw(rt, "over")
		if have := c.Size(); have < n {
			c.B.Base.Extra = append(c.B.Base.Extra, make([]byte, n-have)...)
		}
		return sign()
	case "oversize":
		max := ref.MaxBlockSize(h)
		if h >= 500000 || 2*ref.RewardMedian(major, w.SizeMedian()) < max+2000 || rapid.IntRange(0, 7).Draw(rt, "costly") > 0 {
			return nil
		}
		c.B.Base.Extra = nil
		o.valid = rapid.Bool().Draw(rt, "fits")
		n := max
		if !o.valid {
			n++
		}
		for i := 0; i < 30; i++ {
			if have := c.Size(); have < n {
				c.B.Base.Extra = append(c.B.Base.Extra, make([]byte, n-have)...)
			} else if have > n {
				c.B.Base.Extra = c.B.Base.Extra[:uint64(len(c.B.Base.Extra))-(have-n)]
			}
			if again() == nil {
				return nil
			}
			if c.Size() == n {
				return o
			}
		}
		return nil
	case "extra hash":
		at := kit.Even(rt, len(c.B.Txs)+1, "at")
		l := append([][32]byte{}, c.B.Txs[:at]...)
		l = append(l, kit.Arr32(rt, "hash"))
		c.B.Txs = append(l, c.B.Txs[at:]...)
		return sign()
	case "missing hash":
		if !swap() {
			return nil
		}
		c.B.Txs = c.B.Txs[:len(c.B.Txs)-1]
		return sign()
	case "missing tx":
		if !swap() {
			return nil
		}
		o.raw = c.Raw()[:len(c.Txs)-1]
		if rapid.Bool().Draw(rt, "first") {
			o.raw = c.Raw()[1:]
		}
		if o.raw == nil {
			o.raw = [][]byte{}
		}
		return sign()
	case "extra tx":
		o.raw = append(c.Raw(), chaingen.ValidTx(rt, h, 9).Bytes())
		return o
	case "wrong hash":
		if !swap() {
			return nil
		}
		at := kit.Even(rt, len(c.B.Txs), "at")
		c.B.Txs[at][rapid.IntRange(0, 31).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		return sign()
	case "swapped":
		n := len(c.B.Txs)
		if n < 2 {
			return nil
		}
		a := kit.Even(rt, n, "a")
		b := (a + 1 + kit.Even(rt, n-1, "b")) % n
		c.B.Txs[a], c.B.Txs[b] = c.B.Txs[b], c.B.Txs[a]
		return sign()
	case "cut tx", "long tx":
		if !swap() {
			return nil
		}
		o.raw = c.Raw()
		at := kit.Even(rt, len(o.raw), "at")
		if kind == "cut tx" {
			o.raw[at] = o.raw[at][:rapid.IntRange(0, len(o.raw[at])-1).Draw(rt, "len")]
		} else {
			o.raw[at] = append(o.raw[at], make([]byte, rapid.IntRange(1, 70).Draw(rt, "more"))...)
			c.Txs = o.raw // paid for the longer transaction
			return again()
		}
		return o
	case "twice":
		if !swap() {
			return nil
		}
		at := kit.Even(rt, len(c.B.Txs), "at")
		fee := v.Fee // the doubled transaction doubles its fee
		if len(c.B.Txs) > 1 {
			return nil
		}
		c.B.Txs, c.Txs = append(c.B.Txs, c.B.Txs[at]), append(c.Txs, c.Txs[at])
		c.Fee += fee
		return again()
	case "mm tag", "bad extra":
		add := ref.MMTag(uint64(rapid.IntRange(0, 3).Draw(rt, "depth")), kit.Arr32(rt, "root"))
		if kind == "bad extra" {
			add = rapid.SampledFrom([][]byte{{4}, {2, 5, 1}, {1, 2, 3}, {0, 1}, {2, 0x80, 2}, {3, 33, 0, 1}}).Draw(rt, "defect")
		}
		o.valid = major < 5
		if kind == "mm tag" && rapid.Bool().Draw(rt, "first") && major >= 5 {
			c.B.Base.Extra = append(add, c.B.Base.Extra...)
		} else {
			if h >= 500000 && len(c.B.Base.Extra)+len(add) > 1024 {
				return nil
			}
			c.B.Base.Extra = append(c.B.Base.Extra, add...)
		}
		return again()
	case "long extra", "extra edge":
		n := 1025 + rapid.IntRange(0, 200).Draw(rt, "over")*rapid.IntRange(0, 1).Draw(rt, "far")
		o.valid = h < 500000
		if kind == "extra edge" {
			n, o.valid = 1024, true
		}
		e := []byte{}
		for len(e) < n { // nonce fields, so that it stays well-formed
			k := n - len(e)
			if k > 129 {
				k = 100
			} else if k == 129 { // the length needs two bytes from 128 on
				k = 60
			}
			if k < 3 {
				return nil
			}
			if n-len(e)-k > 0 && n-len(e)-k < 3 {
				k -= 10
			}
			e = append(append(e, 2, byte(k-2)), make([]byte, k-2)...)
		}
		c.B.Base.Extra = e
		return again()
	case "parent version":
		if c.B.Parent == nil {
			return nil
		}
		c.B.Parent.Major = byte(rapid.IntRange(2, 255).Draw(rt, "parentVersion"))
		o.valid = major == 3
		return o
	case "parent size", "parent edge":
		if c.B.Parent == nil {
			return nil
		}
		n := 2049 + rapid.IntRange(0, 100).Draw(rt, "over")*rapid.IntRange(0, 1).Draw(rt, "far")
		if kind == "parent edge" {
			n, o.valid = 2048, true
		}
		if chaingen.PadParent(c.B.Parent, n); chaingen.ParentSize(c.B.Parent) != n {
			return nil
		}
		return o
	case "forged":
		if major < 5 {
			return nil
		}
		switch rapid.IntRange(0, 2).Draw(rt, "forgery") {
		case 0:
			c.B.Sig[rapid.IntRange(0, 63).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		case 1:
			c.B.Sig = [64]byte{}
		default:
			copy(c.B.Sig[:], kit.Expand(rapid.Uint64().Draw(rt, "random"), 64))
		}
		return o
	case "other signer":
		if major < 5 {
			return nil
		}
		sec, pub := chaingen.Key(rapid.IntRange(0, 11).Draw(rt, "signer"))
		if pub == c.B.Base.Out[0].Key {
			return nil
		}
		c.Sec = sec
		return sign()
	case "second key": // the key the extra names instead of the output's
		if major < 5 {
			return nil
		}
		sec, pub := chaingen.Key(rapid.IntRange(0, 11).Draw(rt, "signer"))
		if pub == c.B.Base.Out[0].Key {
			return nil
		}
		c.Sec = sec
		c.B.Base.Extra = append([]byte{1}, pub[:]...)
		return again()
	case "other data":
		if major < 5 {
			return nil
		}
		x := c.Clone()
		switch rapid.IntRange(0, 5).Draw(rt, "what") {
		case 0:
			x.B.Nonce ^= 1
		case 1:
			x.B.Timestamp++
		case 2:
			x.B.Prev[0] ^= 1
		case 3:
			x.B.Base.Extra = append(x.B.Base.Extra, 0)
		case 4:
			x.B.Minor ^= 1
		case 5:
			x.B.Txs = append(x.B.Txs, [32]byte{})
		}
		c.Signed = x.B.HashingBytes()
		if rapid.IntRange(0, 3).Draw(rt, "whole") == 0 {
			hash := c.B.Hash()
			c.Signed = hash[:]
		}
		return sign()
	}
	return nil
}

// try offers and compares with what the rules say; true when the block was added.
func (o *offer) try(rt *rapid.T, w *chaingen.World, kind string) bool {
	b, err := o.cand.Block()
	if err != nil {
		rt.Fatalf("%s: block does not decode: %v\n%s", kind, err, short(o.cand.B.Bytes()))
	}
	raw := o.raw
	if raw == nil {
		raw = o.cand.Raw()
	}
	if o.alter != nil {
		o.alter(b)
	}
	valid := o.valid
	if o.cand.Size() > ref.MaxBlockSize(w.Top+1) { // a change may have made a block at the limit too large
		valid = false
	}
	if d, ok := w.Difficulty(); !ok {
		rt.Skip("difficulty outside the definition")
	} else if d == 0 {
		valid = false
	}
	err = w.Offer(rt, b, raw)
	if o.late != nil && !o.late() {
		rt.Skip("too late")
	}
	if err == nil && !valid {
		rt.Fatalf("block %d (version %d) accepted although it breaks a rule: %s", w.Top+1, o.cand.B.Major, describe(w, o.cand, kind))
	}
	if err != nil && valid {
		rt.Fatalf("block %d (version %d) refused with %q although it obeys the rules: %s", w.Top+1, o.cand.B.Major, err, describe(w, o.cand, kind))
	}
	if err != nil {
		hash := crypto.Hash(o.cand.B.Hash())
		known := false
		for _, r := range w.Recs {
			known = known || r.Hash == hash
		}
		if !known && w.BC.HaveBlock(&hash) {
			rt.Fatalf("%s: refused block is in the chain", kind)
		}
	} else {
		w.Accept(o.cand)
	}
	w.Check(rt, kind)
	return err == nil
}

func describe(w *chaingen.World, c *chaingen.Cand, kind string) string {
	lo, full := w.Earliest()
	r, _, ok := w.Reward(c, chaingen.Version(w.Top+1))
	d, _ := w.Difficulty()
	s := ""
	for _, o := range c.B.Base.Out {
		s += fmt.Sprintf(" %d", o.Amount)
	}
	return fmt.Sprintf("%s\ntime %d (median %d, window full %v), size %d (median %d), difficulty %d, reward %d %v, outputs%s, fee %d, extra %d bytes, %d transactions, zone up to %d\nblock %s",
		kind, c.B.Timestamp, lo, full, c.Size(), w.SizeMedian(), d, r, ok, s, c.Fee, len(c.B.Base.Extra), len(c.Txs), w.Zone, short(c.B.Bytes()))
}

func TestVerifC24Rules(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 500, Thorough: 8000,
		Rule: "chains with the top at every rule change and anywhere from genesis to 1.2 million (steady, noisy, unordered and fast times, small to zone-sized blocks, difficulty up to the overflow of versions 1 and 2, early to tail emission), inside and outside a checkpoint zone; for each, a valid next block (times at the median, blocks up to the size limit, 0 to 3, rarely 80, transactions, 0 to 300 outputs) and 8 single changes out of 42 kinds that break a rule or stay just inside it; every offer is judged by a model of the rules, then the valid block must be accepted, once, and a valid successor too; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			zone := rapid.Bool().Draw(rt, "zone")
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt), Zone: zone})
			txs := 0
			if zone {
				txs = rapid.IntRange(0, 3).Draw(rt, "txs")
				if kit.Even(rt, 25, "manyTxs") == 0 {
					txs = kit.Even(rt, 80, "txs")
				}
			}
			big := kit.Even(rt, 2, "bigKind") == 0
			if w.Top > 60000 && big {
				big = kit.Even(rt, 12, "costly") == 0
			}
			v, shares := w.Valid(rt, txs, big)
			if d, ok := w.Difficulty(); !ok {
				rt.Skip("difficulty outside the definition")
			} else if d == 0 {
				c.Label("difficulty overflow")
			}
			w.Check(rt, "at first")
			for i := 0; i < 8; i++ {
				l := breaksOf(v.B.Major, len(v.Txs))
				kind := l[kit.Even(rt, len(l), "break")]
				o := violate(rt, w, v, shares, kind)
				if o == nil {
					continue
				}
				if o.valid {
					c.Label("edge: " + kind)
				} else {
					c.Label(kind)
				}
				if o.try(rt, w, kind) {
					// the edge was taken: go on from there
					c.Label("added")
					v, shares = w.Valid(rt, txs, big && w.Top < 60000)
				}
			}
			c.Label(fmt.Sprintf("version %d", v.B.Major))
			if v.Size() > ref.RewardMedian(v.B.Major, w.SizeMedian()) {
				c.Label("reduced reward")
			}
			c.Hit(v.B.Bytes())
			c.Sample("block %d version %d of %d bytes with %d transactions", w.Top+1, v.B.Major, v.Size(), len(v.Txs))
			for i := 0; i < 2; i++ {
				o := &offer{cand: v, valid: true}
				if !o.try(rt, w, "valid block") {
					return
				}
				again := &offer{cand: v}
				again.try(rt, w, "same block again")
				if i == 0 {
					v, _ = w.Valid(rt, rapid.IntRange(0, txs).Draw(rt, "txs"), big)
				}
			}
		})
}

// TestVerifC24Many is about blocks with many transactions.
func TestVerifC24Many(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 60, Thorough: 800,
		Rule: "next blocks inside a checkpoint zone with 20 to 200 transactions: refused with two hashes swapped, one changed, missing, doubled or too many, a transaction missing, cut, extended or changed in one bit, at an evenly drawn place, then accepted as they are; non-trivial: at least 30 transactions"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: uint32(1 + kit.Even(rt, 2000, "top")), Zone: true})
			v, shares := w.Valid(rt, 20+kit.Even(rt, 180, "txs"), false)
			if d, ok := w.Difficulty(); !ok || d == 0 || len(v.Txs) == 0 {
				rt.Skip("difficulty outside the definition")
			}
			w.Check(rt, "at first")
			kinds := []string{"missing hash", "missing tx", "wrong hash", "swapped", "cut tx", "long tx", "extra hash", "wrong hash", "swapped"}
			for i := 0; i < 5; i++ {
				kind := kinds[kit.Even(rt, len(kinds), "break")]
				o := violate(rt, w, v, shares, kind)
				if o == nil {
					continue
				}
				c.Label(kind)
				o.try(rt, w, kind)
			}
			if len(v.Txs) >= 30 {
				c.Hit(v.B.Bytes())
			}
			c.Sample("block %d with %d transactions", w.Top+1, len(v.Txs))
			(&offer{cand: v, valid: true}).try(rt, w, "valid block")
		})
}

func TestVerifC24Checkpoint(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 5000,
		Rule: "valid next blocks with checkpoints on their own, lower and higher heights: accepted exactly when no checkpoint at the height names another hash; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			w := chaingen.New(rt, chaingen.Options{Top: chaingen.DrawTop(rt)})
			v, _ := w.Valid(rt, 0, false)
			if d, ok := w.Difficulty(); !ok || d == 0 {
				rt.Skip("difficulty")
			}
			h := w.Top + 1
			right := [32]byte(v.B.Hash())
			wrong := right
			if rapid.Bool().Draw(rt, "bit") {
				wrong[rapid.IntRange(0, 31).Draw(rt, "pos")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bitNo"))
			} else {
				wrong = kit.Arr32(rt, "wrong")
			}
			other := w.Recs[w.Top].Hash
			pinned := rapid.SampledFrom([]string{"right", "right", "wrong", "wrong", "none"}).Draw(rt, "pinned")
			add := []func(){func() {
				if h > 1 && rapid.Bool().Draw(rt, "below") {
					w.Checkpoint(rt, h-1, kit.Arr32(rt, "belowHash"))
				}
			}, func() {
				if rapid.Bool().Draw(rt, "above") {
					w.Checkpoint(rt, h+uint32(rapid.IntRange(1, 3).Draw(rt, "aboveBy")), right)
				}
			}, func() {
				switch pinned {
				case "right":
					w.Checkpoint(rt, h, right)
				case "wrong":
					w.Checkpoint(rt, h, wrong)
				}
			}, func() {
				if rapid.IntRange(0, 2).Draw(rt, "far") == 0 {
					w.Checkpoint(rt, h+1000, other)
				}
			}}
			for _, i := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(rt, "order") {
				add[i]()
			}
			o := &offer{cand: v, valid: pinned != "wrong" || wrong == right}
			c.Label(pinned)
			c.Hit(v.B.Bytes(), pinned)
			c.Sample("block %d, checkpoint %s", h, pinned)
			o.try(rt, w, "checkpoint: "+pinned)
		})
}
