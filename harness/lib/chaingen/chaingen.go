//go:build go1.23

// Package chaingen makes block chains at any height, valid successors of their top and a model of the rules they obey.
package chaingen

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"sort"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
	log "github.com/sirupsen/logrus"
)

// Logger that discards.
func Logger() *log.Logger {
	l := log.New()
	l.Out = io.Discard
	l.Level = log.PanicLevel
	return l
}

// Rec is what the model knows about a block.
type Rec struct {
	Hash                   [32]byte
	Time, Size, Cum, Coins uint64
}

// World is a chain and its model.
type World struct {
	Net   *config.Network
	Low   bool
	BC    *cryptonote.BlockChain
	Store cryptonote.Storage
	Recs  map[uint32]*Rec
	Top   uint32
	Zone  uint32 // the highest checkpoint
}

type key struct {
	sec *big.Int
	pub [32]byte
}

var keys []key

// Key is the n-th of a few key pairs.
func Key(n int) (sec *big.Int, pub [32]byte) {
	if keys == nil {
		for i := 0; i < 12; i++ {
			s := ref.ScalarOf(kit.Expand(uint64(1000+i), 32))
			keys = append(keys, key{s, ref.MulBase(s).Encode()})
		}
	}
	k := keys[n%len(keys)]
	return k.sec, k.pub
}

func drawKey(rt *rapid.T) [32]byte {
	_, p := Key(rapid.IntRange(0, 11).Draw(rt, "key"))
	return p
}

// BadKey draws 32 bytes that are no point.
func BadKey(rt *rapid.T) [32]byte {
	for n := rapid.Uint64().Draw(rt, "badKey"); ; n++ {
		b := [32]byte(kit.Expand(n, 32))
		if _, ok := ref.Decode(b); !ok {
			return b
		}
	}
}

// Options of a world.
type Options struct {
	Top  uint32
	Zone bool // put a checkpoint far ahead

	Wrap func(cryptonote.Storage) cryptonote.Storage // stands between chain and storage
}

// Faulty is a storage with hooks, which are set before use.
type Faulty struct {
	cryptonote.Storage
	Before func(*cryptonote.Block) error // an error keeps the block from being stored
	After  func(*cryptonote.Block)
	Lookup func(uint32) error // an error instead of the hash at an index
}

// HashAtIndex unless refused.
func (f *Faulty) HashAtIndex(i uint32) (*crypto.Hash, error) {
	if f.Lookup != nil {
		if err := f.Lookup(i); err != nil {
			return nil, err
		}
	}
	return f.Storage.HashAtIndex(i)
}

// pushing has the PushBlock method of a storage, one of whose types cannot be named here.
type pushing[T any] struct {
	*Faulty
	push func(cryptonote.Storage, *cryptonote.Block, T, cryptonote.TransactionsDetails) error
}

// PushBlock unless refused.
func (p *pushing[T]) PushBlock(b *cryptonote.Block, info T, d cryptonote.TransactionsDetails) error {
	if p.Before != nil {
		if err := p.Before(b); err != nil {
			return err
		}
	}
	err := p.push(p.Storage, b, info, d)
	if err == nil && p.After != nil {
		p.After(b)
	}
	return err
}

func hooked[T any](f *Faulty, push func(cryptonote.Storage, *cryptonote.Block, T, cryptonote.TransactionsDetails) error) cryptonote.Storage {
	s, ok := any(&pushing[T]{f, push}).(cryptonote.Storage)
	if !ok {
		panic("VERIF-INFRA storage cannot be wrapped")
	}
	return s
}

// Wrapper for the options of a world.
func (f *Faulty) Wrapper(s cryptonote.Storage) cryptonote.Storage {
	f.Storage = s
	return hooked(f, cryptonote.Storage.PushBlock)
}

// Heights at which rules change.
var Heights = []uint32{59, 60000, 216000, 216394, 266000, 300000, 500000, 667000, 700000}

// Plan is a copy of the model that can go ahead of the chain.
func (w *World) Plan() *World {
	p := *w
	p.Recs = map[uint32]*Rec{}
	for h, r := range w.Recs {
		p.Recs[h] = r
	}
	return &p
}

// DrawTop draws the height of the top block.
func DrawTop(rt *rapid.T) uint32 {
	switch kit.Even(rt, 10, "topKind") {
	case 0:
		return uint32(rapid.IntRange(0, 12).Draw(rt, "top"))
	case 1:
		return uint32(rapid.IntRange(13, 400).Draw(rt, "top"))
	case 2, 3, 4, 5:
		return Heights[kit.Even(rt, len(Heights), "top")] + uint32(rapid.IntRange(-4, 2).Draw(rt, "topDelta"))
	case 6:
		return 700000 + uint32(rapid.IntRange(0, 140).Draw(rt, "top"))
	case 7:
		return uint32(rapid.IntRange(700000, 1200000).Draw(rt, "top"))
	}
	h := uint32(rapid.IntRange(400, 700000).Draw(rt, "top"))
	if h <= 60001 && h%3 > 0 {
		h += 60000
	}
	return h
}

// SimpleParent is a small merge-mining parent.
func SimpleParent(t uint64) *ref.Parent {
	return &ref.Parent{Major: 1, Timestamp: t, TxCount: 1, Base: ref.Tx{Version: 1, In: []ref.In{{Gen: true}}, Extra: ref.MMTag(0, [32]byte{})}}
}

// Version of the block at a height.
func Version(h uint32) byte { return ref.BlockVersion(h) }

// New makes a world whose top is the block of the given height.
func New(rt *rapid.T, o Options) *World {
	w := &World{Low: rapid.Bool().Draw(rt, "testnet"), Recs: map[uint32]*Rec{}, Top: o.Top}
	w.Net = config.MainNet()
	if w.Low {
		w.Net = config.TestNet()
	}
	if kit.Even(rt, 4, "network") == 0 { // a network of its own
		_, key := Key(kit.Even(rt, 12, "genesisKey"))
		base := ref.Tx{Version: 1, Unlock: 10, In: []ref.In{{Gen: true}}, Out: []ref.Out{{Amount: 1 + kit.U64(rt, "genesisAmount")>>kit.Even(rt, 24, "genesisCoins")>>1, Key: key}},
			Extra: make([]byte, kit.Even(rt, 400, "genesisExtra"))}
		w.Net.GenesisCoinbaseTxHex = hex.EncodeToString(base.Bytes())
		w.Net.GenesisTimestamp = uint64(kit.Even(rt, 1_600_000_000, "genesisTime"))
		w.Net.GenesisNonce = kit.U32(rt, "genesisNonce")
	}
	w.Store = cryptonote.NewMemoryStorage()
	if o.Wrap != nil {
		w.Store = o.Wrap(w.Store)
	}
	w.BC = cryptonote.NewBlockChain(w.Net, w.Store, Logger())
	genesis, err := w.BC.GenesisBlock()
	if err != nil {
		rt.Fatalf("genesis: %v", err)
	}
	g := &Rec{Hash: *genesis.Hash(), Time: genesis.Timestamp, Size: genesis.BaseTransaction.Size(), Cum: 1, Coins: genesis.BaseTransaction.Outputs[0].Amount}
	w.Recs[0] = g

	window := uint32(130)
	if o.Top <= 60000+130 {
		window = 385
	}
	from := uint32(1)
	if o.Top > window {
		from = o.Top - window
	}
	rnd := stream(rapid.Uint64().Draw(rt, "seed"))
	times := rapid.SampledFrom([]string{"steady", "noisy", "out of order", "fast"}).Draw(rt, "times")
	sizes := rapid.SampledFrom([]string{"small", "small", "zone", "mixed"}).Draw(rt, "sizes")
	work := rapid.SampledFrom([]string{"constant", "drift", "drift", "edge"}).Draw(rt, "work")
	coins := rapid.SampledFrom([]string{"early", "any", "any", "late"}).Draw(rt, "coins")
	if o.Top == 0 {
		coins = "early"
	}
	last := *g
	last.Cum = 1 + uint64(o.Top)*2000
	if o.Top == 700000 || work == "constant" && o.Top > 699990 {
		last.Cum = 700000 * 100000 * 1100
	}
	if from == 1 {
		last.Cum = 1
	}
	last.Time = 1_600_000_000
	switch coins {
	case "early":
		last.Coins = uint64(o.Top) * 30_000_000_000_000 / 8
	case "any":
		last.Coins = rnd(9_000_000_000_000_000_000)
	case "late": // around the tail emission
		last.Coins = 9_737_856_000_000_000_000 + rnd(1_000_000_000_000)
		if rnd(2) == 0 {
			last.Coins = 10_000_000_000_000_000_000 - 262144_000_000_000_000 - 5_000_000_000_000 + rnd(10_000_000_000_000)
		}
	}
	base := 10_000 + rnd(1<<25)
	edge := ^uint64(0) / 240 / 239
	if ref.BlockVersion(o.Top) == 2 {
		edge = ^uint64(0) / 240 / 16
	}
	for h := from; h <= o.Top; h++ {
		r := &Rec{}
		switch times {
		case "steady":
			r.Time = last.Time + 240
		case "noisy":
			r.Time = last.Time + rnd(480)
		case "out of order":
			r.Time = last.Time + rnd(1200) - 500
		case "fast":
			r.Time = last.Time + rnd(30)
		}
		switch sizes {
		case "small":
			r.Size = 80 + rnd(20000)
		case "zone":
			r.Size = 100000 + rnd(60000)
			if h > 60000 {
				r.Size = 1000000 + rnd(20000)
			}
		case "mixed":
			r.Size = 80 + rnd(250000)
		}
		inc := base
		if work == "drift" {
			inc = base + base*rnd(100)/1000
		}
		if work == "edge" && ref.BlockVersion(o.Top) <= 2 && from > 1 {
			inc = edge
			if h == from {
				last.Cum = 1
			}
			if h+3 > o.Top {
				inc = edge + rnd(1<<20) - 1<<19
			}
		}
		r.Cum = last.Cum + inc
		r.Coins = last.Coins + ref.BaseReward(last.Coins)
		if rnd(8) == 0 {
			r.Coins -= rnd(1 << 20)
		}
		b := &ref.Block{Major: ref.BlockVersion(h), Timestamp: r.Time, Nonce: h, Base: ref.Tx{Version: 1, Unlock: uint64(h) + 10, In: []ref.In{{Gen: true, Height: h}}, Out: []ref.Out{{Amount: 1, Key: keys0()}}}}
		if p := w.Recs[h-1]; p != nil {
			b.Prev = p.Hash
		} else {
			b.Prev = [32]byte{1, byte(h), byte(h >> 8)}
		}
		if b.Major == 2 || b.Major == 3 {
			b.Parent = SimpleParent(r.Time)
		}
		blk := cngen.BlockOf(b)
		info := cryptonote.NewBlockInfo(h, r.Coins)
		info.Hash, info.CumulativeDifficulty, info.Timestamp, info.Size, info.TotalGeneratedTransactions = *blk.Hash(), r.Cum, r.Time, r.Size, uint64(h)
		r.Hash = info.Hash
		if err := w.Store.PushBlock(blk, info, cryptonote.TransactionsDetails{}); err != nil {
			rt.Fatalf("block %d not stored: %v", h, err)
		}
		w.Recs[h] = r
		last = *r
	}
	if err := w.BC.Init(); err != nil {
		rt.Fatalf("chain not initialised: %v", err)
	}
	if o.Zone {
		w.Checkpoint(rt, o.Top+100000, [32]byte{7})
	}
	return w
}

func keys0() [32]byte { _, p := Key(0); return p }

// Checkpoint pins a height.
func (w *World) Checkpoint(rt *rapid.T, h uint32, hash [32]byte) {
	if err := w.BC.Checkpoints.AddCheckpoint(h, hash); err != nil {
		rt.Fatalf("checkpoint: %v", err)
	}
	if h > w.Zone {
		w.Zone = h
	}
}

func stream(seed uint64) func(uint64) uint64 {
	s := kit.NewStream(seed)
	return func(n uint64) uint64 {
		var b [8]byte
		s.Read(b[:])
		v := uint64(0)
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return v % n
	}
}

func median(l []uint64) uint64 {
	l = append([]uint64{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	n := len(l)
	if n%2 == 1 {
		return l[n/2]
	}
	return (l[n/2-1] + l[n/2]) / 2
}

// last n records up to height top, oldest first.
func (w *World) last(top uint32, n int, genesis bool) (l []*Rec) {
	for h := int64(top); h >= 0 && len(l) < n; h-- {
		if h == 0 && !genesis {
			break
		}
		l = append([]*Rec{w.Recs[uint32(h)]}, l...)
	}
	return
}

// Earliest time of a block after the top; false when there is no limit yet.
func (w *World) Earliest() (uint64, bool) {
	n := 60
	if Version(w.Top+1) >= 4 {
		n = 11
	}
	l := w.last(w.Top, n, true)
	if len(l) < n {
		return 0, false
	}
	var ts []uint64
	for _, r := range l {
		ts = append(ts, r.Time)
	}
	return median(ts), true
}

// SizeMedian of the blocks before the next.
func (w *World) SizeMedian() uint64 {
	var l []uint64
	for _, r := range w.last(w.Top, 100, true) {
		l = append(l, r.Size)
	}
	return median(l)
}

// Difficulty of the next block.
func (w *World) Difficulty() (uint64, bool) {
	v := Version(w.Top)
	var ts, cd []uint64
	for _, r := range w.last(w.Top, ref.DifficultyWindow(v), false) {
		ts, cd = append(ts, r.Time), append(cd, r.Cum)
	}
	d, _, ok := ref.Difficulty(w.Top, v, w.Low, ts, cd)
	return d, ok
}

// Cand is a candidate for the next block.
type Cand struct {
	B      *ref.Block
	Txs    [][]byte
	Fee    uint64
	Sec    *big.Int // of the first output
	Signed []byte   // what a version 5 signature is made of; nil: the block
}

// Size of the block with its transactions.
func (c *Cand) Size() uint64 {
	n := uint64(len(c.B.Base.Bytes()))
	for _, t := range c.Txs {
		n += uint64(len(t))
	}
	return n
}

// Reward of the candidate.
func (w *World) Reward(c *Cand, version byte) (reward, emission uint64, ok bool) {
	coins := w.Recs[w.Top].Coins
	reward, emission, ok = ref.Reward(version, w.SizeMedian(), c.Size(), coins, c.Fee)
	if int64(emission) < 0 && coins < -emission {
		ok = false // fees of more coins than there are
	}
	return
}

// Pay spreads the amount on the outputs of the coinbase: all but the last get what shares say.
func (c *Cand) Pay(amount uint64, shares []uint64) {
	out := c.B.Base.Out
	if amount == 0 {
		c.B.Base.Out = nil
		return
	}
	for i := range out[:len(out)-1] {
		s := shares[i%len(shares)]
		left := uint64(len(out) - 1 - i)
		if amount <= left {
			c.B.Base.Out = out[:i+1]
			break
		}
		if s > amount-left {
			s = amount - left
		}
		out[i].Amount = s
		amount -= s
	}
	c.B.Base.Out[len(c.B.Base.Out)-1].Amount = amount
}

// Settle pays the exact reward; false when the size of the payment never fits.
func (w *World) Settle(c *Cand, version byte, shares []uint64) bool {
	for i := 0; i < 12; i++ {
		r, _, ok := w.Reward(c, version)
		if !ok {
			return false
		}
		sum := uint64(0)
		for _, o := range c.B.Base.Out {
			sum += o.Amount
		}
		if sum == r {
			return true
		}
		if len(c.B.Base.Out) == 0 {
			return false
		}
		c.Pay(r, shares)
	}
	return false
}

// Sign makes the version 5 signature.
func (c *Cand) Sign() {
	if c.B.Major < 5 {
		return
	}
	data := c.Signed
	if data == nil {
		data = c.B.HashingBytes()
	}
	c.B.Sig = Schnorr(c.Sec, ref.Keccak256(data), uint64(len(data))+c.B.Timestamp)
}

// Schnorr signature of a hash.
func Schnorr(sec *big.Int, hash [32]byte, seed uint64) (sig [64]byte) {
	k := ref.ScalarOf(kit.Expand(seed, 32))
	pub, comm := ref.MulBase(sec).Encode(), ref.MulBase(k).Encode()
	h := ref.Hash(hash[:], pub[:], comm[:])
	c := ref.ScalarOf(h[:])
	r := new(big.Int).Mul(c, sec)
	r.Sub(k, r)
	r.Mod(r, ref.L)
	cb, rb := ref.ToLE(c), ref.ToLE(r)
	copy(sig[:32], cb[:])
	copy(sig[32:], rb[:])
	return
}

// Block as a node receives it.
func (c *Cand) Block() (*cryptonote.Block, error) {
	b := &cryptonote.Block{}
	r := bytes.NewReader(c.B.Bytes())
	if err := b.Deserialize(r); err != nil {
		return nil, err
	}
	if r.Len() != 0 {
		return nil, fmt.Errorf("%d bytes left", r.Len())
	}
	return b, nil
}

// Raw transactions, copied.
func (c *Cand) Raw() [][]byte {
	var l [][]byte
	for _, t := range c.Txs {
		l = append(l, append([]byte{}, t...))
	}
	return l
}

// Clone copies deeply.
func (c *Cand) Clone() *Cand {
	b := *c.B
	b.Txs = append([][32]byte{}, c.B.Txs...)
	b.Base.In = append([]ref.In{}, c.B.Base.In...)
	b.Base.Out = append([]ref.Out{}, c.B.Base.Out...)
	b.Base.Extra = append([]byte{}, c.B.Base.Extra...)
	if b.Parent != nil {
		p := *b.Parent
		p.Base.Extra = append([]byte{}, p.Base.Extra...)
		b.Parent = &p
	}
	return &Cand{B: &b, Txs: append([][]byte{}, c.Txs...), Fee: c.Fee, Sec: c.Sec, Signed: c.Signed}
}

// ParentSize is what the limit of 2048 bytes counts.
func ParentSize(p *ref.Parent) int { e := ref.NewEnc(); e.Parent(p); return len(e.B) }

// PadParent makes a parent n bytes long.
func PadParent(p *ref.Parent, n int) {
	p.Branch, p.Chain, p.TxCount = nil, nil, 1
	p.Base.Extra = ref.MMTag(0, [32]byte{3})
	for i := 0; i < 4 && ParentSize(p) != n; i++ {
		have := ParentSize(p) - (len(p.Base.Extra) - len(ref.MMTag(0, [32]byte{})))
		pad := n - have
		if pad > 130 {
			pad--
		}
		// nonce fields, so that it stays well-formed
		e := ref.MMTag(0, [32]byte{3})
		for pad > 0 {
			switch {
			case pad >= 140:
				e = append(append(e, 2, 127), make([]byte, 127)...)
				pad -= 129
			case pad >= 131:
				e = append(append(e, 2, 60), make([]byte, 60)...)
				pad -= 62
			case pad >= 3:
				e = append(append(e, 2, byte(pad-2)), make([]byte, pad-2)...)
				pad = 0
			default:
				e = append(e, make([]byte, pad)...)
				pad = 0
			}
		}
		p.Base.Extra = e
	}
}

// Valid draws a block that the chain must accept next.
// With txs, as many transactions (only in the checkpoint zone); with big, it may exceed the full reward zone.
func (w *World) Valid(rt *rapid.T, txs int, big bool) (*Cand, []uint64) {
	h := w.Top + 1
	v := Version(h)
	c := &Cand{B: &ref.Block{Major: v, Minor: byte(rapid.IntRange(0, 2).Draw(rt, "minor")), Prev: w.Recs[w.Top].Hash, Nonce: kit.U32(rt, "nonce")}}
	lo, _ := w.Earliest()
	switch rapid.IntRange(0, 3).Draw(rt, "timeKind") {
	case 0:
		c.B.Timestamp = lo
	case 1:
		c.B.Timestamp = lo + rapid.Uint64Range(0, 3).Draw(rt, "time")
	default:
		c.B.Timestamp = lo + rapid.Uint64Range(0, 10000).Draw(rt, "time")
	}
	if now := w.Net.Timestamp(); c.B.Timestamp > now {
		if c.B.Timestamp = lo; lo > now {
			rt.Skip("the chain runs ahead of the clock")
		}
	}
	if v == 2 || v == 3 {
		p := cngen.Parent(rt)
		if ParentSize(p) > 2048 {
			p = SimpleParent(0)
			if rapid.Bool().Draw(rt, "fullParent") {
				PadParent(p, 2048)
			}
		}
		if v == 2 {
			p.Major &= 1
		}
		p.Timestamp, p.Nonce = c.B.Timestamp, c.B.Nonce
		if ParentSize(p) > 2048 {
			p.Base.Extra = ref.MMTag(0, [32]byte{})
			p.Chain, p.Branch, p.TxCount = nil, nil, 0
		}
		c.B.Parent = p
	}
	spent := map[[32]byte]bool{}
	for i := 0; i < txs; i++ {
		t := ValidTx(rt, h, i)
		fee, why := ref.TxRules(h, t, spent)
		if why != "" {
			rt.Fatalf("VERIF-INFRA generated transaction: %s", why)
		}
		c.Fee += fee
		c.Txs = append(c.Txs, t.Bytes())
		c.B.Txs = append(c.B.Txs, t.Hash())
	}
	k := rapid.IntRange(0, 11).Draw(rt, "miner")
	var pub [32]byte
	c.Sec, pub = Key(k)
	base := &c.B.Base
	*base = ref.Tx{Version: 1, Unlock: uint64(h) + 10, In: []ref.In{{Gen: true, Height: h}}, Out: []ref.Out{{Key: pub}}}
	if v < 5 {
		for n := rapid.IntRange(0, 5).Draw(rt, "outputs"); n > 0; n-- {
			base.Out = append(base.Out, ref.Out{Key: drawKey(rt)})
		}
		if kit.Even(rt, 12, "manyOutputs") == 0 {
			for _, k := range kit.Expand(rapid.Uint64().Draw(rt, "outputKeys"), 10+kit.Even(rt, 300, "moreOutputs")) {
				_, pub := Key(int(k) % 12)
				base.Out = append(base.Out, ref.Out{Key: pub})
			}
		}
	}
	switch rapid.IntRange(0, 3).Draw(rt, "extraKind") {
	case 0:
	case 1:
		base.Extra = append([]byte{1}, pub[:]...)
	default:
		n := rapid.IntRange(1, 100).Draw(rt, "nonceLen")
		base.Extra = append(append([]byte{1}, pub[:]...), 2, byte(n))
		base.Extra = append(base.Extra, kit.Expand(rapid.Uint64().Draw(rt, "extraNonce"), n)...)
	}
	if v < 5 && rapid.IntRange(0, 5).Draw(rt, "rawExtra") == 0 {
		n := rapid.IntRange(0, 1024).Draw(rt, "rawExtraLen")
		if h < 500000 && n%4 == 0 {
			n += 1024
		}
		base.Extra = kit.Blob(rt, n, "rawExtraBytes")
	}
	if h >= 500000 && v < 5 && rapid.IntRange(0, 7).Draw(rt, "fullExtra") == 0 {
		base.Extra = kit.Blob(rt, 1024, "fullExtraBytes")
	}
	if big {
		w.grow(rt, c)
	}
	shares := rapid.SliceOfN(rapid.Uint64Range(1, 1<<38), 8, 8).Draw(rt, "shares")
	for i := 0; ; i++ {
		if w.Settle(c, v, shares) {
			break
		}
		if i == 40 || v == 5 && len(base.Out) == 0 {
			rt.Skip("no payment fits")
		}
		if len(base.Out) == 0 {
			base.Out = []ref.Out{{Key: pub}}
		}
		if len(c.Txs) > 0 || h >= 500000 {
			rt.Skip("no payment fits")
		}
		base.Extra = append(base.Extra, 0)
	}
	c.Sign()
	return c, shares
}

// grow makes the block exceed the full reward zone by its extra.
func (w *World) grow(rt *rapid.T, c *Cand) {
	h := w.Top + 1
	zone := ref.RewardMedian(c.B.Major, w.SizeMedian())
	max := 2 * zone
	if m := ref.MaxBlockSize(h); m < max {
		max = m
	}
	lo := zone - 50
	if lo > max-2000 {
		lo = max - 2000
	}
	var n uint64
	switch rapid.IntRange(0, 4).Draw(rt, "bigKind") {
	case 0:
		n = zone + rapid.Uint64Range(0, 100).Draw(rt, "big")
	case 1:
		n = max - rapid.Uint64Range(0, 1000).Draw(rt, "big")
	default:
		n = rapid.Uint64Range(lo, max).Draw(rt, "big")
	}
	have := c.Size() + 60
	if n <= have {
		return
	}
	if h < 500000 && (len(c.Txs) == 0 || n&1 == 0) {
		c.B.Base.Extra = append(c.B.Base.Extra, make([]byte, n-have)...)
		return
	}
	if w.Zone <= h {
		return
	}
	// by transactions
	for i := 0; have < n; i++ {
		k := n - have
		if k > 240000 {
			k = 240000
		}
		t := ValidTx(rt, h, 50+i)
		old := ref.MinFee(h, len(t.Extra))
		t.Extra = append(t.Extra, make([]byte, k)...)
		t.In[0].Amount += ref.MinFee(h, len(t.Extra)) - old
		fee, why := ref.TxRules(h, t, map[[32]byte]bool{})
		if why != "" {
			rt.Fatalf("VERIF-INFRA large transaction: %s", why)
		}
		c.Fee += fee
		c.Txs = append(c.Txs, t.Bytes())
		c.B.Txs = append(c.B.Txs, t.Hash())
		have = c.Size() + 60
	}
	for len(c.Txs) > 0 && c.Size()+200 > max {
		rt.Skip("too large")
	}
}

// Accept notes the candidate as the new top; false when its difficulty is outside the definition.
func (w *World) Accept(c *Cand) bool {
	d, ok := w.Difficulty()
	_, em, _ := w.Reward(c, c.B.Major)
	p := w.Recs[w.Top]
	w.Top++
	w.Recs[w.Top] = &Rec{Hash: c.B.Hash(), Time: c.B.Timestamp, Size: c.Size(), Cum: p.Cum + d, Coins: p.Coins + em}
	return ok
}

// ValidTx draws a transaction that a block at the height can hold; its key images differ from those of another number.
func ValidTx(rt *rapid.T, h uint32, number int) *ref.Tx {
	t := &ref.Tx{Version: 1, Unlock: rapid.SampledFrom([]uint64{0, 0, 5, 1 << 40}).Draw(rt, "txUnlock")}
	t.Extra = kit.Bytes(rt, 130, "txExtra")
	ins := rapid.IntRange(1, 4).Draw(rt, "txInputs")
	for i := 0; i < ins; i++ {
		t.In = append(t.In, DrawInput(rt, uint32(number<<8+i)))
	}
	outs := rapid.IntRange(1, 4).Draw(rt, "txOutputs")
	total := uint64(0)
	for i := 0; i < outs; i++ {
		a := rapid.Uint64Range(1, 9).Draw(rt, "digit")
		for e := rapid.IntRange(0, 15).Draw(rt, "exp"); e > 0; e-- {
			a *= 10
		}
		if h < 700000 && rapid.Bool().Draw(rt, "ugly") {
			a += rapid.Uint64Range(0, 1000).Draw(rt, "more")
		}
		t.Out = append(t.Out, ref.Out{Amount: a, Key: drawKey(rt)})
		total += a
	}
	fee := ref.MinFee(h, len(t.Extra))
	if rapid.Bool().Draw(rt, "moreFee") {
		fee += rapid.Uint64Range(0, 1<<40).Draw(rt, "fee")
	}
	total += fee
	SpreadIn(rt, t, total)
	Ringed(rt, t)
	return t
}

// SpreadIn gives the inputs amounts with the given sum.
func SpreadIn(rt *rapid.T, t *ref.Tx, total uint64) {
	for i := range t.In {
		if i == len(t.In)-1 {
			t.In[i].Amount = total
			break
		}
		a := rapid.Uint64Range(0, total).Draw(rt, "inAmount")
		t.In[i].Amount = a
		total -= a
	}
}

// DrawInput draws an input with the key image of a number and a small ring.
func DrawInput(rt *rapid.T, number uint32) ref.In {
	in := ref.In{}
	copy(in.Image[:], kit.Expand(rapid.Uint64().Draw(rt, "image"), 32))
	binary.LittleEndian.PutUint32(in.Image[20:], number)
	max := 4
	if rapid.IntRange(0, 9).Draw(rt, "wideRing") == 0 {
		max = 20
	}
	for n := rapid.IntRange(1, max).Draw(rt, "ringSize"); n > 0; n-- {
		in.Offsets = append(in.Offsets, uint32(rapid.IntRange(1, 1000).Draw(rt, "offset")))
	}
	if rapid.IntRange(0, 3).Draw(rt, "zeroFirst") == 0 {
		in.Offsets[0] = 0
	}
	return in
}

// Ringed gives every ring member a signature.
func Ringed(rt *rapid.T, t *ref.Tx) {
	t.Sigs = nil
	seed := rapid.Uint64().Draw(rt, "sigSeed")
	for i, in := range t.In {
		b := kit.Expand(seed+uint64(i), 64*len(in.Offsets))
		var l [][64]byte
		for j := range in.Offsets {
			l = append(l, [64]byte(b[64*j:64*j+64]))
		}
		t.Sigs = append(t.Sigs, l)
	}
}

// Seen is what the outside sees of a chain.
type Seen struct {
	Top    crypto.Hash
	Height uint32
	Next   bool
	Sparse string
}

// Look at the chain.
func (w *World) Look(rt *rapid.T) (s Seen) {
	t := w.BC.TopBlock()
	if t == nil {
		rt.Fatalf("no top block")
	}
	s.Top, s.Height = *t.Hash(), w.BC.Height()
	h, err := w.Store.HashAtIndex(w.Top + 1)
	s.Next = h != nil
	if err != nil {
		rt.Fatalf("HashAtIndex(%d): %v", w.Top+1, err)
	}
	return
}

// Check compares the chain with the model.
func (w *World) Check(rt *rapid.T, when string) {
	s := w.Look(rt)
	if s.Top != crypto.Hash(w.Recs[w.Top].Hash) || s.Height != w.Top+1 || s.Next {
		rt.Fatalf("%s: top %v, height %d, further block %v; expected top %x and height %d", when, s.Top, s.Height, s.Next, w.Recs[w.Top].Hash, w.Top+1)
	}
	hash := crypto.Hash(w.Recs[w.Top].Hash)
	if !w.BC.HaveBlock(&hash) {
		rt.Fatalf("%s: top block is not in the chain", when)
	}
	at, err := w.Store.HashAtIndex(w.Top)
	if err != nil || at == nil || *at != hash {
		rt.Fatalf("%s: block %d is %v %v, expected %v", when, w.Top, at, err, hash)
	}
	top, err := w.Store.TopBlock()
	if err != nil || top == nil || *top.Hash() != hash {
		rt.Fatalf("%s: storage has another top", when)
	}
	if i, err := w.Store.TopIndex(); err != nil || i != w.Top {
		rt.Fatalf("%s: storage has top %d %v, expected %d", when, i, err, w.Top)
	}
}

// Add offers the candidate to the chain.
func (w *World) Add(rt *rapid.T, c *Cand) error {
	b, err := c.Block()
	if err != nil {
		rt.Fatalf("block does not decode: %v", err)
	}
	return w.Offer(rt, b, c.Raw())
}

// Offer a block.
func (w *World) Offer(rt *rapid.T, b *cryptonote.Block, raw [][]byte) (err error) {
	kit.Within(kit.Patience, "AddBlock", func() {
		kit.NoPanic(rt, "AddBlock", func() { err = w.BC.AddBlock(b, raw) })
	})
	return
}

// Restart makes a chain over a new storage filled with the model's blocks.
func (w *World) Restart(rt *rapid.T) *World {
	n := w.Plan()
	n.Store = cryptonote.NewMemoryStorage()
	var hs []uint32
	for h := range w.Recs {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	for _, h := range hs {
		if h == 0 {
			continue
		}
		r := w.Recs[h]
		x := crypto.Hash(r.Hash)
		b := w.Store.GetBlock(&x)
		if b == nil {
			rt.Fatalf("block %d is not in the storage", h)
		}
		info := cryptonote.NewBlockInfo(h, r.Coins)
		info.Hash, info.CumulativeDifficulty, info.Timestamp, info.Size, info.TotalGeneratedTransactions = x, r.Cum, r.Time, r.Size, uint64(h)
		if err := n.Store.PushBlock(b, info, cryptonote.TransactionsDetails{}); err != nil {
			rt.Fatalf("block %d not stored: %v", h, err)
		}
	}
	n.BC = cryptonote.NewBlockChain(w.Net, n.Store, Logger())
	if err := n.BC.Init(); err != nil {
		rt.Fatalf("chain not initialised: %v", err)
	}
	return n
}
