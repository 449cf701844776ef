//go:build go1.23

// Package cngen generates transactions and blocks of the CryptoNote format and converts them to and from go-karbo's.
package cngen

import (
	"fmt"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// TxOf converts to go-karbo's transaction.
func TxOf(t *ref.Tx) *cryptonote.Transaction {
	r := &cryptonote.Transaction{TransactionPrefix: *prefixOf(t)}
	for _, s := range t.Sigs {
		l := []crypto.Signature{}
		for _, g := range s {
			var sig crypto.Signature
			copy(sig.C[:], g[:32])
			copy(sig.R[:], g[32:])
			l = append(l, sig)
		}
		r.TransactionSignatures = append(r.TransactionSignatures, l)
	}
	return r
}

func prefixOf(t *ref.Tx) *cryptonote.TransactionPrefix {
	p := &cryptonote.TransactionPrefix{Version: byte(t.Version), UnlockHeight: t.Unlock, Extra: append([]byte{}, t.Extra...)}
	for _, i := range t.In {
		if i.Gen {
			p.Inputs = append(p.Inputs, cryptonote.InputCoinbase{BlockIndex: i.Height})
		} else {
			p.Inputs = append(p.Inputs, cryptonote.InputKey{Amount: i.Amount, OutputIndexes: append([]uint32(nil), i.Offsets...), KeyImage: crypto.KeyImage(i.Image)})
		}
	}
	for _, o := range t.Out {
		p.Outputs = append(p.Outputs, cryptonote.TransactionOutput{Amount: o.Amount, Target: cryptonote.OutputKey{PublicKey: crypto.PublicKey(o.Key)}})
	}
	return p
}

func refPrefix(p *cryptonote.TransactionPrefix) (*ref.Tx, error) {
	t := &ref.Tx{Version: uint64(p.Version), Unlock: p.UnlockHeight, Extra: append([]byte{}, p.Extra...)}
	for _, i := range p.Inputs {
		switch v := i.(type) {
		case cryptonote.InputCoinbase:
			t.In = append(t.In, ref.In{Gen: true, Height: v.BlockIndex})
		case cryptonote.InputKey:
			t.In = append(t.In, ref.In{Amount: v.Amount, Offsets: append([]uint32(nil), v.OutputIndexes...), Image: v.KeyImage})
		default:
			return nil, fmt.Errorf("input %T", i)
		}
	}
	for _, o := range p.Outputs {
		k, ok := o.Target.(cryptonote.OutputKey)
		if !ok {
			return nil, fmt.Errorf("output %T", o.Target)
		}
		t.Out = append(t.Out, ref.Out{Amount: o.Amount, Key: k.PublicKey})
	}
	return t, nil
}

// RefTx converts from go-karbo's transaction.
func RefTx(x *cryptonote.Transaction) (*ref.Tx, error) {
	t, err := refPrefix(&x.TransactionPrefix)
	if err != nil {
		return nil, err
	}
	for _, s := range x.TransactionSignatures {
		var l [][64]byte
		for _, sig := range s {
			var g [64]byte
			copy(g[:32], sig.C[:])
			copy(g[32:], sig.R[:])
			l = append(l, g)
		}
		t.Sigs = append(t.Sigs, l)
	}
	return t, nil
}

func hashes(l [][32]byte) (r []crypto.Hash) {
	for _, h := range l {
		r = append(r, crypto.Hash(h))
	}
	return
}

func unhashes(l []crypto.Hash) (r [][32]byte) {
	for _, h := range l {
		r = append(r, [32]byte(h))
	}
	return
}

// BlockOf converts to go-karbo's block.
func BlockOf(b *ref.Block) *cryptonote.Block {
	r := &cryptonote.Block{}
	r.MajorVersion, r.MinorVersion, r.Timestamp, r.Nonce = b.Major, b.Minor, b.Timestamp, b.Nonce
	r.PreviousBlockHash = b.Prev
	r.BaseTransaction = *TxOf(&b.Base)
	r.TransactionsHashes = hashes(b.Txs)
	if p := b.Parent; p != nil {
		r.Parent = &cryptonote.ParentBlock{
			MajorVersion: p.Major, MinorVersion: p.Minor, Timestamp: p.Timestamp, Nonce: p.Nonce, Prev: p.Prev,
			TransactionsCount: p.TxCount, BaseTransactionBranch: hashes(p.Branch), BlockchainBranch: hashes(p.Chain),
			BaseTransaction: cryptonote.BaseTransaction{TransactionPrefix: prefixOf(&p.Base)},
		}
	}
	if b.Major >= 5 {
		r.Signature = &crypto.Signature{}
		copy(r.Signature.C[:], b.Sig[:32])
		copy(r.Signature.R[:], b.Sig[32:])
	}
	return r
}

// RefBlock converts from go-karbo's block.
func RefBlock(x *cryptonote.Block) (*ref.Block, error) {
	base, err := RefTx(&x.BaseTransaction)
	if err != nil {
		return nil, err
	}
	b := &ref.Block{Major: x.MajorVersion, Minor: x.MinorVersion, Timestamp: x.Timestamp, Prev: x.PreviousBlockHash, Nonce: x.Nonce, Base: *base, Txs: unhashes(x.TransactionsHashes)}
	if p := x.Parent; p != nil {
		pb, err := refPrefix(p.BaseTransaction.TransactionPrefix)
		if err != nil {
			return nil, err
		}
		b.Parent = &ref.Parent{Major: p.MajorVersion, Minor: p.MinorVersion, Timestamp: p.Timestamp, Prev: p.Prev, Nonce: p.Nonce,
			TxCount: p.TransactionsCount, Branch: unhashes(p.BaseTransactionBranch), Base: *pb, Chain: unhashes(p.BlockchainBranch)}
	}
	if x.Signature != nil {
		copy(b.Sig[:32], x.Signature.C[:])
		copy(b.Sig[32:], x.Signature.R[:])
	}
	return b, nil
}

func count(rt *rapid.T, name string, small, rare int) int {
	switch rapid.IntRange(0, 30).Draw(rt, name+"Kind") {
	case 0:
		return rapid.IntRange(0, rare).Draw(rt, name)
	case 1:
		if rare >= 130 {
			return rapid.IntRange(126, 130).Draw(rt, name) // the varint grows
		}
	}
	return rapid.IntRange(0, small).Draw(rt, name)
}

func version(rt *rapid.T) uint64 {
	if rapid.IntRange(0, 4).Draw(rt, "versionKind") == 0 {
		return uint64(rapid.Byte().Draw(rt, "version"))
	}
	return 1
}

// Prefix draws an unsigned transaction without extra.
func Prefix(rt *rapid.T) *ref.Tx {
	t := &ref.Tx{Version: version(rt), Unlock: kit.U64(rt, "unlock")}
	for n := count(rt, "inputs", 4, 20); n > 0; n-- {
		if rapid.IntRange(0, 4).Draw(rt, "inputKind") == 0 {
			t.In = append(t.In, ref.In{Gen: true, Height: kit.U32(rt, "height")})
			continue
		}
		in := ref.In{Amount: kit.U64(rt, "amount"), Image: kit.Arr32(rt, "image")}
		for k := count(rt, "ring", 4, 140); k > 0; k-- {
			in.Offsets = append(in.Offsets, kit.U32(rt, "offset"))
		}
		t.In = append(t.In, in)
	}
	for n := count(rt, "outputs", 5, 140); n > 0; n-- {
		t.Out = append(t.Out, ref.Out{Amount: kit.U64(rt, "amount"), Key: kit.Arr32(rt, "key")})
	}
	return t
}

// huge adds many inputs, ring members or outputs: counts around the powers of two to 16384 (rarely beyond) and to some thousands.
func huge(rt *rapid.T, t *ref.Tx) {
	n := kit.Even(rt, 4000, "many")
	if rapid.Bool().Draw(rt, "power") {
		n = 1 << (7 + kit.Even(rt, 6, "shift"))
		switch kit.Even(rt, 15, "largest") {
		case 0:
			n = 1 << 16
		case 1, 2, 3:
			n = 1 << 14
		}
		n += kit.Even(rt, 5, "delta") - 2
	}
	b := kit.Expand(rapid.Uint64().Draw(rt, "manySeed"), 40*n)
	at := func(i int) (k [32]byte, v uint64) {
		copy(k[:], b[40*i:])
		for j := 0; j < 8; j++ {
			v |= uint64(b[40*i+32+j]) << (8 * j)
		}
		return k, v >> (v % 64)
	}
	switch kit.Even(rt, 3, "manyOf") {
	case 0:
		for i := 0; i < n; i++ {
			k, v := at(i)
			t.In = append(t.In, ref.In{Amount: v, Image: k, Offsets: []uint32{uint32(v)}[:v&1]})
		}
	case 1:
		in := ref.In{Amount: uint64(n), Image: [32]byte{1}}
		for i := 0; i < n; i++ {
			_, v := at(i)
			in.Offsets = append(in.Offsets, uint32(v))
		}
		t.In = append(t.In, in)
	case 2:
		for i := 0; i < n; i++ {
			k, v := at(i)
			t.Out = append(t.Out, ref.Out{Amount: v, Key: k})
		}
	}
}

// Tx draws a transaction with its signatures.
func Tx(rt *rapid.T) *ref.Tx {
	t := Prefix(rt)
	if kit.Even(rt, 60, "huge") == 0 {
		huge(rt, t)
	}
	switch rapid.IntRange(0, 19).Draw(rt, "extraKind") {
	case 0:
		t.Extra = kit.Bytes(rt, 20000, "extra")
	case 2:
		if t.Extra = kit.Bytes(rt, 60, "extra"); kit.Even(rt, 6, "extraLarge") == 0 {
			t.Extra = kit.Blob(rt, 1<<16+[]int{-2, -1, 0, 1, 2, kit.Even(rt, 200000, "extraMore")}[kit.Even(rt, 6, "extraOff")], "extra")
		}
	case 1:
		t.Extra = kit.Blob(rt, rapid.IntRange(126, 130).Draw(rt, "extraLen"), "extra")
	default:
		t.Extra = kit.Bytes(rt, 60, "extra")
	}
	if len(t.In) == 0 || len(t.In) == 1 && t.In[0].Gen {
		return t
	}
	seed := rapid.Uint64().Draw(rt, "sigsSeed")
	for i, in := range t.In {
		if len(t.In) < 100 {
			seed = rapid.Uint64().Draw(rt, "sigSeed")
		}
		b := kit.Expand(seed+uint64(i), 64*len(in.Offsets))
		var l [][64]byte
		for i := range in.Offsets {
			l = append(l, [64]byte(b[64*i:64*i+64]))
		}
		t.Sigs = append(t.Sigs, l)
	}
	return t
}

// Coinbase draws a coinbase transaction.
func Coinbase(rt *rapid.T) *ref.Tx {
	t := &ref.Tx{Version: version(rt), Unlock: kit.U64(rt, "unlock"), In: []ref.In{{Gen: true, Height: kit.U32(rt, "height")}}}
	for n := count(rt, "outputs", 5, 300); n > 0; n-- {
		t.Out = append(t.Out, ref.Out{Amount: kit.U64(rt, "amount"), Key: kit.Arr32(rt, "key")})
	}
	t.Extra = kit.Bytes(rt, 60, "extra")
	return t
}

func hashList(rt *rapid.T, n int, name string) (l [][32]byte) {
	b := kit.Expand(rapid.Uint64().Draw(rt, name), 32*n)
	for i := 0; i < n; i++ {
		l = append(l, [32]byte(b[32*i:32*i+32]))
	}
	return
}

// Parent draws a merge-mining parent.
func Parent(rt *rapid.T) *ref.Parent {
	p := &ref.Parent{Major: rapid.Byte().Draw(rt, "parentMajor"), Minor: rapid.Byte().Draw(rt, "parentMinor"),
		Timestamp: kit.U64(rt, "parentTime"), Prev: kit.Arr32(rt, "parentPrev"), Nonce: kit.U32(rt, "parentNonce")}
	switch rapid.IntRange(0, 3).Draw(rt, "txCountKind") {
	case 0:
		p.TxCount = uint16(1)<<rapid.IntRange(0, 15).Draw(rt, "shift") + uint16(rapid.IntRange(-1, 1).Draw(rt, "delta"))
	default:
		p.TxCount = uint16(rapid.IntRange(0, 20).Draw(rt, "txCount"))
	}
	p.Branch = hashList(rt, ref.TreeDepth(int(p.TxCount)), "branch")
	p.Base = *Prefix(rt)
	depth := count(rt, "depth", 4, 127)
	p.Chain = hashList(rt, depth, "chain")
	if rapid.Bool().Draw(rt, "parentKey") {
		p.Base.Extra = append(append(p.Base.Extra, 1), kit.Blob(rt, 32, "parentKey")...)
	}
	if rapid.Bool().Draw(rt, "parentNonceField") {
		n := kit.Bytes(rt, 40, "parentNonceField")
		p.Base.Extra = append(append(p.Base.Extra, 2, byte(len(n))), n...)
	}
	p.Base.Extra = append(p.Base.Extra, ref.MMTag(uint64(depth), kit.Arr32(rt, "root"))...)
	if rapid.Bool().Draw(rt, "parentPad") {
		p.Base.Extra = append(p.Base.Extra, make([]byte, rapid.IntRange(1, 40).Draw(rt, "parentPadLen"))...)
	}
	return p
}

// Block draws a block of a major version.
func Block(rt *rapid.T, major byte) *ref.Block {
	b := &ref.Block{Major: major, Minor: rapid.Byte().Draw(rt, "minor"), Prev: kit.Arr32(rt, "prev")}
	switch major {
	case 2, 3:
		b.Parent = Parent(rt)
		b.Timestamp, b.Nonce = b.Parent.Timestamp, b.Parent.Nonce
	default:
		b.Timestamp, b.Nonce = kit.U64(rt, "time"), kit.U32(rt, "nonce")
	}
	if major == 5 {
		copy(b.Sig[:], kit.Expand(rapid.Uint64().Draw(rt, "sig"), 64))
	}
	if rapid.IntRange(0, 7).Draw(rt, "baseKind") == 0 {
		b.Base = *Tx(rt)
	} else {
		b.Base = *Coinbase(rt)
	}
	txs := count(rt, "txs", 9, 300)
	if kit.Even(rt, 100, "manyTxs") == 0 {
		txs = kit.Even(rt, 20000, "manyTxsOf")
	}
	b.Txs = hashList(rt, txs, "txs")
	return b
}
