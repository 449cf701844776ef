//go:build go1.23

package cryptonote_test

import (
	"encoding/binary"
	"errors"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/chaingen"
	"github.com/r3volut1oner/go-karbo/zzverif/cngen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// tallStorage is a chain of any height whose blocks below the top are never made.
type tallStorage struct {
	cryptonote.Storage
	top     *cryptonote.Block
	genesis crypto.Hash
	salt    uint64
}

func (s *tallStorage) at(h uint32) (x crypto.Hash) {
	if h == 0 {
		return s.genesis
	}
	if h == s.top.Index() {
		return *s.top.Hash()
	}
	var b [12]byte
	binary.LittleEndian.PutUint64(b[:], s.salt)
	binary.LittleEndian.PutUint32(b[8:], h)
	return ref.Keccak256(b[:])
}

func (s *tallStorage) Init(g *cryptonote.Block) error {
	s.genesis = *g.Hash()
	if s.top == nil {
		s.top = g
	}
	return nil
}
func (s *tallStorage) TopBlock() (*cryptonote.Block, error) { return s.top, nil }
func (s *tallStorage) TopIndex() (uint32, error)            { return s.top.Index(), nil }
func (s *tallStorage) HashAtIndex(h uint32) (*crypto.Hash, error) {
	if h > s.top.Index() {
		return nil, nil
	}
	x := s.at(h)
	return &x, nil
}

func sparseIndexes(top uint32) (l []uint32) {
	l = append(l, top)
	for d := uint64(1); d < uint64(top); d *= 2 {
		l = append(l, top-uint32(d))
	}
	if top > 0 {
		l = append(l, 0)
	}
	return
}

func checkSparse(rt *rapid.T, bc *cryptonote.BlockChain, top uint32, at func(uint32) crypto.Hash) {
	var got []crypto.Hash
	kit.Within(kit.Patience, "BuildSparseChain", func() {
		kit.NoPanic(rt, "BuildSparseChain", func() {
			var err error
			if got, err = bc.BuildSparseChain(); err != nil {
				rt.Fatalf("sparse chain at %d: %v", top, err)
			}
		})
	})
	want := sparseIndexes(top)
	if len(got) != len(want) {
		rt.Fatalf("sparse chain of top %d has %d hashes, expected blocks %v", top, len(got), want)
	}
	for i, h := range want {
		if got[i] != at(h) {
			rt.Fatalf("sparse chain of top %d: hash %d is not of block %d", top, i, h)
		}
	}
}

func TestVerifC26Tall(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 500000,
		Rule: "chains of heights up to the block number limit of 500 million, small, at and next to powers of two, their sums and random, behind a storage that makes hashes on demand: sparse chain against the list top, top-1, top-2, top-4, ..., genesis; non-trivial: height at least 2"},
		func(rt *rapid.T, c *kit.Case) {
			var top uint32
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				top = uint32(rapid.IntRange(0, 70).Draw(rt, "top"))
			case 1:
				top = uint32(1)<<rapid.IntRange(0, 28).Draw(rt, "shift") + uint32(rapid.IntRange(-2, 2).Draw(rt, "delta"))
				if top > 500000000 {
					top = 0
				}
			default:
				top = uint32(rapid.IntRange(0, 500000000).Draw(rt, "top"))
			}
			s := &tallStorage{Storage: cryptonote.NewMemoryStorage(), salt: rapid.Uint64().Draw(rt, "salt")}
			if top > 0 {
				s.top = cngen.BlockOf(plainBlock(top, 1, [32]byte{}))
			}
			bc := cryptonote.NewBlockChain(config.MainNet(), s, chaingen.Logger())
			if err := bc.Init(); err != nil {
				rt.Fatalf("Init: %v", err)
			}
			checkSparse(rt, bc, top, s.at)
			if top >= 2 {
				c.Hit(top)
				c.Sample("top %d: blocks %v", top, sparseIndexes(top))
			}
		})
}

func TestVerifC26Grown(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 400, Thorough: 4000,
		Rule: "chains of up to 400 blocks in the memory storage, the last up to 6 of them added by consensus, the sparse chain looked at after each; non-trivial: height at least 2"},
		func(rt *rapid.T, c *kit.Case) {
			top := uint32(rapid.IntRange(0, 20).Draw(rt, "top"))
			if rapid.IntRange(0, 3).Draw(rt, "long") == 0 {
				top = uint32(rapid.IntRange(0, 384).Draw(rt, "top"))
			}
			w := chaingen.New(rt, chaingen.Options{Top: top})
			at := func(h uint32) crypto.Hash { return w.Recs[h].Hash }
			checkSparse(rt, w.BC, w.Top, at)
			for i := rapid.IntRange(0, 6).Draw(rt, "add"); i > 0; i-- {
				if d, ok := w.Difficulty(); !ok || d == 0 {
					return
				}
				cand, _ := w.Valid(rt, 0, false)
				if err := w.Add(rt, cand); err != nil {
					rt.Fatalf("valid block %d refused: %v", w.Top+1, err)
				}
				w.Accept(cand)
				checkSparse(rt, w.BC, w.Top, at)
			}
			if w.Top >= 2 {
				c.Hit(w.Top, w.Recs[w.Top].Hash)
				c.Sample("top %d", w.Top)
			}
		})
}

func TestVerifC26Faults(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 400, Thorough: 4000,
		Rule: "chains of up to 400 blocks over a storage that fails to answer for one of the blocks: an error or the right list when the sparse chain has that block below the top, never a panic or another list, and the right list once the storage works; non-trivial: the block is in the list"},
		func(rt *rapid.T, c *kit.Case) {
			top := uint32(rapid.IntRange(0, 20).Draw(rt, "top"))
			if rapid.IntRange(0, 3).Draw(rt, "long") == 0 {
				top = uint32(rapid.IntRange(0, 384).Draw(rt, "top"))
			}
			disk := &chaingen.Faulty{}
			w := chaingen.New(rt, chaingen.Options{Top: top, Wrap: disk.Wrapper})
			at := func(h uint32) crypto.Hash { return w.Recs[h].Hash }
			list := sparseIndexes(w.Top)
			bad := list[kit.Even(rt, len(list), "bad")]
			if rapid.Bool().Draw(rt, "any") {
				bad = uint32(rapid.IntRange(0, int(w.Top)).Draw(rt, "bad"))
			}
			in := false
			for _, h := range list {
				in = in || h == bad && h < w.Top
			}
			if in {
				disk.Lookup = func(h uint32) error {
					if h == bad {
						return errors.New("disk failure")
					}
					return nil
				}
				var got []crypto.Hash
				var err error
				kit.Within(kit.Patience, "BuildSparseChain", func() {
					kit.NoPanic(rt, "BuildSparseChain", func() { got, err = w.BC.BuildSparseChain() })
				})
				for i := range list {
					if err == nil && (len(got) != len(list) || got[i] != at(list[i])) {
						rt.Fatalf("sparse chain of top %d whose block %d cannot be read: %d hashes and no error", w.Top, bad, len(got))
					}
				}
				disk.Lookup = nil
				c.Hit(w.Top, bad)
				c.Sample("top %d, block %d", w.Top, bad)
			}
			checkSparse(rt, w.BC, w.Top, at)
		})
}
