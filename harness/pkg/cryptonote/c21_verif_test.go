//go:build go1.23

package cryptonote_test

import (
	"io"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	log "github.com/sirupsen/logrus"
)

func TestVerifC21Unlock(t *testing.T) {
	quiet := log.New()
	quiet.Out = io.Discard
	net := config.MainNet()
	bc := cryptonote.NewBlockChain(net, cryptonote.NewMemoryStorage(), quiet)
	kit.Run(t, kit.Spec{Quick: 20000, Thorough: 200000,
		Rule: "unlock times around a height, around 500 million (on some networks another limit), around the clock and anywhere, with heights of 32 bits: below the limit an output is free from the block before that height on, from there on it is free from 240 seconds before that time on; non-trivial: within 300 of a limit"},
		func(rt *rapid.T, c *kit.Case) {
			height, limit := uint32(kit.U64(rt, "height")), uint64(500_000_000)
			if kit.Even(rt, 4, "network") == 0 {
				limit = uint64(kit.U32(rt, "limit"))
			}
			net.MaxBlockNumber = limit
			if kit.Even(rt, 3, "near") == 0 {
				height = uint32(limit) + uint32(kit.Even(rt, 11, "nearLimit")) - 5
			}
			now := uint64(time.Now().Unix())
			var unlock uint64
			near := true
			switch kit.Even(rt, 4, "unlock") {
			case 0:
				unlock = uint64(height) + uint64(kit.Even(rt, 7, "delta")) - 3
			case 1:
				unlock = limit + uint64(kit.Even(rt, 7, "delta")) - 3
			case 2:
				unlock = now + uint64(kit.Even(rt, 600, "delta")) - 60
			default:
				unlock, near = kit.U64(rt, "unlockAnywhere"), false
			}
			want := func(now uint64) bool {
				if unlock < limit {
					return uint64(height)+1 >= unlock
				}
				return now+240 >= unlock
			}
			first := want(uint64(time.Now().Unix()))
			got := bc.IsTransactionSpendTimeUnlocked(unlock, height)
			if first != want(uint64(time.Now().Unix())) {
				return // the clock passed the limit meanwhile
			}
			if near {
				c.Hit(unlock, height)
			}
			c.Sample("unlock time %d at height %d: %v", unlock, height, got)
			if got != first {
				rt.Fatalf("unlock time %d at height %d, clock %d: free %v, expected %v", unlock, height, now, got, first)
			}
		})
}
