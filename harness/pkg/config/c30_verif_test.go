//go:build go1.23

package config_test

import (
	"fmt"
	"runtime"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
)

func TestVerifC30Checkpoints(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 400, Thorough: 8000,
		Rule: "2 to 6 goroutines adding checkpoints at shared heights with hashes of their own, each followed by checks of blocks, zones and alternative blocks: exactly one addition per height succeeds, a pinned height never accepts another hash, the zone never shrinks; under the race detector; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			cp := config.NewCheckpoints(quietLogger())
			base := kit.U32(rt, "base")>>1 | 1
			type op struct {
				h   uint32
				err error
			}
			n := 2 + kit.Even(rt, 5, "goroutines")
			plans := make([][]*op, n)
			for i := range plans {
				for k := 1 + kit.Even(rt, 10, "additions"); k > 0; k-- {
					plans[i] = append(plans[i], &op{h: base + uint32(kit.Even(rt, 12, "height"))})
				}
			}
			var mu sync.Mutex
			var bad []string
			fail := func(format string, a ...any) {
				mu.Lock()
				bad = append(bad, fmt.Sprintf(format, a...))
				mu.Unlock()
			}
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i, l := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					mine := crypto.Hash{byte(i + 1)}
					<-gate
					for _, o := range l {
						o.err = cp.AddCheckpoint(o.h, mine)
						if !cp.IsInCheckpointZone(o.h) || !cp.IsInCheckpointZone(base) {
							fail("height %d of a checkpoint is not in the zone", o.h)
						}
						if err := cp.CheckBlock(o.h, &mine); o.err == nil && err != nil {
							fail("checkpoint %d refuses its block: %v", o.h, err)
						}
						if err := cp.CheckBlock(o.h, &crypto.Hash{99}); err == nil {
							fail("checkpoint %d accepts another block", o.h)
						}
						if err := cp.CheckBlock(base+100, &crypto.Hash{99}); err != nil {
							fail("block without a checkpoint refused: %v", err)
						}
						_ = cp.AlternativeBlockAllowed(o.h+uint32(i)*7, o.h)
						runtime.Gosched()
					}
				}()
			}
			close(gate)
			kit.Within(kit.Patience, "checkpoint operations", wg.Wait)
			if len(bad) > 0 {
				rt.Fatalf("%q", bad)
			}
			won := map[uint32]int{}
			tried := map[uint32]bool{}
			for i, l := range plans {
				for _, o := range l {
					tried[o.h] = true
					if o.err == nil {
						if _, ok := won[o.h]; ok {
							rt.Fatalf("two checkpoints at %d", o.h)
						}
						won[o.h] = i
					}
				}
			}
			max := uint32(0)
			for h := range tried {
				i, ok := won[h]
				if !ok {
					rt.Fatalf("no checkpoint at %d", h)
				}
				for j := range plans {
					if err := cp.CheckBlock(h, &crypto.Hash{byte(j + 1)}); (err == nil) != (i == j) {
						rt.Fatalf("checkpoint %d of %d with the hash of %d: %v", h, i, j, err)
					}
				}
				if h > max {
					max = h
				}
			}
			if !cp.IsInCheckpointZone(max) || cp.IsInCheckpointZone(max+1) {
				rt.Fatalf("the zone does not end at %d", max)
			}
			c.Hit(fmt.Sprint(base, won))
			c.Sample("%d goroutines, %d checkpoints from %d on", n, len(won), base)
		})
}
