//go:build go1.23

package crypto

import (
	"math/big"

	"github.com/r3volut1oner/go-karbo/zzverif/eccgen"
	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

func vNum(rt *rapid.T, name string) *big.Int              { return eccgen.Num(rt, name) }
func vScalar(rt *rapid.T, name string) *big.Int           { return eccgen.Scalar(rt, name) }
func vBig(b [32]byte) *big.Int                            { return ref.LE(b[:]) }
func vMul8(p ref.Point) ref.Point                         { return eccgen.Mul8(p) }
func vPoint(rt *rapid.T, name string) (ref.Point, string) { return eccgen.Point(rt, name) }
func vEncoding(rt *rapid.T, name string) ([32]byte, string) {
	return eccgen.Encoding(rt, name)
}
func vInvalid(rt *rapid.T, name string) [32]byte { return eccgen.Invalid(rt, name) }

var vLow = eccgen.Low

// vHash draws a hash.
func vHash(rt *rapid.T, name string) Hash {
	if rapid.IntRange(0, 4).Draw(rt, name+"Kind") == 0 {
		return Hash(ref.ToLE(vNum(rt, name)))
	}
	return Hash(kit.Expand(rapid.Uint64().Draw(rt, name+"Seed"), 32))
}
