//go:build go1.23

package crypto

import (
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/zzverif/kit"
	"github.com/r3volut1oner/go-karbo/zzverif/rapid"
	"github.com/r3volut1oner/go-karbo/zzverif/ref"
)

// vRing is a ring with one known secret.
type vRing struct {
	hash  Hash
	image KeyImage
	pubs  []PublicKey
	sec   SecretKey
	at    int
	sigs  []Signature
}

func vDrawRing(rt *rapid.T, max int) (g vRing, s *big.Int) {
	n := rapid.IntRange(1, max).Draw(rt, "members")
	few := n
	if max == 10 {
		switch kit.Even(rt, 100, "long") {
		case 0, 1, 2, 3, 4, 5:
			n = 11 + kit.Even(rt, 60, "longRing")
		case 6:
			n = 126 + kit.Even(rt, 5, "longRing")
		case 7:
			n = 254 + kit.Even(rt, 5, "longRing")
		}
	}
	if max == 4 && kit.Even(rt, 15, "long") == 0 {
		n = 5 + kit.Even(rt, 260, "longRing")
	}
	g.at = kit.Even(rt, n, "at")
	s = vScalar(rt, "secret")
	g.sec = SecretKey(ref.ToLE(s))
	for i := 0; i < few; i++ {
		p, _ := vPoint(rt, "member")
		g.pubs = append(g.pubs, PublicKey(p.Encode()))
	}
	for i := few; i < n; i++ {
		p, _ := ref.Decode(g.pubs[i-1])
		g.pubs = append(g.pubs, PublicKey(p.Add(ref.Base()).Encode()))
	}
	pub := ref.MulBase(s)
	g.pubs[g.at] = PublicKey(pub.Encode())
	if n > 1 && rapid.IntRange(0, 9).Draw(rt, "repeat") == 0 {
		if j := rapid.IntRange(0, n-1).Draw(rt, "repeatAt"); j != g.at {
			g.pubs[j] = g.pubs[rapid.IntRange(0, n-1).Draw(rt, "repeatOf")]
		}
	}
	g.hash = vHash(rt, "hash")
	hp := ref.HashToPoint(ref.Keccak256(g.pubs[g.at][:]))
	g.image = KeyImage(hp.Mul(s).Encode())
	return
}

// vRingSigned is the verification equation of the scheme.
func vRingSigned(g *vRing, subgroup bool) bool {
	image, ok := ref.Decode(g.image)
	if !ok || len(g.pubs) != len(g.sigs) || subgroup && !image.Mul(ref.L).Equal(ref.Identity()) {
		return false
	}
	data := append([]byte{}, g.hash[:]...)
	sum := new(big.Int)
	for i, s := range g.sigs {
		p, ok := ref.Decode(g.pubs[i])
		c, r := vBig(s.C), vBig(s.R)
		if !ok || c.Cmp(ref.L) >= 0 || r.Cmp(ref.L) >= 0 {
			return false
		}
		x := p.Mul(c).Add(ref.MulBase(r)).Encode()
		y := image.Mul(c).Add(ref.HashToPoint(ref.Keccak256(g.pubs[i][:])).Mul(r)).Encode()
		data = append(append(data, x[:]...), y[:]...)
		sum.Add(sum, c)
	}
	h := ref.Keccak256(data)
	return sum.Mod(sum, ref.L).Cmp(ref.ScalarOf(h[:])) == 0
}

// vSolve makes a ring signature without the code under test; want says which closing scalars to take.
func vSolve(g *vRing, s *big.Int, seed uint64, want func(c *big.Int) bool) {
	image, _ := ref.Decode(g.image)
	n := len(g.pubs)
	for ; ; seed++ {
		rnd := kit.Expand(seed, 64*(n+1))
		next := func() (v *big.Int) { v = ref.ScalarOf(rnd[:32]); rnd = rnd[32:]; return }
		k := next()
		data := append([]byte{}, g.hash[:]...)
		sum := new(big.Int)
		g.sigs = make([]Signature, n)
		for i := range g.pubs {
			hp := ref.HashToPoint(ref.Keccak256(g.pubs[i][:]))
			var x, y [32]byte
			if i == g.at {
				x, y = ref.MulBase(k).Encode(), hp.Mul(k).Encode()
			} else {
				c, r := next(), next()
				c.Sub(c, new(big.Int).Mod(c, big.NewInt(8))) // keeps the image's small-order part out
				p, _ := ref.Decode(g.pubs[i])
				g.sigs[i] = Signature{ref.ToLE(c), ref.ToLE(r)}
				x = p.Mul(c).Add(ref.MulBase(r)).Encode()
				y = image.Mul(c).Add(hp.Mul(r)).Encode()
				sum.Add(sum, c)
			}
			data = append(append(data, x[:]...), y[:]...)
		}
		h := ref.Keccak256(data)
		c := new(big.Int).Sub(ref.ScalarOf(h[:]), sum)
		c.Mod(c, ref.L)
		if !want(c) {
			continue
		}
		r := new(big.Int).Sub(k, new(big.Int).Mul(c, s))
		g.sigs[g.at] = Signature{ref.ToLE(c), ref.ToLE(r.Mod(r, ref.L))}
		return
	}
}

func vRingPass(rt *rapid.T, g *vRing, subgroup bool) (ok bool) {
	h, im := g.hash, g.image
	pubs, sigs := append([]PublicKey{}, g.pubs...), append([]Signature{}, g.sigs...)
	kit.NoPanic(rt, "CheckRingSignature", func() { ok = CheckRingSignature(&h, &im, &pubs, &sigs, subgroup) })
	same := h == g.hash && im == g.image && len(pubs) == len(g.pubs) && len(sigs) == len(g.sigs)
	for i := range g.pubs {
		same = same && pubs[i] == g.pubs[i]
	}
	for i := range g.sigs {
		same = same && sigs[i] == g.sigs[i]
	}
	if !same {
		rt.Fatalf("verification changed its arguments")
	}
	return
}

func vBit(rt *rapid.T, b *[32]byte) {
	i := rapid.IntRange(0, 255).Draw(rt, "bit")
	b[i/8] ^= 1 << (i % 8)
}

func TestVerifC16Ring(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 20000,
		Rule: "rings of 1 to 10 and sometimes to 258 members (prime, mixed and small order, repeated members), any signer position, edge secrets and hashes: the generated signature verifies and (rings up to 3) satisfies the reference equation; then one change of message, image, ring or any signature element must be refused; non-trivial: at least two members"},
		func(rt *rapid.T, c *kit.Case) {
			kit.SeedCrypto(rt)
			g, s := vDrawRing(rt, 10)
			n := len(g.pubs)
			var err error
			if im, err := GenerateKeyImage(&g.pubs[g.at], &g.sec); err != nil || *im != g.image {
				rt.Fatalf("key image %v (%v), expected %x", im, err, g.image)
			}
			g.sigs, err = GenerateRingSignature(&g.hash, &g.image, &g.pubs, &g.sec, uint64(g.at))
			if err != nil {
				rt.Fatalf("signing: %v", err)
			}
			if len(g.sigs) != n {
				rt.Fatalf("%d signatures for %d members", len(g.sigs), n)
			}
			for _, sub := range []bool{true, false} {
				if !vRingPass(rt, &g, sub) {
					rt.Fatalf("own signature refused (ring of %d, position %d, subgroup check %v)", n, g.at, sub)
				}
			}
			if n <= 3 && !vRingSigned(&g, true) {
				rt.Fatalf("signature does not satisfy the equation (ring of %d)", n)
			}
			tries, done := 1, []string{}
			if n > 10 {
				tries = 5
			}
			for ; tries > 0; tries-- {
				m := g
				m.pubs = append([]PublicKey{}, g.pubs...)
				m.sigs = append([]Signature{}, g.sigs...)
				i := kit.Even(rt, n, "i")
				kinds := []string{"message", "image bit", "image of another", "image negated", "image shifted", "member replaced", "member bit", "members swapped", "member shifted", "c bit", "r bit", "c over", "r over", "signatures swapped", "signature dropped", "signature added", "signature and member dropped", "zero c", "zero r", "c and r swapped", "moved c"}
				kind := kinds[kit.Even(rt, len(kinds), "kind")]
				done = append(done, kind)
				switch kind {
				case "message":
					vBit(rt, (*[32]byte)(&m.hash))
				case "image bit":
					vBit(rt, (*[32]byte)(&m.image))
				case "image of another":
					p, _ := vPoint(rt, "image")
					m.image = KeyImage(p.Encode())
				case "image negated":
					p, _ := ref.Decode(m.image)
					m.image = KeyImage(p.Neg().Encode())
				case "image shifted":
					p, _ := ref.Decode(m.image)
					m.image = KeyImage(p.Add(vLow[rapid.IntRange(1, 7).Draw(rt, "low")]).Encode())
				case "member replaced":
					p, _ := vPoint(rt, "other")
					m.pubs[i] = PublicKey(p.Encode())
				case "member bit":
					vBit(rt, (*[32]byte)(&m.pubs[i]))
				case "member shifted":
					p, _ := ref.Decode(m.pubs[i])
					m.pubs[i] = PublicKey(p.Add(vLow[rapid.IntRange(1, 7).Draw(rt, "low")]).Encode())
				case "members swapped":
					j := kit.Even(rt, n, "j")
					m.pubs[i], m.pubs[j] = m.pubs[j], m.pubs[i]
				case "c bit":
					vBit(rt, (*[32]byte)(&m.sigs[i].C))
				case "r bit":
					vBit(rt, (*[32]byte)(&m.sigs[i].R))
				case "c over":
					m.sigs[i].C = ref.ToLE(new(big.Int).Add(vBig(m.sigs[i].C), new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "times"))))))
				case "r over":
					m.sigs[i].R = ref.ToLE(new(big.Int).Add(vBig(m.sigs[i].R), new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "times"))))))
				case "signatures swapped":
					j := kit.Even(rt, n, "j")
					m.sigs[i], m.sigs[j] = m.sigs[j], m.sigs[i]
				case "signature dropped":
					m.sigs = m.sigs[:rapid.IntRange(0, n-1).Draw(rt, "left")]
				case "signature added":
					m.sigs = append(m.sigs, Signature{Z, ref.ToLE(vScalar(rt, "extra"))})
				case "signature and member dropped":
					m.sigs = append(m.sigs[:i:i], m.sigs[i+1:]...)
					m.pubs = append(m.pubs[:i:i], m.pubs[i+1:]...)
				case "zero c":
					m.sigs[i].C = Z
				case "zero r":
					m.sigs[i].R = Z
				case "c and r swapped":
					m.sigs[i].C, m.sigs[i].R = m.sigs[i].R, m.sigs[i].C
				case "moved c":
					// the sum stays the same
					j := (i + 1) % n
					a := new(big.Int).Add(vBig(m.sigs[i].C), big.NewInt(1))
					b := new(big.Int).Sub(vBig(m.sigs[j].C), big.NewInt(1))
					if i != j {
						m.sigs[i].C, m.sigs[j].C = ref.ToLE(a.Mod(a, ref.L)), ref.ToLE(b.Mod(b, ref.L))
					}
				}
				same := m.hash == g.hash && m.image == g.image && len(m.pubs) == n && len(m.sigs) == n
				for i := 0; same && i < n; i++ {
					same = m.pubs[i] == g.pubs[i] && m.sigs[i] == g.sigs[i]
				}
				if !same {
					for _, sub := range []bool{true, false} {
						if !sub && kind == "image shifted" {
							// only the domain check refuses it when the scalars cancel the shift
							if n <= 3 && vRingPass(rt, &m, sub) != vRingSigned(&m, sub) {
								rt.Fatalf("image shifted: verdict differs from the equation (ring of %d)", n)
							}
							continue
						}
						if vRingPass(rt, &m, sub) {
							if s.Sign() == 0 && vRingSigned(&m, sub) {
								continue // the key and its image are the identity, which scalars do not change
							}
							rt.Fatalf("%s at %d: accepted (ring of %d, signer %d, subgroup check %v)", kind, i, n, g.at, sub)
						}
					}
					c.Label(kind)
				}
			}
			if n > 1 {
				c.Hit(g.hash[:], g.image[:], n, g.at)
				c.Sample("%s ring of %d signer %d image %x", done, n, g.at, g.image)
			}
		})
}

func TestVerifC16Refuse(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 300, Thorough: 15000,
		Rule: "rings of 1 to 6 with one wrong argument for the signer: index outside the ring, secret of no member or of another position, secret not reduced, image of another key, negated or shifted, a member that is no point: an error, no panic; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			kit.SeedCrypto(rt)
			g, s := vDrawRing(rt, 6)
			n := len(g.pubs)
			at := uint64(g.at)
			kind := rapid.SampledFrom([]string{"index", "foreign secret", "other position", "secret over", "other image", "image negated", "image shifted", "no member"}).Draw(rt, "kind")
			low := vLow[rapid.IntRange(1, 7).Draw(rt, "low")]
			switch kind {
			case "index":
				at = rapid.SampledFrom([]uint64{uint64(n), uint64(n) + 1, 1 << 32, 1 << 63, ^uint64(0), uint64(n) + 1<<32}).Draw(rt, "index")
			case "foreign secret":
				o := vScalar(rt, "other")
				if o.Cmp(s) == 0 {
					o.Add(o, big.NewInt(1)).Mod(o, ref.L)
				}
				g.sec = SecretKey(ref.ToLE(o))
				if rapid.Bool().Draw(rt, "own image") {
					g.image = KeyImage(ref.HashToPoint(ref.Keccak256(g.pubs[g.at][:])).Mul(o).Encode())
				}
			case "other position":
				j := rapid.IntRange(0, n-1).Draw(rt, "j")
				if g.pubs[j] == g.pubs[g.at] {
					return
				}
				at = uint64(j)
			case "secret over":
				g.sec = SecretKey(ref.ToLE(new(big.Int).Add(s, new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "times")))))))
			case "other image":
				p, _ := vPoint(rt, "image")
				if KeyImage(p.Encode()) == g.image {
					return
				}
				g.image = KeyImage(p.Encode())
			case "image negated":
				p, _ := ref.Decode(g.image)
				if KeyImage(p.Neg().Encode()) == g.image {
					return
				}
				g.image = KeyImage(p.Neg().Encode())
			case "image shifted":
				p, _ := ref.Decode(g.image)
				g.image = KeyImage(p.Add(low).Encode())
			case "no member":
				j := rapid.IntRange(0, n-1).Draw(rt, "j")
				if j == g.at {
					return
				}
				g.pubs[j] = PublicKey(vInvalid(rt, "bad"))
			}
			pubs := append([]PublicKey{}, g.pubs...)
			kit.NoPanic(rt, "GenerateRingSignature", func() {
				if sigs, err := GenerateRingSignature(&g.hash, &g.image, &pubs, &g.sec, at); err == nil {
					rt.Fatalf("%s: signed (ring of %d, index %d): %x", kind, n, at, sigs)
				}
			})
			c.Label(kind)
			c.Hit(kind, g.hash[:], g.image[:])
			c.Sample("%s ring of %d", kind, n)
		})
}

func TestVerifC16Forge(t *testing.T) {
	kit.Run(t, kit.Spec{Quick: 50, Thorough: 2500,
		Rule: "rings of 1 to 3 signed by the reference: valid ones, ones whose image carries a small-order component that the scalars cancel (refused exactly when the image domain is checked), and arbitrary or invalid images, members and scalars: verdict equal to the reference equation; non-trivial: all"},
		func(rt *rapid.T, c *kit.Case) {
			g, s := vDrawRing(rt, 3)
			seed := rapid.Uint64().Draw(rt, "seed")
			kind := rapid.SampledFrom([]string{"valid", "small-order component", "small-order component", "bad image", "bad member", "bad scalar", "empty ring"}).Draw(rt, "kind")
			any := func(*big.Int) bool { return true }
			order := int64(8)
			switch kind {
			case "small-order component":
				p, _ := ref.Decode(g.image)
				l := rapid.SampledFrom([]int{1, 2, 4, 4, 6}).Draw(rt, "low")
				order = map[int]int64{1: 8, 2: 4, 4: 2, 6: 4}[l]
				g.image = KeyImage(p.Add(vLow[l]).Encode())
				vSolve(&g, s, seed, func(c *big.Int) bool { return c.Uint64()%uint64(order) == 0 })
			case "empty ring":
				g.pubs, g.sigs = nil, nil
			default:
				vSolve(&g, s, seed, any)
			}
			j := 0
			if len(g.pubs) > 1 {
				j = rapid.IntRange(0, len(g.pubs)-1).Draw(rt, "j")
			}
			switch kind {
			case "bad image":
				g.image = KeyImage(vInvalid(rt, "bad"))
			case "bad member":
				g.pubs[j] = PublicKey(vInvalid(rt, "bad"))
			case "bad scalar":
				g.sigs[j] = Signature{ref.ToLE(vNum(rt, "c")), ref.ToLE(vNum(rt, "r"))}
			}
			for _, sub := range []bool{false, true} {
				want := vRingSigned(&g, sub)
				if kind == "valid" && !want || kind == "small-order component" && want == sub {
					rt.Fatalf("VERIF-INFRA %s: reference says %v (subgroup check %v)", kind, want, sub)
				}
				if got := vRingPass(rt, &g, sub); got != want {
					rt.Fatalf("%s: verdict %v, expected %v (ring of %d, subgroup check %v, image %x)", kind, got, want, len(g.pubs), sub, g.image)
				}
			}
			c.Label(kind)
			c.Hit(kind, g.hash[:], g.image[:])
			c.Sample("%s ring of %d image %x", kind, len(g.pubs), g.image)
		})
}
