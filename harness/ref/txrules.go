//go:build go1.23

package ref

import "sort"

// Pretty tells whether an amount is one digit followed by zeros.
func Pretty(a uint64) bool {
	for a >= 10 && a%10 == 0 {
		a /= 10
	}
	return a > 0 && a < 10
}

// Decompose an amount into digits, the low digits that together stay within dust being one part.
func Decompose(a, dust uint64) (l []uint64) {
	low, order := uint64(0), uint64(1)
	for ; a > 0 && a%10*order <= dust && low <= dust-a%10*order; order *= 10 {
		low += a % 10 * order
		a /= 10
	}
	if low > 0 {
		l = append(l, low)
	}
	for ; a > 0; order *= 10 {
		if a%10 > 0 {
			l = append(l, a%10*order)
		}
		a /= 10
	}
	return
}

// MaxBlockSize at a height.
func MaxBlockSize(h uint32) uint64 { return 1000000 + uint64(h)*102400/131400 }

// MinFee of a transaction with extra bytes in a block at a height.
func MinFee(h uint32, extra int) uint64 {
	var fee uint64
	switch {
	case h <= 216394:
		fee = 100_000_000
	case h <= 266000:
		fee = 100_000_000_000
	case h < 667000:
		fee = 8_000_000_000
	default:
		fee = 10_000_000_000
	}
	if h > 500000 {
		more := uint64(10_000_000_000)
		if extra > 100 {
			more += 100_000_000 * uint64(extra-100)
		}
		if h < 667000 {
			more -= more * 20 / 100
		}
		if more > fee {
			fee = more
		}
	}
	return fee
}

// Fusion tells whether a transaction (without fee) gathers small amounts into the digits of their sum.
func Fusion(h uint32, t *Tx, size int) bool {
	if h <= 216000 && size > 300000 || len(t.In) < 12 || len(t.In) < 4*len(t.Out) {
		return false
	}
	dust := uint64(0)
	if h < 266000 {
		dust = 100_000_000
	}
	sum := uint64(0)
	for _, i := range t.In {
		if i.Amount < dust {
			return false
		}
		sum += i.Amount
	}
	want := Decompose(sum, dust)
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if len(want) != len(t.Out) {
		return false
	}
	for i, o := range t.Out {
		if o.Amount != want[i] {
			return false
		}
	}
	return true
}

// TxRules tells why a block at a height cannot hold a transaction, apart from key image domain and signatures;
// spent are the images of the block so far, to which those of the transaction are added.
func TxRules(h uint32, t *Tx, spent map[[32]byte]bool) (fee uint64, why string) {
	size := len(t.Bytes())
	if h > 266000 && size > 249400 {
		return 0, "size"
	}
	if len(t.In) == 0 {
		return 0, "no inputs"
	}
	in, mixin := uint64(0), 0
	for _, i := range t.In {
		if i.Gen {
			return 0, "coinbase input"
		}
		if len(i.Offsets) == 0 {
			return 0, "empty ring"
		}
		if spent[i.Image] {
			return 0, "spent twice"
		}
		spent[i.Image] = true
		for _, o := range i.Offsets[1:] {
			if o == 0 {
				return 0, "same output twice"
			}
		}
		if in+i.Amount < in {
			return 0, "input overflow"
		}
		in += i.Amount
		if len(i.Offsets) > mixin {
			mixin = len(i.Offsets)
		}
	}
	out := uint64(0)
	for _, o := range t.Out {
		if o.Amount == 0 {
			return 0, "zero output"
		}
		if h >= 700000 && !Pretty(o.Amount) {
			return 0, "ugly output"
		}
		if _, ok := Decode(o.Key); !ok {
			return 0, "invalid key"
		}
		if out+o.Amount < out {
			return 0, "output overflow"
		}
		out += o.Amount
	}
	switch {
	case in == 0 || out == 0:
		return 0, "nothing moved"
	case out > in:
		return 0, "outputs exceed inputs"
	}
	fee = in - out
	if fee < MinFee(h, len(t.Extra)) && !(fee == 0 && Fusion(h, t, size)) {
		return 0, "fee"
	}
	if h > 216394 && mixin > 20 || h > 266000 && mixin < 1 {
		return 0, "mixin"
	}
	return fee, ""
}
