//go:build go1.23

package ref

import (
	"errors"
	"math/big"
	"strings"
)

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Digits is the number of digits of a block of n bytes: the least number able to hold 256^n-1.
func B58Digits(n int) int {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	v, d := big.NewInt(1), 0
	for v.Cmp(lim) < 0 {
		v.Mul(v, big.NewInt(58))
		d++
	}
	return d
}

// B58Block encodes a number into d digits.
func B58Block(v *big.Int, d int) string {
	v = new(big.Int).Set(v)
	out := make([]byte, d)
	m := new(big.Int)
	for i := d - 1; i >= 0; i-- {
		v.DivMod(v, big.NewInt(58), m)
		out[i] = b58Alphabet[m.Int64()]
	}
	return string(out)
}

// B58Encode is the CryptoNote block base58.
func B58Encode(b []byte) string {
	var s strings.Builder
	for len(b) > 0 {
		n := min(8, len(b))
		s.WriteString(B58Block(new(big.Int).SetBytes(b[:n]), B58Digits(n)))
		b = b[n:]
	}
	return s.String()
}

// B58Decode is the inverse, or an error when the text encodes nothing.
func B58Decode(s string) ([]byte, error) {
	var out []byte
	for len(s) > 0 {
		d := min(11, len(s))
		size := 0
		for n := 1; n <= 8; n++ {
			if B58Digits(n) == d {
				size = n
			}
		}
		if size == 0 {
			return nil, errors.New("block length")
		}
		v := new(big.Int)
		for i := 0; i < d; i++ {
			k := strings.IndexByte(b58Alphabet, s[i])
			if k < 0 {
				return nil, errors.New("digit")
			}
			v.Mul(v, big.NewInt(58))
			v.Add(v, big.NewInt(int64(k)))
		}
		if v.BitLen() > 8*size {
			return nil, errors.New("overflow")
		}
		out = append(out, v.FillBytes(make([]byte, size))...)
		s = s[d:]
	}
	return out, nil
}
