//go:build go1.21

// Package ref holds reference models written from the CryptoNote and Karbo definitions, independently of the
// code under test (arbitrary precision, recursion, tables).
package ref

import (
	"bytes"
	"math/big"
	"math/bits"

	"golang.org/x/crypto/sha3"
)

type Hash = [32]byte

func Keccak(b ...[]byte) Hash {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	var o Hash
	copy(o[:], h.Sum(nil))
	return o
}

func Varint(v uint64) []byte {
	var b []byte
	for v >= 128 {
		b = append(b, byte(v)|128)
		v >>= 7
	}
	return append(b, byte(v))
}

// ReadVarint returns value, bytes used (0: cut, -1: over 64 bits) and whether it was the shortest form.
func ReadVarint(b []byte) (uint64, int, bool) {
	v := uint64(0)
	for i, x := range b {
		if i == 9 && x > 1 || i > 9 {
			return 0, -1, false
		}
		v |= uint64(x&127) << (7 * uint(i))
		if x < 128 {
			return v, i + 1, i == 0 || x != 0
		}
	}
	return 0, 0, false
}

const B58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var B58Len = []int{0, 2, 3, 5, 6, 7, 9, 10, 11}

func B58DecLen(n int) int {
	for i, e := range B58Len {
		if e == n {
			return i
		}
	}
	return -1
}

func B58Encode(b []byte) string {
	var s []byte
	for len(b) > 0 {
		n := 8
		if len(b) < n {
			n = len(b)
		}
		v := new(big.Int).SetBytes(b[:n])
		out := make([]byte, B58Len[n])
		m := new(big.Int)
		for i := len(out) - 1; i >= 0; i-- {
			v.DivMod(v, big.NewInt(58), m)
			out[i] = B58Alphabet[m.Int64()]
		}
		s = append(s, out...)
		b = b[n:]
	}
	return string(s)
}

func B58Decode(s string) ([]byte, bool) {
	var out []byte
	for len(s) > 0 {
		n := 11
		if len(s) < n {
			n = len(s)
		}
		size := B58DecLen(n)
		if size < 0 {
			return nil, false
		}
		hi, lo := uint64(0), uint64(0)
		for i := 0; i < n; i++ {
			d := bytes.IndexByte([]byte(B58Alphabet), s[i])
			if d < 0 {
				return nil, false
			}
			h, l := bits.Mul64(lo, 58)
			l, c := bits.Add64(l, uint64(d), 0)
			hi = hi*58 + h + c
			lo = l
		}
		if hi != 0 || size < 8 && lo>>(8*uint(size)) != 0 {
			return nil, false
		}
		for i := size - 1; i >= 0; i-- {
			out = append(out, byte(lo>>(8*uint(i))))
		}
		s = s[n:]
	}
	return out, true
}

// TreeHash is the CryptoNote tree hash.
func TreeHash(l []Hash) Hash {
	n := len(l)
	switch n {
	case 1:
		return l[0]
	case 2:
		return Keccak(l[0][:], l[1][:])
	}
	cnt := 1
	for cnt*2 < n {
		cnt *= 2
	}
	keep := 2*cnt - n
	row := append([]Hash{}, l[:keep]...)
	for i := keep; i < n; i += 2 {
		row = append(row, Keccak(l[i][:], l[i+1][:]))
	}
	return perfect(row)
}

func perfect(row []Hash) Hash {
	if len(row) == 1 {
		return row[0]
	}
	h := len(row) / 2
	a, b := perfect(row[:h]), perfect(row[h:])
	return Keccak(a[:], b[:])
}

// TreeBranch is the authentication path of the first leaf, nearest to the root first.
func TreeBranch(l []Hash) []Hash {
	n := len(l)
	if n == 1 {
		return nil
	}
	if n == 2 {
		return []Hash{l[1]}
	}
	cnt := 1
	for cnt*2 < n {
		cnt *= 2
	}
	keep := 2*cnt - n
	row := append([]Hash{}, l[:keep]...)
	var low []Hash
	for i := keep; i < n; i += 2 {
		if i == 0 {
			low = []Hash{l[1]}
		}
		row = append(row, Keccak(l[i][:], l[i+1][:]))
	}
	var path []Hash
	for len(row) > 1 {
		h := len(row) / 2
		path = append(path, perfect(row[h:]))
		row = row[:h]
	}
	return append(path, low...)
}
