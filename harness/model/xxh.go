package model

import (
	"encoding/binary"
	"math/bits"

	"github.com/cespare/xxhash"
)

const (
	p1 uint64 = 11400714785074694791
	p2 uint64 = 14029467366897019727
	p3 uint64 = 1609587929392839161
	p4 uint64 = 9650029242287828579
	p5 uint64 = 2870177450012600261
)

func inv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

// Collide returns a 16 byte key with the same XXH64 hash as key, starting with the 8 bytes of pre.
func Collide(key string, pre uint64) string {
	return WithHash(xxhash.Sum64([]byte(key)), pre)
}

// WithHash returns a 16 byte key with the given XXH64 hash.
func WithHash(h uint64, pre uint64) string {
	// invert the final mix
	h ^= h >> 32
	h *= inv(p3)
	h ^= h>>29 ^ h>>58
	h *= inv(p2)
	h ^= h >> 33
	// state after the first 8 bytes
	s := p5 + 16
	s ^= bits.RotateLeft64(pre*p2, 31) * p1
	s = bits.RotateLeft64(s, 27)*p1 + p4
	x := bits.RotateLeft64((h-p4)*inv(p1), -27) ^ s
	k := bits.RotateLeft64(x*inv(p1), -31) * inv(p2)
	b := make([]byte, 16)
	binary.LittleEndian.PutUint64(b, pre)
	binary.LittleEndian.PutUint64(b[8:], k)
	return string(b)
}

// SameShard returns n distinct keys whose hash ends in the same byte.
func SameShard(n int, tag string) []string {
	var out []string
	var want uint64
	for i := 0; len(out) < n; i++ {
		k := tag + itoa(i)
		h := xxhash.Sum64([]byte(k)) & 255
		if len(out) == 0 {
			want = h
		}
		if h == want {
			out = append(out, k)
		}
	}
	return out
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}
