// Package simmaphash stands in for hash/maphash: every seed is the same, so that runs repeat.
package simmaphash

import (
	"encoding/binary"
	"fmt"
	"math/bits"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{0x9e3779b97f4a7c15} }

type Hash struct {
	seed Seed
	buf  []byte
}

func (h *Hash) Write(b []byte) (int, error)       { h.buf = append(h.buf, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) { h.buf = append(h.buf, s...); return len(s), nil }
func (h *Hash) WriteByte(b byte) error            { h.buf = append(h.buf, b); return nil }
func (h *Hash) Reset()                            { h.buf = h.buf[:0] }
func (h *Hash) Sum64() uint64                     { return Bytes(h.Seed(), h.buf) }
func (h *Hash) Sum(b []byte) []byte               { return binary.BigEndian.AppendUint64(b, h.Sum64()) }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
func (h *Hash) SetSeed(s Seed)                    { h.seed = s; h.Reset() }
func (h *Hash) Seed() Seed {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
	return h.seed
}

func String(s Seed, v string) uint64 { return Bytes(s, []byte(v)) }

func Bytes(s Seed, b []byte) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	mix := func(h, w uint64) uint64 {
		hi, lo := bits.Mul64(h^0xa0761d6478bd642f, w^0xe7037ed1a0b428db)
		return bits.RotateLeft64(h, 23) ^ hi ^ lo
	}
	h := mix(s.s, uint64(len(b)))
	for len(b) >= 8 {
		h = mix(h, binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	var t [8]byte
	copy(t[:], b)
	return mix(mix(h, binary.LittleEndian.Uint64(t[:])), 0x8ebc6af09c88c6e3)
}

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%T%#v", v, v)) }

func WriteComparable[T comparable](h *Hash, v T) { h.WriteString(fmt.Sprintf("%T%#v", v, v)) }
