//go:build go1.21

// Package simmaphash replaces hash/maphash in the code under test: its seeds,
// random in every process, come from the simulator.
package simmaphash

import (
	"fmt"

	"VERIFMOD/verifsim"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{verifsim.Rand() | 1} }

func mix(h uint64, b byte) uint64 { return (h ^ uint64(b)) * 0x100000001b3 }

func String(s Seed, v string) uint64 {
	h := s.s ^ 0xcbf29ce484222325
	for i := 0; i < len(v); i++ {
		h = mix(h, v[i])
	}
	return h ^ h>>29
}

func Bytes(s Seed, b []byte) uint64 { return String(s, string(b)) }

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%T%v", v, v)) }

type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error) { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.b = append(h.b, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.b = append(h.b, b); return nil }
func (h *Hash) Seed() Seed             { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)         { h.seed = s; h.b = nil }
func (h *Hash) Reset()                 { h.init(); h.b = nil }
func (h *Hash) Sum64() uint64          { h.init(); return Bytes(h.seed, h.b) }
func (h *Hash) Size() int              { return 8 }
func (h *Hash) BlockSize() int         { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}
