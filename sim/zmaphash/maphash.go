// Package maphash stands in for hash/maphash: the simulator chooses the seeds,
// and the hash is a plain function of seed and bytes.
package maphash

import (
	"encoding/binary"
	"fmt"

	"verifsim/rt"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{rt.EnvUint64() | 1} }

func sum(s uint64, b []byte) uint64 {
	h := 14695981039346656037 ^ s*0x9E3779B97F4A7C15
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	return h ^ h>>32
}

func (s Seed) check() uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return s.s
}

func Bytes(s Seed, b []byte) uint64    { return sum(s.check(), b) }
func String(s Seed, str string) uint64 { return sum(s.check(), []byte(str)) }

func Comparable[T comparable](s Seed, v T) uint64 {
	return sum(s.check(), fmt.Appendf(nil, "%#v", v))
}

func WriteComparable[T comparable](h *Hash, v T) { fmt.Fprintf(h, "%#v", v) }

type Hash struct {
	s Seed
	b []byte
}

func (h *Hash) init() {
	if h.s.s == 0 {
		h.s = MakeSeed()
	}
}

func (h *Hash) BlockSize() int { return 128 }
func (h *Hash) Size() int      { return 8 }
func (h *Hash) Reset()         { h.init(); h.b = h.b[:0] }
func (h *Hash) Seed() Seed     { h.init(); return h.s }

func (h *Hash) SetSeed(s Seed) {
	s.check()
	h.s, h.b = s, h.b[:0]
}

func (h *Hash) Sum64() uint64 { h.init(); return sum(h.s.s, h.b) }

func (h *Hash) Sum(b []byte) []byte { return binary.BigEndian.AppendUint64(b, h.Sum64()) }

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	h.b = append(h.b, b...)
	return len(b), nil
}

func (h *Hash) WriteByte(c byte) error {
	h.init()
	h.b = append(h.b, c)
	return nil
}

func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.b = append(h.b, s...)
	return len(s), nil
}
