// Package rand stands in for math/rand: all randomness comes from the
// simulator.
package rand

import (
	rr "math/rand"

	"verifsim/rt"
)

type (
	Rand     = rr.Rand
	Source   = rr.Source
	Source64 = rr.Source64
	Zipf     = rr.Zipf
)

type src struct{}

func (src) Seed(int64)     {}
func (src) Int63() int64   { return int64(global() >> 1) }
func (src) Uint64() uint64 { return global() }

var g = rr.New(src{})

var seeded *rt.Rng // after Seed: a fixed sequence, as in the real package

func init() { rt.OnReset(func() { seeded = nil }) }

//go:norace
func global() uint64 {
	if seeded != nil {
		return seeded.Next()
	}
	return rt.EnvUint64()
}

//go:norace
func Seed(n int64) { rt.Seeded(); seeded = rt.NewRng(uint64(n)) }

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(global())
	}
	return len(p), nil
}

func New(s Source) *Rand                               { return rr.New(s) }
func NewSource(n int64) Source                         { return rr.NewSource(n) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rr.NewZipf(r, s, v, imax) }
func Int() int                                         { return g.Int() }
func Intn(n int) int                                   { return g.Intn(n) }
func Int31() int32                                     { return g.Int31() }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Int63() int64                                     { return g.Int63() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Float32() float32                                 { return g.Float32() }
func Float64() float64                                 { return g.Float64() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
