// Package rand stands in for math/rand/v2.
package rand

import (
	rr "math/rand/v2"

	"verifsim/rt"
)

type (
	Rand    = rr.Rand
	Source  = rr.Source
	PCG     = rr.PCG
	ChaCha8 = rr.ChaCha8
	Zipf    = rr.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return rt.EnvUint64() }

var g = rr.New(src{})

func New(s Source) *Rand                 { return rr.New(s) }
func NewPCG(a, b uint64) *PCG            { return rr.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8     { return rr.NewChaCha8(s) }
func Int() int                           { return g.Int() }
func IntN(n int) int                     { return g.IntN(n) }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64() uint64                     { return g.Uint64() }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Float32() float32                   { return g.Float32() }
func Float64() float64                   { return g.Float64() }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	return Int(rt.EnvUint64() % uint64(n))
}
