// Package rand is math/rand with its randomness drawn from the run's seed.
package rand

import (
	"math/rand"

	"trcsim/rt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// NewSource mixes the given seed with the run's: equal seeds give equal
// sequences within one run, different ones in different runs.
func NewSource(seed int64) Source {
	return rand.NewSource(int64(rt.RunSeed()*7919 + uint64(seed)*0x9e3779b97f4a7c15))
}

func init() { rt.RegisterReset("math/rand", func() { global = nil }) }

var global *rand.Rand

func g() *rand.Rand {
	if global == nil {
		global = rand.New(NewSource(0))
	}
	return global
}

func New(src Source) *Rand                             { return rand.New(src) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(int64)                                       {}
func Int63() int64                                     { return g().Int63() }
func Uint32() uint32                                   { return g().Uint32() }
func Uint64() uint64                                   { return g().Uint64() }
func Int31() int32                                     { return g().Int31() }
func Int() int                                         { return g().Int() }
func Int63n(n int64) int64                             { return g().Int63n(n) }
func Int31n(n int32) int32                             { return g().Int31n(n) }
func Intn(n int) int                                   { return g().Intn(n) }
func Float64() float64                                 { return g().Float64() }
func Float32() float32                                 { return g().Float32() }
func Perm(n int) []int                                 { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)                       { return g().Read(p) }
func NormFloat64() float64                             { return g().NormFloat64() }
func ExpFloat64() float64                              { return g().ExpFloat64() }
