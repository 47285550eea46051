// Package vrand replaces the global random source by a reproducible one.
package vrand

import (
	"math/rand"

	"verif.local/vrt"
)

var src = rand.New(rand.NewSource(1))
var epoch uint64

// Hook decides Intn and its like while it is set.
var Hook func(n int) (int, bool)

func init() { vrt.RegisterReset(func() { Hook = nil }) }

func r() *rand.Rand {
	if e := vrt.Epoch(); e != epoch {
		epoch = e
		src = rand.New(rand.NewSource(1))
	}
	return src
}

func Int() int { return r().Int() }
func Intn(n int) int {
	if Hook != nil {
		if v, ok := Hook(n); ok {
			return v
		}
	}
	return r().Intn(n)
}
func IntN(n int) int                     { return Intn(n) }
func Int31() int32                       { return r().Int31() }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int32() int32                       { return r().Int31() }
func Int32N(n int32) int32               { return r().Int31n(n) }
func Int63() int64                       { return r().Int63() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Int64() int64                       { return r().Int63() }
func Int64N(n int64) int64               { return r().Int63n(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }

func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(r().Int63n(int64(n)))
}
