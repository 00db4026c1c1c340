// Package vrand mirrors math/rand/v2; during an exploration every random
// answer is an enumerated choice.
package vrand

import (
	"math/rand/v2"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type (
	Source = rand.Source
	PCG    = rand.PCG
)

var NewPCG = rand.NewPCG

// Rand enumerates its answers like the package functions.
type Rand struct {
	real *rand.Rand
	used int // like the state of a real one, not for unsynchronised use
}

func New(src Source) *Rand { return &Rand{real: rand.New(src)} }

func (x *Rand) IntN(n int) int {
	x.used++
	if !vsched.Active() {
		return x.real.IntN(n)
	}
	return IntN(n)
}

func (x *Rand) Int64N(n int64) int64 { return int64(x.IntN(int(n))) }

func (x *Rand) Float64() float64 {
	x.used++
	if !vsched.Active() {
		return x.real.Float64()
	}
	return [2]float64{0.999999, 0}[vsched.Choose(2)]
}

func (x *Rand) Int() int {
	x.used++
	if !vsched.Active() {
		return x.real.Int()
	}
	return 0
}

func (x *Rand) Uint64() uint64 {
	x.used++
	if !vsched.Active() {
		return x.real.Uint64()
	}
	return 0
}

func (x *Rand) Uint32() uint32 { return uint32(x.Uint64()) }

func (x *Rand) Shuffle(n int, swap func(i, j int)) {
	x.used++
	if !vsched.Active() {
		x.real.Shuffle(n, swap)
		return
	}
	Shuffle(n, swap)
}

func (x *Rand) Perm(n int) []int {
	x.used++
	if !vsched.Active() {
		return x.real.Perm(n)
	}
	return Perm(n)
}

func pick(n int) int {
	if n > 8 {
		return 0
	}
	return vsched.Choose(n)
}

func IntN(n int) int {
	if !vsched.Active() {
		return rand.IntN(n)
	}
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return pick(n)
}

func Int64N(n int64) int64                                { return int64(IntN(int(n))) }
func Int32N(n int32) int32                                { return int32(IntN(int(n))) }
func UintN(n uint) uint                                   { return uint(IntN(int(n))) }
func Uint64N(n uint64) uint64                             { return uint64(IntN(int(n))) }
func Uint32N(n uint32) uint32                             { return uint32(IntN(int(n))) }
func N[T ~int | ~int64 | ~int32 | ~uint | ~uint64](n T) T { return T(IntN(int(n))) }

func Int() int         { return constant(rand.Int) }
func Int64() int64     { return constant(rand.Int64) }
func Uint64() uint64   { return constant(rand.Uint64) }
func Uint32() uint32   { return constant(rand.Uint32) }
func Float64() float64 { return constant(rand.Float64) }

func constant[T any](f func() T) T {
	if !vsched.Active() {
		return f()
	}
	var z T
	return z
}

func Shuffle(n int, swap func(i, j int)) {
	if !vsched.Active() {
		rand.Shuffle(n, swap)
		return
	}
	for i := n - 1; i > 0; i-- {
		j := i - pick(i+1) // choice 0: identity
		swap(i, j)
	}
}

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// The rest of the package, for code that is rewritten to use it.

type (
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

var NewChaCha8 = rand.NewChaCha8

func (x *Rand) Int64() int64            { return int64(x.Uint64() >> 1) }
func (x *Rand) Int32() int32            { return int32(x.Uint64() >> 33) }
func (x *Rand) Uint() uint              { return uint(x.Uint64()) }
func (x *Rand) Int32N(n int32) int32    { return int32(x.IntN(int(n))) }
func (x *Rand) UintN(n uint) uint       { return uint(x.IntN(int(n))) }
func (x *Rand) Uint32N(n uint32) uint32 { return uint32(x.IntN(int(n))) }
func (x *Rand) Uint64N(n uint64) uint64 { return uint64(x.IntN(int(n))) }
func (x *Rand) Float32() float32        { return float32(x.Float64()) }

func Int32() int32         { return constant(rand.Int32) }
func Uint() uint           { return constant(rand.Uint) }
func Float32() float32     { return constant(rand.Float32) }
func NormFloat64() float64 { return constant(rand.NormFloat64) }
func ExpFloat64() float64  { return constant(rand.ExpFloat64) }
