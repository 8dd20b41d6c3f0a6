// Package fakerand replaces math/rand in native replays.
package fakerand

import (
	"math"

	"github.com/RH12503/Triangula/zzverif/sym"
)

func Float64() float64     { return sym.RandFloat64() }
func Float32() float32     { return float32(sym.RandFloat64()) }
func Intn(n int) int       { return sym.RandIntn(n) }
func Int63n(n int64) int64 { return int64(sym.RandIntn(int(n))) }
func Int31n(n int32) int32 { return int32(sym.RandIntn(int(n))) }
func Uint32() uint32       { return sym.RandUint32() }
func Seed(int64)           {}
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func NormFloat64() float64 { return sym.Float("rnd", -1024, 1024, 256) }
func ExpFloat64() float64  { return sym.Float("rnd", 0, 1024, 256) }
func Int63() int64         { return int64(sym.Int("rndu", 0, math.MaxInt64)) }
func Int() int             { return sym.Int("rndu", 0, math.MaxInt64) }
func Int31() int32         { return int32(sym.Int("rndu", 0, math.MaxInt32)) }

// Rand is a generator of one's own, which draws like the common one.
type Rand struct{}
type Source interface{}

func New(Source) *Rand       { return nil }
func NewSource(int64) Source { return nil }

func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Float32() float32                { return Float32() }
func (*Rand) Intn(n int) int                  { return Intn(n) }
func (*Rand) Int63n(n int64) int64            { return Int63n(n) }
func (*Rand) Int31n(n int32) int32            { return Int31n(n) }
func (*Rand) Uint32() uint32                  { return Uint32() }
func (*Rand) Seed(int64)                      {}
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
func (*Rand) NormFloat64() float64            { return NormFloat64() }
func (*Rand) ExpFloat64() float64             { return ExpFloat64() }
func (*Rand) Int63() int64                    { return Int63() }
func (*Rand) Int() int                        { return Int() }
func (*Rand) Int31() int32                    { return Int31() }
