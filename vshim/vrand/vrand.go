// Package vrand stands in for math/rand: every random number is a choice of the explorer.
package vrand

import "vshim/vsched"

// Partial is set when a call could not offer all the values it may return.
var Partial bool

const limit = 5000

// below returns any value in [0, n), or a few typical ones when there are too many.
func below(n uint64) uint64 {
	if vsched.Choose == nil {
		return 0
	}
	if n > 0 && n <= limit {
		return uint64(vsched.Choose(int(n)))
	}
	Partial = true
	if n == 0 { // all 64 bits
		v := []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<63 + 1, 1<<62 + 5, 1<<64 - 7}
		return v[vsched.Choose(len(v))]
	}
	v := []uint64{0, n - 1, 1, n - 2, n / 2, n / 3, 2, 3, n/2 + 1, n / 62 * 61, n/2 - 1}
	return v[vsched.Choose(len(v))]
}

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type Source64 interface {
	Source
	Uint64() uint64
}

type src struct{}

func (src) Int63() int64   { return int64(below(1 << 63)) }
func (src) Seed(int64)     {}
func (src) Uint64() uint64 { return below(0) }

func NewSource(int64) Source { return src{} }

type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func (*Rand) Seed(int64)     {}
func (*Rand) Int63() int64   { return int64(below(1 << 63)) }
func (*Rand) Uint32() uint32 { return uint32(below(1 << 32)) }
func (*Rand) Uint64() uint64 { return below(0) }
func (*Rand) Int31() int32   { return int32(below(1 << 31)) }
func (*Rand) Int() int       { return int(below(1 << 63)) }
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(below(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(below(uint64(n)))
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(below(uint64(n)))
}
func (r *Rand) Float64() float64 {
	Partial = true
	v := []float64{0, 0x1.fffffffffffffp-1, 0.5, 0.25, 0.75, 1e-9}
	return v[below(uint64(len(v)))]
}
func (r *Rand) Float32() float32 {
	Partial = true
	v := []float32{0, 0x1.fffffep-1, 0.5, 0.25, 0.75}
	return v[below(uint64(len(v)))]
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	r.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(below(256))
	}
	return len(p), nil
}

var g Rand

func Seed(int64)                         {}
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g.Read(p) }

// math/rand/v2 names
func IntN(n int) int          { return g.Intn(n) }
func Int64() int64            { return g.Int63() }
func Int32() int32            { return g.Int31() }
func Int64N(n int64) int64    { return g.Int63n(n) }
func Int32N(n int32) int32    { return g.Int31n(n) }
func Uint64N(n uint64) uint64 { return below(n) }
func Uint32N(n uint32) uint32 { return uint32(below(uint64(n))) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(below(uint64(n)))
}
