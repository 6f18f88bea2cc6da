// Package vrand stands in for hack/fastrand in builds of code that draws random
// heights: same functions, but reproducible per case and with a distribution
// that reaches the rare values (long runs of zero bits, all zero, all one).
package vrand

import (
	"math/bits"
	"math/rand/v2"
	"sync"
)

var (
	mu  sync.Mutex
	rng = rand.New(rand.NewPCG(1, 2))
	mod int
)

// Seed starts a new sequence; mode selects the distribution of heights.
func Seed(s uint64, mode int) {
	mu.Lock()
	rng, mod = rand.New(rand.NewPCG(s, 77)), mode
	mu.Unlock()
}

func next() uint64 {
	mu.Lock()
	defer mu.Unlock()
	x := rng.Uint64()
	switch mod {
	case 1: // every number of trailing zeroes equally likely
		k := rng.IntN(64)
		return (x | 1) << k
	case 2: // zero and all-one words are frequent
		switch rng.IntN(3) {
		case 0:
			return 0
		case 1:
			return ^uint64(0)
		}
	case 3: // ever higher
		return (x | 1) << (20 + rng.IntN(12))
	case 4: // trailing zeroes of the halves too
		k := rng.IntN(32)
		return (x | 1<<32 | 1) << k &^ (uint64(rng.Uint32()) & 0xffff << 16)
	}
	return x
}

func get32() uint32 {
	x := next()
	if bits.TrailingZeros64(x) > 31 {
		return uint32(x >> 32)
	}
	return uint32(x)
}

var (
	Uint32 = get32
	Uint64 = next
	Uint   = func() uint { return uint(next()) }
)

func Int() int     { return int(next() >> 1) }
func Int31() int32 { return int32(get32() & (1<<31 - 1)) }
func Int63() int64 { return int64(next() & (1<<63 - 1)) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(next()>>1) % n
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(next()>>33) % n
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(next()>>1) % n
}
func Float64() float64        { return float64(next()>>11) / (1 << 53) }
func Float32() float32        { return float32(get32()>>8) / (1 << 24) }
func Uintn(n uint) uint       { return uint(next()) % n }
func Uint32n(n uint32) uint32 { return uint32(next()>>1) % n }
func Uint64n(n uint64) uint64 { return next() % n }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(next() >> 3)
	}
	return len(p), nil
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := 1; i < n; i++ {
		j := Intn(i + 1)
		m[i], m[j] = m[j], i
	}
	return m
}
