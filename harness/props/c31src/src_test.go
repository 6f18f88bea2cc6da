// Monitor for C31 with a hostile source: the generators Uint32 and Uint64 are
// replaced by ones that give extreme values first, so that ranges are judged at
// the ends a random source practically never reaches.
package c31src

import (
	"math"
	"math/bits"
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

func word(c *mon.C, n uint64) uint64 {
	switch c.IntN(8) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return math.MaxUint64 >> c.IntN(64)
	case 3:
		return 1<<c.IntN(64) + uint64(c.IntN(5)) - 2
	case 4: // near multiples of n
		return n*c.Uint64N(max(1, math.MaxUint64/n)) + uint64(c.IntN(3)) - 1
	case 5:
		return math.MaxUint64 - math.MaxUint64%n + uint64(c.IntN(3)) - 1
	case 6:
		return math.MaxInt64 - (1<<63)%n + uint64(c.IntN(3)) - 1
	}
	return c.Uint64() >> c.IntN(64)
}

func TestSource(t *testing.T) {
	u32, u64 := fastrand.Uint32, fastrand.Uint64
	defer func() { fastrand.Uint32, fastrand.Uint64 = u32, u64 }()
	mon.Cases(t, "source", mon.Num(200000, 8000000), func(c *mon.C) {
		max := mon.Pick[uint64](c, math.MaxInt32, math.MaxInt64)
		n := 1 + c.Uint64N(max)>>c.IntN(63)
		switch c.IntN(4) {
		case 0:
			n = 1 << c.IntN(bits.Len64(max))
		case 1:
			n = max - uint64(c.IntN(3))
		case 2:
			n = mon.Pick[uint64](c, 3<<29, 1<<30+1, 1<<31-1, 1<<31-2, 5)
		}
		n = 1 + (n-1)%max
		left := c.IntN(6)
		var given []uint64
		draw := func() uint64 {
			w := c.Uint64()
			if left > 0 {
				left--
				w = word(c, n)
			}
			given = append(given, w)
			if len(given) > 10000 {
				c.Violate("n = %d: 10000 numbers of the source rejected", n)
			}
			return w
		}
		fastrand.Uint64 = draw
		fastrand.Uint32 = func() uint32 {
			w := draw()
			if w > math.MaxUint32 && c.Chance(2) {
				return uint32(w >> 32)
			}
			return uint32(w)
		}
		var name string
		var v uint64
		var f float64 = 0.5
		switch k := c.IntN(12); {
		case k == 0:
			name, n = "Float64", 1
			f = fastrand.Float64()
		case k == 1:
			name, n = "Float32", 1
			f = float64(fastrand.Float32())
		case k == 2:
			name, n = "Int", 1<<63
			v = uint64(fastrand.Int())
		case k == 3:
			name, n = "Int31", 1<<31
			v = uint64(int64(fastrand.Int31()))
		case k == 4:
			name, n = "Int63", 1<<63
			v = uint64(fastrand.Int63())
		case k == 5:
			name = "Uint64n"
			v = fastrand.Uint64n(n)
		case k == 6 && n <= math.MaxUint32:
			name = "Uint32n"
			v = uint64(fastrand.Uint32n(uint32(n)))
		case k == 7 && n <= math.MaxInt32:
			name = "Int31n"
			v = uint64(int64(fastrand.Int31n(int32(n))))
		case k < 10:
			name = "Int63n"
			v = uint64(fastrand.Int63n(int64(n)))
		default:
			name = "Intn"
			v = uint64(fastrand.Intn(int(n)))
		}
		c.Op("%s, n = %d, source gives %#x", name, n, given)
		if v >= n || !(f >= 0 && f < 1) {
			c.Violate("%s, n = %d, with a source giving %#x: %d (%v)", name, n, given, v, f)
		}
		c.Distinct(name, n, given)
		c.SampleTrace()
	})
	mon.Cases(t, "orders", mon.Num(20000, 500000), func(c *mon.C) {
		n := c.IntN(12)
		mode := c.IntN(4)
		draw := func() uint64 {
			switch {
			case mode == 0 && c.Chance(2):
				return 0
			case mode == 1 && c.Chance(2):
				return math.MaxUint64
			}
			return c.Uint64()
		}
		fastrand.Uint64 = draw
		fastrand.Uint32 = func() uint32 { return uint32(draw()) }
		p := fastrand.Perm(n)
		q := make([]int, n)
		for i := range q {
			q[i] = i
		}
		fastrand.Shuffle(n, func(i, j int) { q[i], q[j] = q[j], q[i] })
		for _, x := range [][]int{p, q} {
			seen := make([]bool, n)
			for _, v := range x {
				if v < 0 || v >= n || seen[v] {
					c.Violate("not a permutation: Perm(%d) = %v, Shuffle %v", n, p, q)
				}
				seen[v] = true
			}
			if len(x) != n {
				c.Violate("Perm(%d) = %v", n, p)
			}
		}
		c.Distinct(p, q)
	})
}
