// Monitors for C31: ranges, bias, permutations, Read.
package c31

import (
	"fmt"
	"math"
	"math/bits"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// bounded functions, seen as uint64 -> uint64
type bounded struct {
	name  string
	max   uint64 // largest n
	f     func(n uint64) (v uint64, neg bool)
	exact bool // documented as unbiased for every n (not only small ones)
}

var bounds = []bounded{
	{"Int31n", math.MaxInt32, func(n uint64) (uint64, bool) { v := fastrand.Int31n(int32(n)); return uint64(v), v < 0 }, true},
	{"Int63n", math.MaxInt64, func(n uint64) (uint64, bool) { v := fastrand.Int63n(int64(n)); return uint64(v), v < 0 }, true},
	{"Intn", math.MaxInt, func(n uint64) (uint64, bool) { v := fastrand.Intn(int(n)); return uint64(v), v < 0 }, true},
	{"Uintn", math.MaxUint, func(n uint64) (uint64, bool) { return uint64(fastrand.Uintn(uint(n))), false }, false},
	{"Uint32n", math.MaxUint32, func(n uint64) (uint64, bool) { return uint64(fastrand.Uint32n(uint32(n))), false }, false},
	{"Uint64n", math.MaxUint64, func(n uint64) (uint64, bool) { return fastrand.Uint64n(n), false }, false},
}

func anyBound(c *mon.C, max uint64) uint64 {
	switch c.IntN(7) {
	case 0:
		return 1 + c.Uint64N(min(max, 100))
	case 1:
		return 1 << c.IntN(bits.Len64(max))
	case 2:
		n := uint64(1)<<c.IntN(bits.Len64(max)) + uint64(c.IntN(3)) - 1
		return min(n+1-min(1, n), max)
	case 3:
		return max - c.Uint64N(3)
	case 4:
		if n := mon.Pick[uint64](c, 1<<31-1, 1<<31, 1<<31+1, 1<<32-1, 1<<32, 1<<32+1, 1<<33, 3<<29, 3<<30, 3<<60); n <= max {
			return n
		}
	case 5:
		if n := uint64(c.DictInt()); n > 0 && n <= max {
			return n
		}
	}
	return 1 + c.Uint64N(max)>>c.IntN(60)%max
}

// chi is the chi-squared statistic of the counts against equal expectation and
// the bound it exceeds with probability below e^-60 (Laurent-Massart).
func chi(counts []int) (x, limit float64) {
	n := 0
	for _, v := range counts {
		n += v
	}
	e := float64(n) / float64(len(counts))
	for _, v := range counts {
		x += (float64(v) - e) * (float64(v) - e) / e
	}
	k := float64(len(counts) - 1)
	return x, k + 2*math.Sqrt(k*60) + 120
}

func even(c *mon.C, what string, counts []int) {
	if x, limit := chi(counts); x > limit {
		c.Violate("%s: the values are far from equally likely (chi squared %.0f, limit %.0f): %v", what, x, limit, counts)
	}
}

func TestRange(t *testing.T) {
	mon.Cases(t, "range", mon.Num(40000, 2000000), func(c *mon.C) {
		b := bounds[c.Idx%len(bounds)]
		n := anyBound(c, b.max)
		c.Op("%s(%d)", b.name, n)
		for i := 0; i < 60; i++ {
			if v, neg := b.f(n); neg || v >= n {
				c.Violate("%s(%d) = %d", b.name, n, v)
			}
		}
		mon.Count("bounded values", 60)
		c.Distinct(b.name, n)
	})
	// every value of small ranges, evenly
	mon.Cases(t, "small", mon.Num(2400, 100000), func(c *mon.C) {
		b := bounds[c.Idx%len(bounds)]
		n := 1 + c.Idx/len(bounds)%64
		if c.Idx/len(bounds) >= 128 {
			n = 1 + c.Size(300)
		}
		per := mon.Pick(c, 250, 1000)
		c.Op("%s(%d), %d times", b.name, n, per*n)
		counts := make([]int, n)
		for i := 0; i < per*n; i++ {
			v, neg := b.f(uint64(n))
			if neg || v >= uint64(n) {
				c.Violate("%s(%d) = %d", b.name, n, v)
			}
			counts[v]++
			if i%1000 == 0 {
				mon.Beat()
			}
		}
		for v, k := range counts {
			if k == 0 {
				c.Violate("%s(%d) was never %d in %d calls", b.name, n, v, per*n)
			}
		}
		even(c, fmt.Sprintf("%s(%d)", b.name, n), counts)
		// no value follows from the one before (in the parts of the range)
		mon.Count("small values", per*n)
		c.Distinct(b.name, n, per)
		c.SampleTrace()
	})
	// the parts of large ranges
	mon.Cases(t, "large", mon.Num(900, 50000), func(c *mon.C) {
		b := bounds[c.Idx%3]
		n := anyBound(c, b.max)
		if n < 1000 {
			n = b.max - n
		}
		const k = 8
		counts := make([]int, k)
		low := make([]int, k)
		c.Op("%s(%d) 4000 times", b.name, n)
		for i := 0; i < 4000; i++ {
			v, neg := b.f(n)
			if neg || v >= n {
				c.Violate("%s(%d) = %d", b.name, n, v)
			}
			hi, lo := bits.Mul64(v, k)
			q, _ := bits.Div64(hi, lo, n)
			counts[q]++
			low[v%k]++
		}
		even(c, fmt.Sprintf("%s(%d) by eighths of the range", b.name, n), counts)
		if n > 100000 {
			even(c, fmt.Sprintf("%s(%d) by low bits", b.name, n), low)
		}
		c.Distinct(b.name, n)
	})
	mon.Cases(t, "invalid", mon.Num(3000, 60000), func(c *mon.C) {
		n := mon.Pick(c, 0, -1, math.MinInt, math.MinInt32, -1<<31+1, -c.IntN(1000), -1-int(uint(c.Uint64())>>1))
		n32 := int32(mon.Pick(c, 0, -1, math.MinInt32, -c.IntN(1000), -1-int(c.Uint32()>>1)))
		for name, f := range map[string]func(){
			"Int63n":  func() { fastrand.Int63n(int64(n)) },
			"Intn":    func() { fastrand.Intn(n) },
			"Int31n":  func() { fastrand.Int31n(n32) },
			"Shuffle": func() { fastrand.Shuffle(min(n, -1), func(i, j int) {}) },
		} {
			c.Op("%s(%d or %d)", name, n, n32)
			if _, ok := mon.Try(f); ok {
				c.Violate("%s(%d or %d) does not panic", name, n, n32)
			}
		}
		c.Distinct(n, n32)
	})
}

// unbounded ones, with the number of bits that must vary
type free struct {
	name string
	bits int
	f    func() (v uint64, neg bool)
}

var frees = []free{
	{"Uint32", 32, func() (uint64, bool) { return uint64(fastrand.Uint32()), false }},
	{"Uint64", 64, func() (uint64, bool) { return fastrand.Uint64(), false }},
	{"Uint", bits.UintSize, func() (uint64, bool) { return uint64(fastrand.Uint()), false }},
	{"Int", bits.UintSize - 1, func() (uint64, bool) { v := fastrand.Int(); return uint64(v), v < 0 }},
	{"Int31", 31, func() (uint64, bool) { v := fastrand.Int31(); return uint64(v), v < 0 }},
	{"Int63", 63, func() (uint64, bool) { v := fastrand.Int63(); return uint64(v), v < 0 }},
}

func TestFree(t *testing.T) {
	mon.Cases(t, "unbounded", mon.Num(3000, 100000), func(c *mon.C) {
		g := frees[c.Idx%len(frees)]
		n := 256
		if c.Chance(10) {
			n = 4096
		}
		var ones, pair [64]int
		var first, or, and uint64
		and = math.MaxUint64
		prev := uint64(0)
		for i := 0; i < n; i++ {
			v, neg := g.f()
			if neg || g.bits < 64 && v>>g.bits != 0 {
				c.Violate("%s() = %d (%#x)", g.name, int64(v), v)
			}
			if i == 0 {
				first = v
			}
			or |= v
			and &= v
			for b := 0; b < g.bits; b++ {
				ones[b] += int(v >> b & 1)
				pair[b] += int((v ^ prev) >> b & 1)
			}
			prev = v
		}
		all := uint64(math.MaxUint64) >> (64 - g.bits)
		if or != all || and != 0 {
			c.Violate("%s(): some bit did not vary in %d calls: never set %#x, always set %#x", g.name, n, all&^or, and)
		}
		// each bit is set and changes in about half of the calls (12 sigma)
		d := 6 * math.Sqrt(float64(n))
		for b := 0; b < g.bits; b++ {
			if math.Abs(float64(ones[b])-float64(n)/2) > d {
				c.Violate("%s(): bit %d was set in %d of %d calls", g.name, b, ones[b], n)
			}
			if math.Abs(float64(pair[b])-float64(n)/2) > d+1 {
				c.Violate("%s(): bit %d changed in %d of %d calls", g.name, b, pair[b], n)
			}
		}
		c.Distinct(g.name, first)
		mon.Count("unbounded values", n)
	})
	mon.Cases(t, "float", mon.Num(600, 20000), func(c *mon.C) {
		counts64, counts32 := make([]int, 16), make([]int, 16)
		d64, d32 := map[float64]bool{}, map[float32]bool{}
		var low64, low32 [16]int // the last digits of the grid vary too
		for i := 0; i < 4000; i++ {
			a, b := fastrand.Float64(), fastrand.Float32()
			if !(a >= 0 && a < 1) {
				c.Violate("Float64() = %v", a)
			}
			if !(b >= 0 && b < 1) {
				c.Violate("Float32() = %v", b)
			}
			counts64[int(a*16)]++
			counts32[int(b*16)]++
			low64[int(a*(1<<24))&15]++
			low32[int(b*(1<<16))&15]++
			d64[a] = true
			d32[b] = true
		}
		even(c, "Float64 by sixteenths", counts64)
		even(c, "Float32 by sixteenths", counts32)
		even(c, "Float64 by bits 20-24", low64[:])
		even(c, "Float32 by bits 12-16", low32[:])
		// 2^24 values of Float32: 4000 draws repeat one less than once on average
		if len(d64) < 3900 || len(d32) < 3900 {
			c.Violate("4000 draws gave only %d Float64 and %d Float32 values", len(d64), len(d32))
		}
		mon.Count("floats", 8000)
		c.Distinct(len(hash(d64)), hash(d64))
	})
}

func hash(m map[float64]bool) string {
	s := 0.0
	for v := range m {
		s += v
	}
	return fmt.Sprint(s)
}

func factorial(n int) int {
	f := 1
	for ; n > 1; n-- {
		f *= n
	}
	return f
}

// rank numbers the permutations of 0..n-1.
func rank(p []int) int {
	r := 0
	for i := range p {
		less := 0
		for _, v := range p[i+1:] {
			if v < p[i] {
				less++
			}
		}
		r = r*(len(p)-i) + less
	}
	return r
}

func isPerm(p []int) bool {
	seen := make([]bool, len(p))
	for _, v := range p {
		if v < 0 || v >= len(p) || seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}

func shuffled(c *mon.C, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	fastrand.Shuffle(n, func(i, j int) {
		if i < 0 || i >= n || j < 0 || j >= n {
			c.Violate("Shuffle(%d) swaps %d and %d", n, i, j)
		}
		p[i], p[j] = p[j], p[i]
	})
	return p
}

var perms mon.Ledger[int]

func TestPerm(t *testing.T) {
	mon.Cases(t, "permutation", mon.Num(12000, 500000), func(c *mon.C) {
		n := c.Idx % 40
		if c.Idx > 400 {
			n = c.Size(mon.Pick(c, 50, 300, 3000))
		}
		c.Op("%d", n)
		p := fastrand.Perm(n)
		if len(p) != n || !isPerm(p) {
			c.Violate("Perm(%d) = %v", n, p)
		}
		q := shuffled(c, n)
		if !isPerm(q) {
			c.Violate("Shuffle(%d) gives %v", n, q)
		}
		if c.Chance(2) {
			for i := range p { // the result is the caller's
				p[i] = -1
			}
		} else {
			perms.Keep(c, "Perm", p, -1)
		}
		if n >= 30 {
			id := func(p []int) bool {
				for i, v := range p {
					if i != v {
						return false
					}
				}
				return true
			}
			r := fastrand.Perm(n)
			if id(r) || id(q) {
				c.Violate("n = %d: the identity", n) // 1/30!
			}
		}
		c.Distinct(n, q)
	})
	mon.Cases(t, "orders", mon.Num(160, 5000), func(c *mon.C) {
		n := 1 + c.Idx/2%5
		if c.Idx >= 100 {
			n = 6
		}
		f := factorial(n)
		per := mon.Pick(c, 250, 500)
		counts := make([]int, f)
		for i := 0; i < per*f; i++ {
			var p []int
			if c.Idx%2 == 0 {
				p = fastrand.Perm(n)
			} else {
				p = shuffled(c, n)
			}
			counts[rank(p)]++
			if i%1000 == 0 {
				mon.Beat()
			}
		}
		what := []string{"Perm", "Shuffle"}[c.Idx%2]
		for r, k := range counts {
			if k == 0 {
				c.Violate("%s(%d) never gave order %d in %d calls", what, n, r, per*f)
			}
		}
		even(c, fmt.Sprintf("%s(%d) by orders", what, n), counts)
		mon.Count("orders", per*f)
		c.Distinct(what, n, counts)
	})
	// larger ones: every element can get everywhere
	mon.Cases(t, "places", mon.Num(40, 1000), func(c *mon.C) {
		n := 7 + c.IntN(30)
		counts := make([]int, n*n)
		for i := 0; i < 300*n; i++ {
			var p []int
			if c.Idx%2 == 0 {
				p = fastrand.Perm(n)
			} else {
				p = shuffled(c, n)
			}
			for i, v := range p {
				counts[i*n+v]++
			}
			mon.Beat()
		}
		for i := 0; i < n; i++ {
			even(c, fmt.Sprintf("element at place %d of %d (Perm on even cases, Shuffle on odd ones)", i, n), counts[i*n:i*n+n])
		}
		c.Distinct(n, counts)
	})
	// much larger ones: every sixteenth of the elements in every sixteenth of the places
	mon.Cases(t, "regions", mon.Num(60, 3000), func(c *mon.C) {
		const k = 16
		n := k * (8<<c.IntN(10) + c.IntN(8<<c.IntN(10)))
		if big := c.Big(100, 100000); big > 0 {
			n = k * (1 + big/k)
		}
		counts := make([]int, k*k)
		for i := 0; i < 4+40000/n; i++ {
			var p []int
			if c.Idx%2 == 0 {
				p = fastrand.Perm(n)
			} else {
				p = shuffled(c, n)
			}
			for i, v := range p {
				counts[i/(n/k)*k+v/(n/k)]++
			}
			mon.Beat()
		}
		what := []string{"Perm", "Shuffle"}[c.Idx%2]
		for i := 0; i < k; i++ {
			even(c, fmt.Sprintf("sixteenths of the elements in sixteenth %d of the places of %s(%d)", i, what, n), counts[i*k:i*k+k])
		}
		c.Distinct(what, n, counts)
	})
}

func TestRead(t *testing.T) {
	mon.Cases(t, "read", mon.Num(4000, 150000), func(c *mon.C) {
		n := c.Idx % 70
		if c.Idx >= 700 {
			n = c.Size(mon.Pick(c, 64, 300, 300, 5000))
		}
		lead := c.IntN(17)
		tail := c.IntN(40)
		back := make([]byte, lead+n+tail)
		for i := range back {
			back[i] = byte(c.Uint32())
		}
		orig := append([]byte(nil), back...)
		p := back[lead : lead+n]
		if c.Chance(2) {
			p = back[lead : lead+n : lead+n]
		}
		if n == 0 && c.Chance(2) {
			p = nil
		}
		c.Op("Read of %d bytes at %d of %d", n, lead, len(back))
		or, and := make([]byte, n), make([]byte, n)
		for i := range and {
			and[i] = 0xff
		}
		sum := make([]int, n*8)
		reps := 128
		if n > 1000 {
			reps = 96
		}
		var history [3][]byte
		for r := 0; r < reps; r++ {
			k, err := fastrand.Read(p)
			if k != n || err != nil {
				c.Violate("Read of %d bytes = %d, %v", n, k, err)
			}
			for i := 0; i < lead; i++ {
				if back[i] != orig[i] {
					c.Violate("Read wrote %d bytes before its slice of %d", lead-i, n)
				}
			}
			for i := lead + n; i < len(back); i++ {
				if back[i] != orig[i] {
					c.Violate("Read wrote %d bytes behind its slice of %d", i-lead-n+1, n)
				}
			}
			for i, b := range p {
				or[i] |= b
				and[i] &= b
				for k := 0; k < 8; k++ {
					sum[i*8+k] += int(b >> k & 1)
				}
			}
			history[r%3] = append(history[r%3][:0], p...)
			if n >= 8 && r >= 2 && string(history[0]) == string(history[1]) && string(history[1]) == string(history[2]) {
				c.Violate("three Reads of %d bytes gave the same", n)
			}
			if n >= 16 {
				words := map[string]int{}
				for i := 0; i+8 <= n; i += 8 {
					w := string(p[i : i+8])
					if j, ok := words[w]; ok {
						c.Violate("Read of %d bytes: the words at %d and %d are the same", n, j, i)
					}
					words[w] = i
				}
			}
		}
		for i := range or {
			if or[i] != 0xff || and[i] != 0 {
				c.Violate("Read of %d bytes: byte %d did not vary in all bits in %d reads: ever set %08b, always set %08b", n, i, reps, or[i], and[i])
			}
			for k := 0; k < 8; k++ {
				if d := math.Abs(float64(sum[i*8+k]) - float64(reps)/2); d > 6*math.Sqrt(float64(reps)) {
					c.Violate("Read of %d bytes: bit %d of byte %d was set in %d of %d reads", n, k, i, sum[i*8+k], reps)
				}
			}
		}
		mon.Count("reads", reps)
		c.Distinct(n, lead, tail)
	})
	// the bytes within one read are evenly spread, also at the end
	mon.Cases(t, "bytes", mon.Num(60, 2000), func(c *mon.C) {
		n := 1 + c.IntN(40)
		counts := make([]int, 256)
		p := make([]byte, n)
		for i := 0; i < 60000/n; i++ {
			fastrand.Read(p)
			for _, b := range p {
				counts[b]++
			}
		}
		even(c, fmt.Sprintf("bytes of Reads of %d", n), counts)
		// the last byte is not a function of its neighbour
		if n > 1 {
			eq := 0
			for i := 0; i < 2000; i++ {
				fastrand.Read(p)
				if p[n-1] == p[n-2] {
					eq++
				}
			}
			if eq > 200 { // 8 expected
				c.Violate("the last two bytes of Reads of %d are the same in %d of 2000", n, eq)
			}
		}
		c.Distinct(n, counts)
	})
}

func TestParallel(t *testing.T) {
	mon.Cases(t, "parallel", mon.Num(30, 1000), func(c *mon.C) {
		const G = 6
		var wg sync.WaitGroup
		vals := make([][]uint64, G)
		for g := 0; g < G; g++ {
			wg.Add(1)
			r := mon.NewRand(c.Uint64())
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					buf := make([]byte, 64)
					for i := 0; i < 300; i++ {
						mon.Beat()
						vals[g] = append(vals[g], fastrand.Uint64(), uint64(fastrand.Int63()))
						fastrand.Uint32()
						fastrand.Uint()
						fastrand.Int()
						fastrand.Int31()
						if f := fastrand.Float64(); !(f >= 0 && f < 1) {
							c.Violate("Float64() = %v", f)
						}
						if f := fastrand.Float32(); !(f >= 0 && f < 1) {
							c.Violate("Float32() = %v", f)
						}
						b := bounds[r.IntN(len(bounds))]
						n := 1 + r.Uint64N(b.max)>>r.IntN(60)%b.max
						if v, neg := b.f(n); neg || v >= n {
							c.Violate("%s(%d) = %d", b.name, n, v)
						}
						k := r.IntN(20)
						if p := fastrand.Perm(k); len(p) != k || !isPerm(p) {
							c.Violate("Perm(%d) = %v", k, p)
						}
						if p := shuffled(c, k); !isPerm(p) {
							c.Violate("Shuffle(%d) gives %v", k, p)
						}
						a := r.IntN(10)
						e := a + r.IntN(50)
						for i := range buf {
							buf[i] = byte(i)
						}
						if k, err := fastrand.Read(buf[a:e]); k != e-a || err != nil {
							c.Violate("Read of %d bytes = %d, %v", e-a, k, err)
						}
						for i := range buf {
							if (i < a || i >= e) && buf[i] != byte(i) {
								c.Violate("Read of buf[%d:%d] wrote byte %d", a, e, i)
							}
						}
					}
				})
			}()
		}
		wg.Wait()
		seen := map[uint64]bool{}
		for _, vs := range vals {
			for _, v := range vs {
				if seen[v] {
					c.Violate("the 64-bit value %#x came twice in %d draws", v, G*600)
				}
				seen[v] = true
			}
		}
		mon.Count("parallel draws", G*600)
		c.Distinct(vals[0][0], vals[0][1])
	})
}
