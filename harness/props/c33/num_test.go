// Monitor for C33: extremes and value helpers.
package c33

import (
	"cmp"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// watched is a slice inside a larger array that must stay as it is.
type watched[T any] struct {
	back, copy []T
	s          []T
}

func watch[T any](c *mon.C, vs []T, fill func() T) *watched[T] {
	lead, tail := c.IntN(4), c.IntN(4)
	w := &watched[T]{}
	for i := 0; i < lead; i++ {
		w.back = append(w.back, fill())
	}
	w.back = append(w.back, vs...)
	for i := 0; i < tail; i++ {
		w.back = append(w.back, fill())
	}
	w.copy = append([]T(nil), w.back...)
	w.s = w.back[lead : lead+len(vs)]
	if len(vs) == 0 && c.Chance(2) {
		w.s = nil
	}
	return w
}

func (w *watched[T]) check(c *mon.C, what string, eq func(a, b T) bool) {
	for i := range w.back {
		if !eq(w.back[i], w.copy[i]) {
			c.Violate("%s changed element %d of the array from %v to %v", what, i, w.copy[i], w.back[i])
		}
	}
}

func ordered[T cmp.Ordered](c *mon.C, name string, val func() T) {
	n := c.Size(mon.Pick(c, 4, 30, 30, 500))
	var vs []T
	for i := 0; i < n; i++ {
		if i > 0 && c.Chance(3) {
			vs = append(vs, vs[c.IntN(i)])
		} else {
			vs = append(vs, val())
		}
	}
	if c.Chance(4) { // monotone, or the extreme one at an end
		for i := 1; i < n; i++ {
			for j := i; j > 0 && (vs[j] < vs[j-1]) != (c.Idx%2 == 0); j-- {
				vs[j], vs[j-1] = vs[j-1], vs[j]
			}
			if i > 100 {
				break
			}
		}
	}
	w := watch(c, vs, val)
	eq := func(a, b T) bool { return a == b }
	c.Op("%s %v", name, vs)
	var lo, hi T
	for i, v := range vs {
		if i == 0 || v < lo {
			lo = v
		}
		if i == 0 || v > hi {
			hi = v
		}
	}
	if got := gnumerics.MaxCollection(w.s); got != hi {
		c.Violate("MaxCollection(%v) = %v, want %v", vs, got, hi)
	}
	w.check(c, "MaxCollection", eq)
	if got := gnumerics.MinCollection(w.s); got != lo {
		c.Violate("MinCollection(%v) = %v, want %v", vs, got, lo)
	}
	w.check(c, "MinCollection", eq)
	a, b := val(), val()
	if n > 0 && c.Chance(2) {
		a = vs[0]
		b = vs[n-1]
	}
	if c.Chance(5) {
		b = a
	}
	big, small := a, b
	if a < b {
		big, small = b, a
	}
	if got := gnumerics.Max(a, b); got != big {
		c.Violate("Max(%v, %v) = %v", a, b, got)
	}
	if got := gnumerics.Min(a, b); got != small {
		c.Violate("Min(%v, %v) = %v", a, b, got)
	}
	c.Distinct(name, fmt.Sprint(vs))
	c.SampleTrace()
}

type item struct {
	key int
	tag int
}

type (
	myInt   int
	myFloat float32
	myStr   string
)

// by checks the By forms on elements with equal keys told apart by tags.
func by(c *mon.C) {
	n := c.Size(mon.Pick(c, 5, 30, 30, 500))
	span := mon.Pick(c, 1, 2, 5, 100, math.MaxInt>>23)
	var vs []item
	for i := 0; i < n; i++ {
		vs = append(vs, item{c.IntN(span) - span/2, i + 1})
	}
	w := watch(c, vs, func() item { return item{math.MaxInt >> 13, 0} })
	// a total preorder of the keys
	order := c.IntN(4)
	less := func(a, b item) bool {
		switch order {
		case 0:
			return a.key < b.key
		case 1:
			return a.key > b.key
		case 2:
			return abs(a.key) < abs(b.key)
		}
		return a.key&7 < b.key&7
	}
	c.Op("order %d: %v", order, vs)
	var lo, hi item
	for i, v := range vs {
		if i == 0 || less(v, lo) {
			lo = v
		}
		if i == 0 || less(hi, v) {
			hi = v
		}
	}
	eq := func(a, b item) bool { return a == b }
	if got := gnumerics.MaxBy(w.s, func(a, b item) bool { mon.Beat(); return less(b, a) }); got != hi {
		c.Violate("MaxBy(%v, order %d) = %v, want %v", vs, order, got, hi)
	}
	w.check(c, "MaxBy", eq)
	if got := gnumerics.MinBy(w.s, func(a, b item) bool { return less(a, b) }); got != lo {
		c.Violate("MinBy(%v, order %d) = %v, want %v", vs, order, got, lo)
	}
	w.check(c, "MinBy", eq)
	// pointers and interfaces too: the element itself comes back
	var ps []*item
	var as []any
	for i := range vs {
		ps = append(ps, &vs[i])
		as = append(as, &vs[i])
	}
	if got := gnumerics.MaxBy(ps, func(a, b *item) bool { return less(*b, *a) }); n == 0 && got != nil || n > 0 && got != &vs[hi.tag-1] {
		c.Violate("MaxBy of pointers to %v, order %d = %v, want %v", vs, order, got, hi)
	}
	if got := gnumerics.MinBy(as, func(a, b any) bool { return less(*a.(*item), *b.(*item)) }); n == 0 && got != nil || n > 0 && got != any(&vs[lo.tag-1]) {
		c.Violate("MinBy of interfaces to %v, order %d = %v, want %v", vs, order, got, lo)
	}
	c.Distinct(order, vs)
}

// positions: long collections with the extreme element in one position, and one
// like it behind it.
func positions(c *mon.C) {
	n := c.BigTo(1, 40000, 140000)
	vs := make([]item, n)
	ks := make([]float64, n)
	for i := range vs {
		vs[i] = item{(i * 7919) % 1009, i}
		ks[i] = float64(vs[i].key)
	}
	c.Op("%d elements", n)
	less := func(a, b item) bool { return a.key < b.key }
	more := func(a, b item) bool { return a.key > b.key }
	for _, p := range c.Edges(n) {
		mon.Beat()
		q := p + c.IntN(n-p)
		old, oldq := vs[p].key, vs[q].key
		for _, k := range []int{-5, 5000} {
			vs[p].key, vs[q].key = k, k
			ks[p], ks[q] = float64(k), float64(k)
			if k < 0 {
				if got := gnumerics.MinBy(vs, less); got != vs[p] {
					c.Violate("MinBy of %d elements, the least at %d and %d: %v", n, p, q, got)
				}
				if got := gnumerics.MinCollection(ks); got != ks[p] {
					c.Violate("MinCollection of %d elements, the least at %d and %d: %v", n, p, q, got)
				}
			} else {
				if got := gnumerics.MaxBy(vs, more); got != vs[p] {
					c.Violate("MaxBy of %d elements, the greatest at %d and %d: %v", n, p, q, got)
				}
				if got := gnumerics.MaxCollection(ks); got != ks[p] {
					c.Violate("MaxCollection of %d elements, the greatest at %d and %d: %v", n, p, q, got)
				}
			}
		}
		vs[q].key, ks[q] = oldq, float64(oldq)
		vs[p].key, ks[p] = old, float64(old)
	}
	c.Distinct("positions", n)
}

func abs(x int) int { return max(x, -x) }

func TestNum(t *testing.T) {
	mon.Cases(t, "ordered", mon.Num(60000, 2000000), func(c *mon.C) {
		bits := func() int { return int(c.Uint64() >> c.IntN(64)) }
		pick := func() int {
			return mon.Pick(c, 0, 1, -1, math.MinInt, math.MaxInt, bits(), -bits(), c.IntN(10), c.DictInt())
		}
		fl := func() float64 {
			return mon.Pick(c, 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, c.NormFloat64(), float64(bits()), c.Float64())
		}
		str := func() string {
			return mon.Pick(c, "", "a", "b", "aa", "ab", "\x00", "\xff", "é", strings.Repeat("a", c.IntN(5)), c.DictStr(), string([]byte{byte(bits())}))
		}
		switch c.IntN(14) {
		case 0:
			ordered(c, "int", pick)
		case 1:
			ordered(c, "int8", func() int8 { return int8(pick()) })
		case 2:
			ordered(c, "int16", func() int16 { return int16(pick()) })
		case 3:
			ordered(c, "int32", func() int32 { return int32(pick()) })
		case 4:
			ordered(c, "int64", func() int64 { return int64(pick()) })
		case 5:
			ordered(c, "uint", func() uint { return uint(pick()) })
		case 6:
			ordered(c, "uint8", func() uint8 { return uint8(pick()) })
		case 7:
			ordered(c, "uint64", func() uint64 { return uint64(pick()) })
		case 8:
			ordered(c, "uintptr", func() uintptr { return uintptr(pick()) })
		case 9:
			ordered(c, "float64", fl)
		case 10:
			ordered(c, "float32", func() myFloat { return myFloat(fl()) })
		case 11:
			ordered(c, "string", str)
		case 12:
			ordered(c, "named string", func() myStr { return myStr(str()) })
		case 13:
			ordered(c, "named int", func() myInt { return myInt(pick()) })
		}
	})
	mon.Cases(t, "by", mon.Num(30000, 1000000), by)
	mon.Cases(t, "positions", mon.Num(800, 20000), positions)
}

// value checks the helpers on one value of a comparable type.
func value[T comparable](c *mon.C, v T) {
	var zero T
	c.Op("%T %#v", zero, v)
	same := func(a, b T) bool { return a == b || reflect.DeepEqual(a, b) || a != a && b != b }
	orig := v
	p := gconstraints.ToPtr(v)
	q := gconstraints.ToPtr(v)
	if p == nil || q == nil {
		c.Violate("ToPtr(%#v) = nil", v)
	}
	if unsafe.Sizeof(zero) > 0 && p == q {
		c.Violate("ToPtr(%#v) returned the same pointer twice", v)
	}
	if !same(*p, v) || !same(gconstraints.ToValue(p), v) {
		c.Violate("ToPtr(%#v) points to %#v, ToValue gives %#v", v, *p, gconstraints.ToValue(p))
	}
	*p = zero
	if !same(*q, orig) || !same(v, orig) {
		c.Violate("writing to the pointer to %#v changed another", orig)
	}
	if got := gconstraints.ToValue(p); !same(got, zero) {
		c.Violate("ToValue after writing the zero value = %#v", got)
	}
	if got := gconstraints.ToValue[T](nil); got != zero {
		c.Violate("ToValue(nil) = %#v of %T", got, zero)
	}
	if got := gconstraints.Empty[T](); got != zero {
		c.Violate("Empty = %#v of %T", got, zero)
	}
	for _, x := range []T{v, zero} {
		e := x == zero
		if gconstraints.IsEmpty(x) != e || gconstraints.IsNotEmpty(x) == e {
			c.Violate("IsEmpty(%#v) = %v, IsNotEmpty = %v", x, gconstraints.IsEmpty(x), gconstraints.IsNotEmpty(x))
		}
	}
	pack(c, v, "x")
	pack(c, v, v)
	pack(c, []int{1}, v)
	pack(c, error(nil), v)
	c.Distinct(fmt.Sprintf("%T %#v", zero, v))
}

func pack[K, V any](c *mon.C, k K, v V) {
	p := gconstraints.Pack(k, v)
	p2 := p
	a, b := p2.Unpack()
	if fmt.Sprintf("%#v", a) != fmt.Sprintf("%#v", k) || fmt.Sprintf("%#v", b) != fmt.Sprintf("%#v", v) {
		c.Violate("Pack(%#v, %#v).Unpack() = %#v, %#v", k, v, a, b)
	}
	a, b = p.Unpack()
	if fmt.Sprintf("%#v", a) != fmt.Sprintf("%#v", k) || fmt.Sprintf("%#v", b) != fmt.Sprintf("%#v", v) {
		c.Violate("Pack(%#v, %#v).Unpack(), again = %#v, %#v", k, v, a, b)
	}
}

type big struct {
	a [20]int
	s string
	f float64
}

func TestValue(t *testing.T) {
	mon.Cases(t, "value", mon.Num(40000, 1000000), func(c *mon.C) {
		n := mon.Pick(c, 0, 0, 1, -1, c.IntN(1000), int(c.Uint64()), math.MaxInt, 256, math.MaxInt>>31, 1<<16, math.MinInt)
		f := mon.Pick(c, 0, math.Copysign(0, -1), 1, math.NaN(), math.Inf(1), c.NormFloat64(), math.SmallestNonzeroFloat64)
		s := mon.Pick(c, "", "", "a", " ", "\x00", "0", c.DictStr())
		x := n
		switch c.IntN(18) {
		case 0:
			value(c, n)
		case 1:
			value(c, int8(n))
		case 2:
			value(c, uint32(n))
		case 3:
			value(c, f)
		case 4:
			value(c, float32(f))
		case 5:
			value(c, s)
		case 6:
			value(c, n%2 == 0)
		case 7:
			value(c, [3]int{0, 0, n})
		case 8:
			b := big{s: s, f: f}
			b.a[19] = n
			value(c, b)
		case 9:
			value(c, mon.Pick(c, nil, &x))
		case 10:
			value(c, mon.Pick[any](c, nil, n, s, f, 0, "", false, &x, struct{}{}, (*int)(nil), error(nil)))
		case 11:
			value(c, mon.Pick[error](c, nil, fmt.Errorf("%d", n)))
		case 12:
			value(c, struct{}{})
		case 13:
			value(c, complex(f, float64(n)))
		case 14:
			value(c, mon.Pick(c, nil, make(chan int)))
		case 15:
			value(c, uintptr(n))
		case 16:
			value(c, myStr(s))
		case 17:
			value(c, rune(n))
		}
	})
	// values that cannot be compared: pointers and pairs only
	mon.Cases(t, "reference", mon.Num(6000, 200000), func(c *mon.C) {
		s := make([]int, c.IntN(5))
		p := gconstraints.ToPtr(s)
		if len(*p) != len(s) || cap(*p) != cap(s) || unsafe.SliceData(*p) != unsafe.SliceData(s) {
			c.Violate("ToPtr of a slice gives another slice")
		}
		if v := gconstraints.ToValue[[]int](nil); v != nil {
			c.Violate("ToValue(nil) = %#v", v)
		}
		if v := gconstraints.ToValue(p); len(v) != len(s) || unsafe.SliceData(v) != unsafe.SliceData(s) {
			c.Violate("ToValue gives another slice")
		}
		m := map[string]int{"a": c.IntN(9)}
		f := func() int { return m["a"] }
		a, b := gconstraints.Pack(m, f).Unpack()
		m["a"]++
		if a["a"] != m["a"] || b() != m["a"] {
			c.Violate("an unpacked map or function is not the one packed")
		}
		x, y := gconstraints.Pack(s, p).Unpack()
		if unsafe.SliceData(x) != unsafe.SliceData(s) || y != p || len(x) != len(s) || cap(x) != cap(s) {
			c.Violate("an unpacked slice or pointer is not the one packed")
		}
		if gconstraints.Empty[func()]() != nil || gconstraints.Empty[map[int]int]() != nil {
			c.Violate("Empty is not nil")
		}
		c.Distinct(len(s), m["a"])
	})
}
