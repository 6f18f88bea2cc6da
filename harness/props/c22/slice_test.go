// Monitor for C22: slice helpers against linear definitions, with the whole
// backing arrays of the inputs watched.
package c22

import (
	"fmt"
	"math"
	"slices"
	"testing"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type kind[T comparable] struct {
	name string
	gen  func(c *mon.C, n int) T
}

// input is a slice inside a larger array.
type input[T comparable] struct {
	s    []T
	all  []T // the whole array
	copy []T
}

func same[T comparable](a, b T) bool { return a == b || a != a && b != b }

func (k kind[T]) make(c *mon.C) *input[T] {
	if c.Chance(10) {
		return &input[T]{}
	}
	n := c.Size(30)
	if c.Chance(60) {
		n = 200 + c.IntN(2000)
	}
	if huge := c.BigTo(1000, 40000, 140000); huge > 0 {
		n = huge
	}
	pre, post := c.IntN(3), c.IntN(8)
	if c.Chance(4) {
		post = n + c.IntN(10)
	}
	rng := 1 + c.Size(20)
	in := &input[T]{all: make([]T, pre+n+post)}
	for i := range in.all {
		in.all[i] = k.gen(c, rng)
	}
	in.copy = slices.Clone(in.all)
	in.s = in.all[pre : pre+n]
	if c.Chance(3) {
		in.s = in.all[pre : pre+n : pre+n]
	}
	return in
}

func (in *input[T]) unchanged(c *mon.C, after string) {
	for i := range in.all {
		if !same(in.all[i], in.copy[i]) {
			c.Violate("%s changed its input's array at %d (slice of %d, capacity %d): %v, was %v", after, i, len(in.s), cap(in.s), in.all[i], in.copy[i])
		}
	}
}

func (in *input[T]) String() string {
	return fmt.Sprintf("%v (len %d, cap %d)", in.s[:min(len(in.s), 40)], len(in.s), cap(in.s))
}

func overlap[T any](a, b []T) bool {
	if cap(a) == 0 || cap(b) == 0 || unsafe.Sizeof(a[:1][0]) == 0 {
		return false
	}
	sz := unsafe.Sizeof(a[:1][0])
	a0, b0 := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return a0 < b0+uintptr(cap(b))*sz && b0 < a0+uintptr(cap(a))*sz
}

// fresh checks a result that must be a new slice with the wanted elements.
func fresh[T comparable](c *mon.C, what string, got, want []T, ins ...*input[T]) {
	if len(got) != len(want) {
		c.Violate("%s has %d elements, want %d: %v, want %v", what, len(got), len(want), clip(got), clip(want))
	}
	for i := range got {
		if !same(got[i], want[i]) {
			c.Violate("%s[%d] = %v, want %v", what, i, got[i], want[i])
		}
	}
	for _, in := range ins {
		in.unchanged(c, what)
		if overlap(got, in.all) {
			c.Violate("%s shares storage with its input %v", what, in)
		}
	}
	// use it as one's own, spare capacity included
	var zero T
	full := got[:cap(got)]
	for i := range full {
		full[i] = zero
	}
	for _, in := range ins {
		in.unchanged(c, "writing to the result of "+what)
	}
}

func clip[T any](s []T) []T { return s[:min(len(s), 40)] }

func (k kind[T]) run(c *mon.C) {
	a, b := k.make(c), k.make(c)
	if c.Chance(3) { // near copies
		b.s = slices.Clone(a.s)
		if len(b.s) > 0 && c.Chance(2) {
			b.s[c.IntN(len(b.s))] = k.gen(c, 20)
		}
		b.all, b.copy = b.s, slices.Clone(b.s)
	}
	c.Op("%s: %v and %v", k.name, a, b)
	n := len(a.s)
	if got := gslice.Len(a.s); got != n {
		c.Violate("Len = %d, want %d", got, n)
	}
	fresh(c, "Copy", gslice.Copy(a.s), a.s, a)
	want := append(slices.Clone(a.s), b.s...)
	m1 := gslice.Merge(a.s, b.s)
	m2 := gslice.Merge(a.s, a.s)
	fresh(c, "second Merge", m2, append(slices.Clone(a.s), a.s...), a)
	fresh(c, "Merge", m1, want, a, b)

	var uniq []T
	for i, v := range a.s {
		first := true
		for _, w := range a.s[:min(i, 300)] {
			if w == v {
				first = false
				break
			}
		}
		if first && i > 300 {
			first = !slices.Contains(a.s[:i], v)
		}
		if first {
			uniq = append(uniq, v)
		}
	}
	got, cnt := gslice.Unique(a.s)
	if cnt != len(uniq) {
		c.Violate("Unique counts %d elements, want %d", cnt, len(uniq))
	}
	fresh(c, "Unique", got, uniq, a)

	mod := 1 + c.IntN(6)
	key := func(v T) int { return len(fmt.Sprint(v)) % mod }
	var uf []T
	seen := map[int]bool{}
	for _, v := range a.s {
		if kk := key(v); !seen[kk] {
			seen[kk] = true
			uf = append(uf, v)
		}
	}
	got, cnt = gslice.UniqueWithFunc(a.s, key)
	if cnt != len(uf) {
		c.Violate("UniqueWithFunc counts %d elements, want %d", cnt, len(uf))
	}
	fresh(c, "UniqueWithFunc", got, uf, a)
	// a key that is not equal to itself
	uf = uf[:0:0]
	clear(seen)
	for _, v := range a.s {
		if kk := key(v); kk == 0 || !seen[kk] {
			seen[kk] = true
			uf = append(uf, v)
		}
	}
	got, cnt = gslice.UniqueWithFunc(a.s, func(v T) any {
		if kk := key(v); kk > 0 {
			return kk
		}
		return math.NaN()
	})
	if cnt != len(uf) {
		c.Violate("UniqueWithFunc with NaN keys counts %d elements, want %d", cnt, len(uf))
	}
	fresh(c, "UniqueWithFunc with NaN keys", got, uf, a)

	// questions
	eq := len(a.s) == len(b.s)
	for i := 0; eq && i < n; i++ {
		eq = a.s[i] == b.s[i]
	}
	if got := gslice.Equal(a.s, b.s); got != eq {
		c.Violate("Equal(%v, %v) = %v, want %v", a, b, got, eq)
	}
	// slices that share their storage
	for r := 0; r < 3; r++ {
		i, j := 0, 0
		if n > 0 && r > 0 {
			i, j = c.IntN(n), c.IntN(n)
		}
		l := n - max(i, j)
		if r == 2 && l > 0 {
			l = c.IntN(l + 1)
		}
		x, y := a.s[i:i+l], a.s[j:j+l]
		want := true
		for k := range x {
			want = want && x[k] == y[k]
		}
		if got := gslice.Equal(x, y); got != want {
			c.Violate("Equal([%d:%d], [%d:%d]) of %v = %v, want %v", i, i+l, j, j+l, a, got, want)
		}
		if got := gslice.EqualWithFunc(x, y, func(v, w T) bool { return v == w }); got != want {
			c.Violate("EqualWithFunc([%d:%d], [%d:%d], ==) of %v = %v, want %v", i, i+l, j, j+l, a, got, want)
		}
		if got := gslice.EqualWithFunc(x, y, func(v, w T) bool { return false }); got != (l == 0) {
			c.Violate("EqualWithFunc([%d:%d], [%d:%d], always false) of %v = %v", i, i+l, j, j+l, a, got)
		}
	}
	strs := make([]string, len(b.s))
	for i, v := range b.s {
		strs[i] = fmt.Sprint("s", v)
	}
	eqf := len(a.s) == len(strs)
	for i := 0; eqf && i < n; i++ {
		eqf = fmt.Sprint("s", a.s[i]) == strs[i]
	}
	if got := gslice.EqualWithFunc(a.s, strs, func(x T, s string) bool { return fmt.Sprint("s", x) == s }); got != eqf {
		c.Violate("EqualWithFunc(%v, %v) = %v, want %v", a, b, got, eqf)
	}
	for r := 0; r < 3; r++ {
		x := k.gen(c, 25)
		if n > 0 && c.Chance(2) {
			x = a.s[mon.Pick(c, 0, n-1, c.IntN(n))]
		}
		idx := -1
		for i, v := range a.s {
			if v == x {
				idx = i
				break
			}
		}
		if got := gslice.Index(a.s, x); got != idx {
			c.Violate("Index(%v, %v) = %d, want %d", a, x, got, idx)
		}
		if got := gslice.Contains(a.s, x); got != (idx >= 0) {
			c.Violate("Contains(%v, %v) = %v", a, x, got)
		}
		l := len(fmt.Sprint(x))
		pred := func(v T) bool { return len(fmt.Sprint(v)) > l }
		idx = slices.IndexFunc(a.s, pred)
		if got := gslice.IndexWithFunc(a.s, pred); got != idx {
			c.Violate("IndexWithFunc(%v) = %d, want %d", a, got, idx)
		}
		if got := gslice.ContainsWithFunc(a.s, pred); got != (idx >= 0) {
			c.Violate("ContainsWithFunc(%v) = %v", a, got)
		}
	}
	sortLess := func(x, y T) bool { return len(fmt.Sprint(x)) < len(fmt.Sprint(y)) }
	s := a.s
	if c.Chance(2) {
		s = slices.Clone(a.s)
		slices.SortStableFunc(s, func(x, y T) int { return len(fmt.Sprint(x)) - len(fmt.Sprint(y)) })
		if len(s) > 1 && c.Chance(2) {
			i := c.IntN(len(s) - 1)
			s[i], s[i+1] = s[i+1], s[i]
		}
	}
	sorted := true
	for i := 1; i < len(s); i++ {
		if sortLess(s[i], s[i-1]) {
			sorted = false
		}
	}
	if got := gslice.IsSortedFunc(s, gconstraints.Less[T](sortLess)); got != sorted {
		c.Violate("IsSortedFunc(%v) = %v, want %v", clip(s), got, sorted)
	}
	a.unchanged(c, "a question")
	b.unchanged(c, "a question")

	// in place
	c.Op("Reverse, Shuffle")
	rev := slices.Clone(a.s)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	r := gslice.Reverse(a.s)
	inPlace(c, "Reverse", a, r)
	for i := range rev {
		if !same(a.s[i], rev[i]) {
			c.Violate("after Reverse element %d is %v, want %v", i, a.s[i], rev[i])
		}
	}
	before := map[string]int{}
	for _, v := range a.s {
		before[fmt.Sprintf("%T%v", v, v)]++
	}
	r = gslice.Shuffle(a.s)
	inPlace(c, "Shuffle", a, r)
	for _, v := range a.s {
		before[fmt.Sprintf("%T%v", v, v)]--
	}
	for k, n := range before {
		if n != 0 {
			c.Violate("Shuffle changed how often %s occurs by %d", k, -n)
		}
	}
	if n > 1 {
		c.Distinct(k.name, fmt.Sprint(a.copy, n, b.copy))
		c.SampleTrace()
	}
	mon.Max("length", n)
}

// inPlace checks that only a.s changed and that the result is a.s.
func inPlace[T comparable](c *mon.C, what string, a *input[T], r []T) {
	if len(r) != len(a.s) || len(r) > 0 && unsafe.SliceData(r) != unsafe.SliceData(a.s) {
		c.Violate("%s does not return the slice it was given", what)
	}
	pre := 0
	if len(a.all) > 0 && len(a.s) > 0 {
		pre = int((uintptr(unsafe.Pointer(unsafe.SliceData(a.s))) - uintptr(unsafe.Pointer(unsafe.SliceData(a.all)))) / max(1, unsafe.Sizeof(a.all[0])))
	} else {
		return
	}
	for i := range a.all {
		if (i < pre || i >= pre+len(a.s)) && !same(a.all[i], a.copy[i]) {
			c.Violate("%s changed its input's array outside the slice, at %d", what, i-pre)
		}
	}
}

func sortedKind[T gconstraints.Ordered](c *mon.C, name string, gen func(n int) T) {
	n := c.Size(20)
	if huge := c.BigTo(500, 40000, 140000); huge > 0 {
		n = huge
	}
	s := make([]T, n)
	for i := range s {
		s[i] = gen(1 + c.IntN(10))
	}
	if c.Chance(2) {
		slices.Sort(s)
		if n > 1 && c.Chance(2) {
			i := mon.Pick(c, 0, n-2, c.IntN(n-1))
			s[i], s[i+1] = s[i+1], s[i]
		}
	}
	want := true
	for i := 1; i < n; i++ {
		if s[i] < s[i-1] {
			want = false
		}
	}
	c.Op("IsSorted(%v)", s)
	before := slices.Clone(s)
	if got := gslice.IsSorted(s); got != want {
		c.Violate("IsSorted(%v) = %v, want %v", s, got, want)
	}
	if !slices.Equal(before, s) {
		c.Violate("IsSorted changed %v to %v", before, s)
	}
	if n > 1 {
		c.Distinct(name, fmt.Sprint(s))
	}
}

// positions: long slices in which one position decides.
func positions(c *mon.C) {
	n := c.BigTo(1, 40000, 140000)
	s := make([]int, n)
	for i := range s {
		s[i] = 2 * i
	}
	c.Op("0, 2, 4, ... %d elements", n)
	less := func(a, b int) bool { return a < b }
	same := func(a, b int) bool { return a == b }
	t := slices.Clone(s)
	if !gslice.IsSorted(s) || !gslice.IsSortedFunc(s, less) {
		c.Violate("%d ascending elements are not sorted", n)
	}
	if !gslice.Equal(s, t) || !gslice.EqualWithFunc(s, t, same) {
		c.Violate("copies of %d elements are not equal", n)
	}
	for _, p := range c.Edges(n) {
		mon.Beat()
		if i := gslice.Index(s, 2*p); i != p || !gslice.Contains(s, 2*p) {
			c.Violate("Index of element %d of %d is %d, contained: %v", p, n, i, gslice.Contains(s, 2*p))
		}
		is := func(v int) bool { return v == 2*p }
		if i := gslice.IndexWithFunc(s, is); i != p || !gslice.ContainsWithFunc(s, is) {
			c.Violate("IndexWithFunc of element %d of %d is %d, contained: %v", p, n, i, gslice.ContainsWithFunc(s, is))
		}
		// below the one before
		t[p] = 2*p - 3
		if p > 0 && (gslice.IsSorted(t) || gslice.IsSortedFunc(t, less)) {
			c.Violate("%d elements, sorted but for the one at %d: IsSorted %v, IsSortedFunc %v", n, p, gslice.IsSorted(t), gslice.IsSortedFunc(t, less))
		}
		if gslice.Equal(s, t) || gslice.EqualWithFunc(s, t, same) {
			c.Violate("%d elements, equal but for the one at %d: Equal %v, EqualWithFunc %v", n, p, gslice.Equal(s, t), gslice.EqualWithFunc(s, t, same))
		}
		t[p] = 2 * p
		// one repeated
		if p > 0 && (n < 3000 || c.Chance(8)) {
			q := c.IntN(p)
			t[p] = 2 * q
			want := append(slices.Clone(s[:p]), s[p+1:]...)
			if got, m := gslice.Unique(t); m != n-1 || !slices.Equal(got, want) {
				c.Violate("Unique of %d elements, the one at %d repeated at %d: %d and %d elements", n, q, p, m, len(got))
			}
			if got, m := gslice.UniqueWithFunc(t, func(v int) int { return v }); m != n-1 || !slices.Equal(got, want) {
				c.Violate("UniqueWithFunc of %d elements, the one at %d repeated at %d: %d and %d elements", n, q, p, m, len(got))
			}
			t[p] = 2 * p
		}
	}
	if !slices.Equal(s, t) {
		c.Violate("a question changed its argument of %d elements", n)
	}
	c.Distinct("positions", n)
	mon.Max("length", n)
}

type pt struct{ x, y int }

func TestC22(t *testing.T) {
	ptrs := make([]*int, 30)
	for i := range ptrs {
		ptrs[i] = new(int)
	}
	ptrs[0] = nil
	kinds := []interface{ run(*mon.C) }{
		kind[int]{"ints", func(c *mon.C, n int) int { return c.IntN(n) * 37 % 1009 }},
		kind[string]{"strings", func(c *mon.C, n int) string { return "xxxxxxxxxxxxxxxxxxxxxxxxxxxxx"[:c.IntN(min(n, 25))] }},
		kind[float64]{"floats with NaN", func(c *mon.C, n int) float64 { return mon.Pick(c, float64(c.IntN(n)), math.NaN(), 0.5, math.Inf(-1)) }},
		kind[pt]{"structs", func(c *mon.C, n int) pt { return pt{c.IntN(n), c.IntN(2)} }},
		kind[*int]{"pointers", func(c *mon.C, n int) *int { return ptrs[c.IntN(min(n, 30))] }},
		kind[any]{"any", func(c *mon.C, n int) any { return mon.Pick[any](c, nil, c.IntN(n), "s", true, pt{c.IntN(n), 0}) }},
		kind[byte]{"bytes", func(c *mon.C, n int) byte { return byte(c.IntN(n) * 11) }},
		kind[struct{}]{"nothing", func(c *mon.C, n int) struct{} { return struct{}{} }},
	}
	mon.Cases(t, "slice", mon.Num(16000, 400000), func(c *mon.C) { kinds[c.IntN(len(kinds))].run(c) })
	mon.Cases(t, "sorted", mon.Num(16000, 400000), func(c *mon.C) {
		switch c.IntN(3) {
		case 0:
			sortedKind(c, "ints", func(n int) int { return c.IntN(n) - 3 })
		case 1:
			sortedKind(c, "strings", func(n int) string { return "abcabc"[c.IntN(3):][:c.IntN(4)] })
		default:
			sortedKind(c, "floats", func(n int) float64 { return mon.Pick(c, float64(c.IntN(n)), math.Inf(1), 0, math.Copysign(0, -1)) })
		}
	})
	mon.Cases(t, "positions", mon.Num(800, 20000), positions)
	// every order must be reachable: 120 orders, each missed in 6000 attempts
	// with probability 2e-22
	mon.Cases(t, "orders", 8, func(c *mon.C) {
		n := 2 + c.Idx%4
		seen := map[string]int{}
		orders := 1
		for i := 2; i <= n; i++ {
			orders *= i
		}
		for i := 0; i < 6000; i++ {
			s := []int{0, 1, 2, 3, 4}[:n]
			gslice.Shuffle(s)
			seen[fmt.Sprint(s)]++
		}
		c.Op("%d shuffles of %d elements: %d orders", 6000, n, len(seen))
		if len(seen) != orders {
			c.Violate("6000 shuffles of %d elements reach only %d of %d orders", n, len(seen), orders)
		}
		mon.Count("orders seen", len(seen))
		c.Distinct(n)
	})
}
