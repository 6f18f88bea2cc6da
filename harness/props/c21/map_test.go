// Monitor for C21: map and set helpers against the maps themselves.
package c21

import (
	"fmt"
	"math"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type pt struct {
	x int
	s string
}

// code identifies a value so that NaNs can be counted as well.
func code(v any) string {
	if p, ok := v.(*int); ok {
		return fmt.Sprintf("%p", p)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// bag is a multiset of codes.
type bag map[string]int

func (b bag) add(s string) { b[s]++ }

func (b bag) diff(o bag) string {
	for k, n := range b {
		if o[k] != n {
			return fmt.Sprintf("%s: %d times, want %d", k, n, o[k])
		}
	}
	for k, n := range o {
		if b[k] != n {
			return fmt.Sprintf("%s: %d times, want %d", k, b[k], n)
		}
	}
	return ""
}

func entries[K comparable, V any](m map[K]V) bag {
	b := bag{}
	for k, v := range m {
		b.add(code(k) + "=" + code(v))
	}
	return b
}

type kind[K, V comparable] struct {
	name string
	key  func(c *mon.C, n int) K
	val  func(c *mon.C) V
}

func (kd kind[K, V]) build(c *mon.C) map[K]V {
	n := c.Size(40)
	if c.Chance(60) {
		n = 200 + c.IntN(3000)
	}
	if huge := c.BigTo(1000, 40000, 140000); huge > 0 {
		n = huge
	}
	if n == 0 && c.Chance(2) {
		return nil
	}
	m := map[K]V{}
	if c.Chance(3) {
		m = make(map[K]V, n)
	}
	rng := 1 + c.IntN(2*n+1)
	for i := 0; i < n; i++ {
		m[kd.key(c, rng)] = kd.val(c)
		if c.Chance(5) {
			delete(m, kd.key(c, rng))
		}
	}
	return m
}

func show[K comparable, V any](m map[K]V) string {
	if m == nil {
		return "nil"
	}
	if len(m) > 30 {
		return fmt.Sprintf("map of %d", len(m))
	}
	return fmt.Sprint(m)
}

func (kd kind[K, V]) maps(c *mon.C) {
	m := kd.build(c)
	c.Op("%s: map %s", kd.name, show(m))
	orig := entries(m)
	same := func(after string) {
		if d := entries(m).diff(orig); d != "" {
			c.Violate("%s changed the map: %s", after, d)
		}
	}
	if got := gmap.Len(m); got != len(m) {
		c.Violate("Len = %d, want %d", got, len(m))
	}
	wantK, wantV := bag{}, bag{}
	for k, v := range m {
		wantK.add(code(k))
		wantV.add(code(v))
	}
	keys, vals, ents := gmap.Keys(m), gmap.Values(m), gmap.Map2Entries(m)
	gotK, gotV, gotE := bag{}, bag{}, bag{}
	for _, k := range keys {
		gotK.add(code(k))
	}
	for _, v := range vals {
		gotV.add(code(v))
	}
	for _, e := range ents {
		gotE.add(code(e.Key) + "=" + code(e.Value))
	}
	if d := gotK.diff(wantK); d != "" {
		c.Violate("Keys: %s", d)
	}
	if d := gotV.diff(wantV); d != "" {
		c.Violate("Values: %s", d)
	}
	if d := gotE.diff(orig); d != "" {
		c.Violate("Map2Entries: %s", d)
	}
	same("reading")
	if len(m) < 50 && c.Chance(3) {
		var kk mon.Ledger[K]
		var kv mon.Ledger[V]
		var ke mon.Ledger[gconstraints.Entry[K, V]]
		for i := 0; i < 12; i++ {
			kk.Keep(c, "Keys", gmap.Keys(m), *new(K))
			kv.Keep(c, "Values", gmap.Values(m), *new(V))
			ke.Keep(c, "Map2Entries", gmap.Map2Entries(m), gconstraints.Entry[K, V]{})
		}
		kk.Check(c)
		kv.Check(c)
		ke.Check(c)
		same("writing to the results")
	}
	for i := 0; i < 6; i++ {
		k := kd.key(c, 40)
		if len(keys) > 0 && c.Chance(2) {
			k = keys[c.IntN(len(keys))]
		}
		_, want := m[k]
		if got := gmap.Contains(m, k); got != want {
			c.Violate("Contains(%v) = %v, want %v", k, got, want)
		}
	}
	cp := gmap.Copy(m)
	if d := entries(cp).diff(orig); d != "" {
		c.Violate("Copy: %s", d)
	}
	back := gmap.Entries2Map(ents)
	if d := entries(back).diff(orig); d != "" {
		c.Violate("Entries2Map(Map2Entries(m)): %s", d)
	}
	// independence in both directions
	for i := range ents {
		ents[i] = gconstraints.Entry[K, V]{}
	}
	if d := entries(back).diff(orig); d != "" {
		c.Violate("the map follows a change of the entries it was made of: %s", d)
	}
	same("changing the entries")
	for i := 0; i < 4; i++ {
		if cp == nil || back == nil {
			c.Violate("Copy or Entries2Map returned a map that cannot be written")
		}
		k := kd.key(c, 40)
		cp[k], back[k] = kd.val(c), kd.val(c)
		if len(keys) > 0 {
			delete(cp, keys[c.IntN(len(keys))])
		}
	}
	same("changing the copy")
	kept := entries(cp)
	if m != nil {
		m[kd.key(c, 40)] = kd.val(c)
		if len(keys) > 0 {
			delete(m, keys[0])
		}
		if d := entries(cp).diff(kept); d != "" {
			c.Violate("the copy follows a change of its source: %s", d)
		}
		orig = entries(m)
	}
	// entries with repeated keys: one entry per key, of its values one
	var list []gconstraints.Entry[K, V]
	last := map[K]V{}
	for i := c.IntN(8); i > 0; i-- {
		e := gconstraints.Entry[K, V]{Key: kd.key(c, 4), Value: kd.val(c)}
		list = append(list, e)
		last[e.Key] = e.Value
	}
	if got := gmap.Entries2Map(list); entries(got).diff(entries(last)) != "" {
		c.Violate("Entries2Map(%v) = %v, want %v", list, got, last)
	}
	kd.equal(c, m)
	n := len(m)
	gmap.Clear(m)
	if len(m) != 0 {
		for k := range m {
			if k == k {
				c.Violate("Clear left %d of %d entries", len(m), n)
			}
		}
		c.Known("clear-nan", "Clear leaves entries whose key is not equal to itself (NaN)")
	}
	if n > 1 {
		c.Distinct(kd.name, fmt.Sprint(orig))
		c.SampleTrace()
	}
	mon.Max("entries", n)
}

// equal compares m with maps near to it.
func (kd kind[K, V]) equal(c *mon.C, m map[K]V) {
	cp := make(map[K]V, len(m))
	for k, v := range m {
		cp[k] = v
	}
	ref := func(a, b map[K]V) bool {
		if len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || w != v {
				return false
			}
		}
		return true
	}
	for round := 0; round < 4; round++ {
		want := ref(m, cp)
		if want {
			mon.Count("equal pairs", 1)
		} else {
			mon.Count("unequal pairs", 1)
		}
		if got := gmap.Equal(m, cp); got != want {
			c.Violate("Equal(%s, %s) = %v, want %v", show(m), show(cp), got, want)
		}
		if got, want := gmap.Equal(m, m), ref(m, m); got != want {
			c.Violate("Equal(%s, the same map) = %v, want %v", show(m), got, want)
		}
		if got, want := gmap.EqualWithFunc(m, m, func(a, b V) bool { return a == b }), ref(m, m); got != want {
			c.Violate("EqualWithFunc(%s, the same map, ==) = %v, want %v", show(m), got, want)
		}
		if got := gmap.EqualWithFunc(m, m, func(V, V) bool { return false }); got != (len(m) == 0) {
			c.Violate("EqualWithFunc(%s, the same map, always false) = %v", show(m), got)
		}
		if got := gmap.Equal(cp, m); got != want {
			c.Violate("Equal(%s, %s) = %v, want %v", show(cp), show(m), got, want)
		}
		// values of another type, compared by a function that is no symmetric
		// relation, and one that is coarser than ==
		other := make(map[K]string, len(cp))
		for k, v := range cp {
			other[k] = "s" + code(v)
		}
		if got := gmap.EqualWithFunc(m, other, func(v V, s string) bool { return v == v && s == "s"+code(v) }); got != want {
			c.Violate("EqualWithFunc(%s, %s) = %v, want %v", show(m), show(other), got, want)
		}
		keysOnly := len(m) == len(cp)
		for k := range m {
			if _, ok := cp[k]; !ok {
				keysOnly = false
			}
		}
		if got := gmap.EqualWithFunc(m, cp, func(V, V) bool { return true }); got != keysOnly {
			c.Violate("EqualWithFunc(%s, %s, always true) = %v, want %v", show(m), show(cp), got, keysOnly)
		}
		if got := gmap.EqualWithFunc(m, cp, func(V, V) bool { return false }); got != (len(m) == 0 && len(cp) == 0) {
			c.Violate("EqualWithFunc(%s, %s, always false) = %v", show(m), show(cp), got)
		}
		// one small difference for the next round
		var ks []K
		for k := range cp {
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			cp[kd.key(c, 4)] = kd.val(c)
			continue
		}
		k := ks[c.IntN(len(ks))]
		switch c.IntN(4) {
		case 0:
			cp[k] = kd.val(c)
		case 1:
			delete(cp, k)
		case 2:
			v := cp[k]
			delete(cp, k)
			cp[kd.key(c, 60)] = v // as many entries, perhaps another key
		case 3: // the zero value where the other map has no such key
			var zero V
			delete(cp, k)
			cp[kd.key(c, 60)] = zero
		}
	}
}

func (kd kind[K, V]) sets(c *mon.C) {
	type state struct {
		s    gset.Set[K]
		nans int
		want map[K]bool
	}
	var sets []*state
	for i := 1 + c.IntN(2); i > 0; i-- {
		s := &state{want: map[K]bool{}}
		if c.Chance(2) {
			s.s = gset.NewSet[K]()
			c.Op("set %d: NewSet", len(sets))
		} else {
			n := c.Size(100)
			s.s = gset.NewSetWithSize[K](n)
			c.Op("set %d: NewSetWithSize(%d)", len(sets), n)
		}
		sets = append(sets, s)
	}
	rng := 1 + c.Size(40)
	var log []any
	var kept mon.Ledger[K] // what Items returned
	for o := 5 + c.Size(60); o > 0; o-- {
		si := c.IntN(len(sets))
		s := sets[si]
		k := kd.key(c, rng)
		op := c.IntN(5)
		log = append(log, si, op, k)
		switch op {
		case 0, 1:
			c.Op("set %d: Add(%v)", si, k)
			if !gset.Add(s.s, k) {
				c.Violate("Add(%v) = false", k)
			}
			if k != k {
				s.nans++
			} else {
				s.want[k] = true
			}
		case 2:
			c.Op("set %d: Remove(%v)", si, k)
			if !gset.Remove(s.s, k) {
				c.Violate("Remove(%v) = false", k)
			}
			delete(s.want, k)
		case 3:
			if !c.Chance(8) {
				break
			}
			c.Op("set %d: Clear()", si)
			gset.Clear(s.s)
			s.want = map[K]bool{}
			if s.nans > 0 && len(s.s) == s.nans {
				c.Known("clear-nan", "Clear leaves entries whose key is not equal to itself (NaN)")
			} else {
				s.nans = 0
			}
		}
		for si, s := range sets {
			if got, want := gset.Len(s.s), len(s.want)+s.nans; got != want || len(s.s) != want {
				c.Violate("set %d: Len() = %d, want %d", si, got, want)
			}
			if got := gset.Contains(s.s, k); got != s.want[k] {
				c.Violate("set %d: Contains(%v) = %v, want %v", si, k, got, s.want[k])
			}
		}
		if o%4 != 1 {
			continue
		}
		for si, s := range sets {
			items := gset.Items(s.s)
			seen, nans := map[K]bool{}, 0
			for _, x := range items {
				switch {
				case x != x:
					nans++
				case !s.want[x]:
					c.Violate("set %d: Items holds %v", si, x)
				case seen[x]:
					c.Violate("set %d: Items holds %v twice", si, x)
				}
				seen[x] = true
			}
			if len(items) != len(s.want)+s.nans || nans != s.nans {
				c.Violate("set %d: Items has %d elements, want %d: %v", si, len(items), len(s.want)+s.nans, items)
			}
			var zero K
			if c.Chance(2) {
				kept.Keep(c, "Items", items, zero)
			} else {
				for i := range items {
					items[i] = zero
				}
			}
			for x := range s.want {
				if !gset.Contains(s.s, x) {
					c.Violate("set %d: Contains(%v) = false after the items were overwritten", si, x)
				}
			}
		}
	}
	c.Distinct("set", kd.name, fmt.Sprint(log))
	c.SampleTrace()
}

type runner interface {
	maps(*mon.C)
	sets(*mon.C)
}

func TestC21(t *testing.T) {
	one := 1
	kinds := []runner{
		kind[int, int]{"int -> int", func(c *mon.C, n int) int { return c.IntN(n) }, func(c *mon.C) int { return c.IntN(3) }},
		kind[string, *int]{"string -> *int", func(c *mon.C, n int) string { return fmt.Sprint(c.IntN(n))[c.IntN(2):] }, func(c *mon.C) *int { return mon.Pick(c, nil, &one, new(int)) }},
		kind[pt, string]{"struct -> string", func(c *mon.C, n int) pt { return pt{c.IntN(n), mon.Pick(c, "", "a")} }, func(c *mon.C) string { return mon.Pick(c, "", "b", "c") }},
		kind[float64, float64]{"float -> float", func(c *mon.C, n int) float64 {
			return mon.Pick(c, float64(c.IntN(n)), math.Inf(1), float64(c.IntN(n))/3)
		}, func(c *mon.C) float64 { return mon.Pick(c, 0, 1, 2, 1, math.NaN()) }},
		kind[float64, int]{"float with NaN -> int", func(c *mon.C, n int) float64 { return mon.Pick(c, float64(c.IntN(n)), float64(c.IntN(n)), math.NaN()) }, func(c *mon.C) int { return c.IntN(3) }},
		kind[any, any]{"any -> any", func(c *mon.C, n int) any {
			return mon.Pick[any](c, c.IntN(n), fmt.Sprint(c.IntN(n)), nil, true, int8(c.IntN(100)), pt{c.IntN(n), "x"})
		}, func(c *mon.C) any { return mon.Pick[any](c, nil, 0, "", int8(0), false) }},
		kind[uint8, struct{}]{"byte -> nothing", func(c *mon.C, n int) uint8 { return uint8(c.IntN(256)) }, func(c *mon.C) struct{} { return struct{}{} }},
	}
	mon.Cases(t, "map", mon.Num(16000, 400000), func(c *mon.C) { kinds[c.IntN(len(kinds))].maps(c) })
	mon.Cases(t, "set", mon.Num(12000, 300000), func(c *mon.C) { kinds[c.IntN(len(kinds))].sets(c) })
}
