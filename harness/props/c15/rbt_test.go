// Monitors for C15 (sorted map with range views) and C16 (balance).
package c15

import (
	"fmt"
	"math"
	"math/bits"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// --- C15 ------------------------------------------------------------------

type entry[K comparable, V any] struct {
	k K
	v V
}

type tree[K, V comparable] struct {
	id   int
	t    *rbt.RbTree[K, V]
	ents []entry[K, V] // in the order of less

	// what was returned
	keys  mon.Ledger[K]
	vals  mon.Ledger[V]
	nodes mon.Ledger[gconstraints.Pair[K, V]]
}

type kind[K, V comparable] struct {
	name string
	less func(a, b K) bool
	key  func(c *mon.C, n int) K
	val  func(n int) V
}

func (k kind[K, V]) at(m *tree[K, V], key K) (int, bool) {
	i := sort.Search(len(m.ents), func(i int) bool { return !k.less(m.ents[i].k, key) })
	return i, i < len(m.ents) && m.ents[i].k == key
}

func (k kind[K, V]) put(m *tree[K, V], key K, v V) (old V) {
	i, ok := k.at(m, key)
	if ok {
		old = m.ents[i].v
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, entry[K, V]{})
	copy(m.ents[i+1:], m.ents[i:])
	m.ents[i] = entry[K, V]{key, v}
	return
}

func (k kind[K, V]) compare(c *mon.C, m *tree[K, V], scribble bool) {
	n := len(m.ents)
	if got := m.t.Len(); got != n {
		c.Violate("tree %d: Len() = %d, want %d", m.id, got, n)
	}
	if got := m.t.Empty(); got != (n == 0) {
		c.Violate("tree %d: Empty() = %v with %d entries", m.id, got, n)
	}
	keys, vals, nodes := m.t.Keys(), m.t.Values(), m.t.Nodes()
	if len(keys) != n || len(vals) != n || len(nodes) != n {
		c.Violate("tree %d: %d keys, %d values and %d nodes, want %d", m.id, len(keys), len(vals), len(nodes), n)
	}
	for i, e := range m.ents {
		if keys[i] != e.k {
			c.Violate("tree %d: Keys()[%d] = %v, want %v; all: %v", m.id, i, keys[i], e.k, keys)
		}
		if vals[i] != e.v {
			c.Violate("tree %d: Values()[%d] = %v, want %v", m.id, i, vals[i], e.v)
		}
		a, b := nodes[i].Unpack()
		if a != e.k || b != e.v {
			c.Violate("tree %d: Nodes()[%d] = %v, %v, want %v, %v", m.id, i, a, b, e.k, e.v)
		}
	}
	if !scribble {
		m.keys.Keep(c, "Keys", keys, *new(K))
		m.vals.Keep(c, "Values", vals, *new(V))
		m.nodes.Keep(c, "Nodes", nodes, gconstraints.Pack(*new(K), *new(V)))
	}
	if scribble && n > 0 { // the results are the caller's
		var zk K
		var zv V
		for i := range keys {
			keys[i], vals[i] = zk, zv
			nodes[i] = gconstraints.Pack(zk, zv)
		}
	}
}

func (k kind[K, V]) lookup(c *mon.C, m *tree[K, V], key K) {
	i, ok := k.at(m, key)
	var want V
	if ok {
		want = m.ents[i].v
	}
	if got := m.t.Search(key); got != ok {
		c.Violate("tree %d: Search(%v) = %v, want %v", m.id, key, got, ok)
	}
	if got := m.t.Get(key); got != want {
		c.Violate("tree %d: Get(%v) = %v, want %v", m.id, key, got, want)
	}
}

func (k kind[K, V]) run(c *mon.C) {
	var pool []*tree[K, V]
	add := func(t *rbt.RbTree[K, V], ents []entry[K, V]) *tree[K, V] {
		m := &tree[K, V]{id: len(pool), t: t, ents: ents}
		pool = append(pool, m)
		return m
	}
	add(rbt.New[K, V](k.less), nil)
	if c.Chance(3) {
		add(rbt.New[K, V](k.less), nil)
	}
	ops := 15 + c.Size(120)
	nk := 1 + c.Size(40)
	big := c.Chance(20)
	insW, delW := 1+c.IntN(6), 1+c.IntN(5)
	if big {
		ops, nk = 200+c.IntN(800), 100+c.IntN(2000)
		insW, delW = 20, 1+c.IntN(15)
	}
	huge := c.Big(400, 8000)
	if huge > 0 {
		big = true
		ops, nk = 60+c.IntN(100), 3*huge
	}
	var past []K
	newKey := func() K {
		if len(past) > 0 && !big && !c.Chance(3) || len(past) > 0 && c.Chance(3) {
			return past[c.IntN(len(past))]
		}
		x := k.key(c, nk)
		past = append(past, x)
		return x
	}
	c.Op("%s, up to %d keys", k.name, nk)
	nv := 0
	deletes := 0
	var trace strings.Builder
	for huge > 0 && len(pool[0].ents) < huge && nv < 2*huge {
		key := newKey()
		nv++
		v := k.val(nv)
		k.put(pool[0], key, v)
		pool[0].t.Insert(key, v)
		mon.Beat()
	}
	if huge > 0 {
		c.Op("tree 0 filled with %d random entries", len(pool[0].ents))
	}
	for o := 0; o < ops; o++ {
		m := pool[c.IntN(len(pool))]
		if !big && c.Chance(40) || big && c.Chance(200) {
			insW, delW = delW, insW
		}
		key := newKey()
		if len(m.ents) > 0 && c.Chance(3) && (!big || c.Chance(3)) {
			key = m.ents[c.IntN(len(m.ents))].k
		}
		switch r := c.IntN(insW + delW + 6); {
		case r < insW:
			nv++
			v := k.val(nv)
			c.Op("tree %d: Insert(%v, %v)", m.id, key, v)
			want := k.put(m, key, v)
			if got := m.t.Insert(key, v); got != want {
				c.Violate("tree %d: Insert(%v) returned %v, want %v", m.id, key, got, want)
			}
			fmt.Fprint(&trace, m.id, "i", key)
		case r < insW+delW:
			c.Op("tree %d: Delete(%v)", m.id, key)
			i, ok := k.at(m, key)
			var want V
			if ok {
				want = m.ents[i].v
				m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
				deletes++
			}
			if got := m.t.Delete(key); got != want {
				c.Violate("tree %d: Delete(%v) returned %v, want %v", m.id, key, got, want)
			}
			fmt.Fprint(&trace, m.id, "d", key)
		case r == insW+delW:
			nv++
			v := k.val(nv)
			c.Op("tree %d: Update(%v, %v)", m.id, key, v)
			i, ok := k.at(m, key)
			var want V
			if ok {
				want = m.ents[i].v
				m.ents[i].v = v
			}
			got, gok := m.t.Update(key, v)
			if gok != ok || got != want {
				c.Violate("tree %d: Update(%v) = %v, %v, want %v, %v", m.id, key, got, gok, want, ok)
			}
		case r == insW+delW+1:
			c.Op("tree %d: Search and Get(%v)", m.id, key)
			k.lookup(c, m, key)
		case r == insW+delW+2:
			pick := c.Uint64()
			nested := c.Chance(3) // the filter may look things up
			pred := func(x K) bool {
				if nested && hash(x)%5 == 0 {
					other := func(y K) bool { return (hash(y)^pick)%7 == 0 }
					n := 0
					for _, e := range m.ents {
						if other(e.k) {
							n++
						}
					}
					if got := m.t.GetIf(other); len(got) != n {
						c.Violate("tree %d: GetIf inside GetIf found %d values, want %d", m.id, len(got), n)
					}
					if !m.t.Search(x) {
						c.Violate("tree %d: Search(%v) inside GetIf = false", m.id, x)
					}
					nested = hash(x)%10 == 0
				}
				return (hash(x)^pick)%3 == 0
			}
			c.Op("tree %d: GetIf", m.id)
			got := m.t.GetIf(pred)
			var want []V
			for _, e := range m.ents {
				if pred(e.k) {
					want = append(want, e.v)
				}
			}
			if len(got) != len(want) {
				c.Violate("tree %d: GetIf found %d values, want %d", m.id, len(got), len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					c.Violate("tree %d: GetIf()[%d] = %v, want %v", m.id, i, got[i], want[i])
				}
			}
			m.vals.Keep(c, "GetIf", got, *new(V))
		case r == insW+delW+3 && c.Chance(6):
			c.Op("tree %d: Clear()", m.id)
			m.t.Clear()
			m.ents = nil
			fmt.Fprint(&trace, m.id, "c")
		default:
			k.view(c, m, key, newKey(), add, len(pool) < 4)
		}
		mon.Beat()
		if !big || c.Chance(40) || o == ops-1 {
			for _, p := range pool {
				k.compare(c, p, c.Chance(3))
				k.lookup(c, p, key)
				k.lookup(c, p, k.key(c, nk))
				if c.Chance(4) {
					for _, e := range p.ents {
						k.lookup(c, p, e.k)
					}
				}
			}
		}
		mon.Max("entries", len(m.ents))
	}
	if deletes > 0 {
		c.Distinct(k.name, trace.String())
		c.SampleTrace()
	}
}

// view takes one range view of m and checks it, keeping some of them as trees
// in their own right.
func (k kind[K, V]) view(c *mon.C, m *tree[K, V], a, b K, add func(*rbt.RbTree[K, V], []entry[K, V]) *tree[K, V], keep bool) {
	incA, incB := c.Chance(2), c.Chance(2)
	var sub *rbt.RbTree[K, V]
	var in func(x K) bool
	above := func(x K) bool { return k.less(a, x) || incA && x == a }
	below := func(x K) bool { return k.less(x, b) || incB && x == b }
	var what string
	switch c.IntN(3) {
	case 0:
		if k.less(b, a) {
			if c.Chance(2) {
				a, b = b, a
			} else {
				c.Op("tree %d: SubTree(%v, %v, %v, %v)", m.id, a, incA, b, incB)
				if _, ok := mon.Try(func() { m.t.SubTree(a, incA, b, incB) }); ok {
					c.Violate("tree %d: SubTree(%v, %v) did not panic", m.id, a, b)
				}
				k.compare(c, m, false)
				return
			}
		}
		if a == b {
			incB = incA // nothing says what a half-open range of one key holds
		}
		what = fmt.Sprintf("SubTree(%v, %v, %v, %v)", a, incA, b, incB)
		c.Op("tree %d: %s", m.id, what)
		sub = m.t.SubTree(a, incA, b, incB)
		in = func(x K) bool { return above(x) && below(x) }
	case 1:
		what = fmt.Sprintf("LeftSubTree(%v, %v)", b, incB)
		c.Op("tree %d: %s", m.id, what)
		sub = m.t.LeftSubTree(b, incB)
		in = below
	default:
		what = fmt.Sprintf("RightSubTree(%v, %v)", a, incA)
		c.Op("tree %d: %s", m.id, what)
		sub = m.t.RightSubTree(a, incA)
		in = above
	}
	var want []entry[K, V]
	for _, e := range m.ents {
		if in(e.k) {
			want = append(want, e)
		}
	}
	s := &tree[K, V]{id: -1, t: sub, ents: want}
	if sub == nil {
		c.Violate("tree %d: %s is nil", m.id, what)
	}
	c.Op("-> view")
	k.compare(c, s, false)
	k.compare(c, m, false)
	mon.Count("views", 1)
	if len(want) > 0 && len(want) < len(m.ents) {
		mon.Count("proper views", 1)
	}
	if keep {
		n := add(sub, want)
		c.Op("view kept as tree %d", n.id)
	} else if len(want) > 0 {
		// independent: changing it leaves the original alone
		e := want[c.IntN(len(want))]
		if c.Chance(2) {
			sub.Delete(e.k)
		} else {
			sub.Insert(e.k, k.val(-1))
		}
		k.compare(c, m, false)
	}
}

func hash(x any) uint64 {
	var h uint64 = 14695981039346656037
	for _, b := range []byte(fmt.Sprint(x)) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}

type pt struct{ x, y int }

type runner interface{ run(*mon.C) }

func TestC15(t *testing.T) {
	kinds := []runner{
		kind[int, int]{"int keys", func(a, b int) bool { return a < b }, func(c *mon.C, n int) int { return c.IntN(n) - 3 }, func(n int) int { return n }},
		kind[int, string]{"int keys descending", func(a, b int) bool { return a > b }, func(c *mon.C, n int) int { return c.IntN(n) }, func(n int) string { return fmt.Sprint("v", n) }},
		kind[string, *int]{"string keys", func(a, b string) bool { return a < b }, func(c *mon.C, n int) string {
			return mon.Pick(c, "", "a", "ab", "\xff") + fmt.Sprint(c.IntN(n))[c.IntN(2):]
		}, func(n int) *int { return &n }},
		kind[string, int]{"string keys by length", func(a, b string) bool {
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		}, func(c *mon.C, n int) string { return fmt.Sprint(c.IntN(n)) }, func(n int) int { return n }},
		kind[pt, any]{"struct keys", func(a, b pt) bool { return a.y < b.y || a.y == b.y && a.x > b.x }, func(c *mon.C, n int) pt { return pt{c.IntN(n), c.IntN(3)} }, func(n int) any { return n }},
		kind[float64, float64]{"float keys", func(a, b float64) bool { return a < b }, func(c *mon.C, n int) float64 {
			return mon.Pick(c, float64(c.IntN(n))/7, math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), -math.MaxFloat64)
		}, func(n int) float64 { return float64(n) }},
		kind[uint8, bool]{"byte keys", func(a, b uint8) bool { return a < b }, func(c *mon.C, n int) uint8 { return uint8(c.IntN(256)) }, func(n int) bool { return n%3 == 0 }},
		kind[bool, int]{"bool keys", func(a, b bool) bool { return !a && b }, func(c *mon.C, n int) bool { return c.Chance(2) }, func(n int) int { return n }},
		kind[int, int]{"pair order", func(a, b int) bool { // evens before odds
			if a&1 != b&1 {
				return a&1 == 0
			}
			return a < b
		}, func(c *mon.C, n int) int { return c.IntN(n) }, func(n int) int { return n }},
	}
	mon.Cases(t, "map", mon.Num(40000, 1000000), func(c *mon.C) {
		kinds[c.IntN(len(kinds))].run(c)
	})
	mon.Cases(t, "large", mon.Num(60, 2000), large)
}

// large is a tree of many entries, judged at the end of each phase only.
func large(c *mon.C) {
	n := c.BigTo(1, 6000, 140000)
	tree := rbt.New[int, int](func(a, b int) bool { return a < b })
	val := make([]int, n) // 0: absent
	count := 0
	order := c.Perm(n)
	switch c.IntN(4) {
	case 0:
		slices.Sort(order)
	case 1:
		slices.Sort(order)
		slices.Reverse(order)
	}
	check := func(when string) {
		if got := tree.Len(); got != count || tree.Empty() != (count == 0) {
			c.Violate("%s: Len() = %d, Empty() = %v, %d entries are there", when, got, tree.Empty(), count)
		}
		var keys, vals []int
		for k, v := range val {
			if v != 0 {
				keys, vals = append(keys, k), append(vals, v)
			}
			if tree.Search(k) != (v != 0) || tree.Get(k) != v {
				c.Violate("%s: Search(%d) = %v, Get = %d, want %d", when, k, tree.Search(k), tree.Get(k), v)
			}
		}
		if got := tree.Keys(); !slices.Equal(got, keys) {
			c.Violate("%s: Keys() has %d keys and differs from the %d there are", when, len(got), len(keys))
		}
		if got := tree.Values(); !slices.Equal(got, vals) {
			c.Violate("%s: Values() has %d values and differs from the %d there are", when, len(got), len(vals))
		}
		if got := tree.GetIf(func(k int) bool { return k%3 == 0 }); len(got) != 0 || n > 3 {
			j := 0
			for k, v := range val {
				if v != 0 && k%3 == 0 {
					if j >= len(got) || got[j] != v {
						c.Violate("%s: GetIf leaves out the value of key %d", when, k)
					}
					j++
				}
			}
			if j != len(got) {
				c.Violate("%s: GetIf returns %d values, want %d", when, len(got), j)
			}
		}
		if len(keys) > 2 {
			i := c.IntN(len(keys))
			j := i + c.IntN(len(keys)-i)
			if got := tree.SubTree(keys[i], true, keys[j], true).Keys(); !slices.Equal(got, keys[i:j+1]) {
				c.Violate("%s: SubTree(%d, %d) has %d keys, want %d", when, keys[i], keys[j], len(got), j+1-i)
			}
			if got := tree.LeftSubTree(keys[j], true).Keys(); !slices.Equal(got, keys[:j+1]) {
				c.Violate("%s: LeftSubTree(%d) has %d keys, want %d", when, keys[j], len(got), j+1)
			}
			if got := tree.RightSubTree(keys[i], true).Keys(); !slices.Equal(got, keys[i:]) {
				c.Violate("%s: RightSubTree(%d) has %d keys, want %d", when, keys[i], len(got), len(keys)-i)
			}
		}
	}
	c.Op("%d entries", n)
	mon.Max("entries", n)
	for _, k := range order {
		val[k] = 1 + c.IntN(1000)
		tree.Insert(k, val[k])
		count++
		mon.Beat()
	}
	check("after the insertions")
	if c.Chance(2) {
		c.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	part := mon.Pick(c, n/2, n, 1, n-1)
	c.Op("%d of them deleted", part)
	for _, k := range order[:part] {
		if got := tree.Delete(k); got != val[k] {
			c.Violate("Delete(%d) = %d, want %d", k, got, val[k])
		}
		val[k] = 0
		count--
		mon.Beat()
	}
	check("after the deletions")
	c.Op("all inserted again")
	for k := range val {
		if val[k] == 0 {
			count++
		}
		val[k] = 1 + c.IntN(1000)
		tree.Insert(k, val[k])
	}
	check("after more insertions")
	c.Distinct("large", n, part)
}

// --- C16 ------------------------------------------------------------------

// counter records the keys a lookup compares with the one searched for.
type counter struct {
	on   bool
	key  int
	path []int
	seen map[int]bool
}

func (x *counter) note(k int) {
	if k != x.key && !x.seen[k] {
		x.seen[k] = true
		x.path = append(x.path, k)
	}
}

// entriesOnPath runs one lookup and returns the entries met on the way.
func (x *counter) entriesOnPath(t *rbt.RbTree[int, int], key int) (path []int, found bool) {
	x.on, x.key, x.path, x.seen = true, key, nil, map[int]bool{}
	found = t.Search(key)
	x.on = false
	return x.path, found
}

var nodeRE = regexp.MustCompile(`\((-?\d+), (-?\d+), ([BR])\)`)

type checker struct {
	t    *rbt.RbTree[int, int]
	cnt  *counter
	have map[int]bool
}

func limit(n int) int {
	if n == 0 {
		return 0
	}
	return int(2 * math.Log2(float64(n+1)))
}

func (b *checker) check(c *mon.C, what string, full bool) {
	n := len(b.have)
	lim := limit(n)
	parent := map[int]int{}
	left := map[int]bool{}
	root, hasRoot := 0, false
	keys := make([]int, 0, n)
	for k := range b.have {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	probe := keys
	if !full && n > 64 {
		probe = nil
		for i := 0; i < 24; i++ {
			probe = append(probe, keys[c.IntN(n)])
		}
		probe = append(probe, keys[0], keys[n-1])
	}
	for _, k := range probe {
		path, found := b.cnt.entriesOnPath(b.t, k)
		if !found {
			c.Violate("%s: key %d of %d not found", what, k, n)
		}
		if len(path)+1 > lim {
			c.Violate("%s: finding %d in a tree of %d entries passes %d entries (%v), more than 2*log2(n+1) = %d", what, k, n, len(path)+1, path, lim)
		}
		mon.Max("path", len(path)+1)
		if len(path) == 0 {
			root, hasRoot = k, true
			continue
		}
		p := path[len(path)-1]
		parent[k] = p
		left[k] = k < p
	}
	for _, k := range probe {
		for _, absent := range []int{k - 1, k + 1} {
			if b.have[absent] {
				continue
			}
			path, found := b.cnt.entriesOnPath(b.t, absent)
			if found {
				c.Violate("%s: absent key %d found", what, absent)
			}
			if len(path) > lim {
				c.Violate("%s: finding the absent %d in a tree of %d entries passes %d entries, more than 2*log2(n+1) = %d", what, absent, n, len(path), lim)
			}
		}
	}
	mon.Count("paths", len(probe))
	if len(probe) != n || n == 0 {
		return
	}
	// colours, if the tree prints them
	col := map[int]bool{}
	for _, g := range nodeRE.FindAllStringSubmatch(b.t.String(), -1) {
		k, _ := strconv.Atoi(g[1])
		col[k] = g[3] == "B"
	}
	if len(col) != n || !hasRoot {
		mon.Count("colours unread", 1)
		return
	}
	mon.Count("colourings checked", 1)
	heights := map[int]int{} // black height per entry with a free child
	kids := map[int]int{}
	for k, p := range parent {
		if !col[k] && !col[p] {
			c.Violate("%s: red entry %d has the red parent %d\n%s", what, k, p, b.t)
		}
		if left[k] {
			kids[p] |= 1
		} else {
			kids[p] |= 2
		}
	}
	if !col[root] {
		mon.Count("red roots", 1)
	}
	want, wk := -1, 0
	for _, k := range keys {
		if kids[k] == 3 {
			continue
		}
		h, x := 0, k
		for {
			if col[x] {
				h++
			}
			if x == root {
				break
			}
			x = parent[x]
		}
		heights[k] = h
		if want < 0 {
			want, wk = h, k
		} else if h != want {
			c.Violate("%s: %d black entries down to %d but %d down to %d\n%s", what, want, wk, h, k, b.t)
		}
	}
}

func TestC16(t *testing.T) {
	newChecker := func(desc bool) *checker {
		cnt := &counter{}
		b := &checker{cnt: cnt, have: map[int]bool{}}
		b.t = rbt.New[int, int](func(x, y int) bool {
			if cnt.on {
				cnt.note(x)
				cnt.note(y)
			}
			if desc {
				return x > y
			}
			return x < y
		})
		return b
	}
	mon.Cases(t, "balance", mon.Num(6000, 150000), func(c *mon.C) {
		b := newChecker(false)
		n := 1 + c.Size(60)
		if c.Chance(30) {
			n = 100 + c.IntN(mon.N(1500, 6000))
		}
		pattern := c.IntN(6)
		rounds := 1 + c.IntN(4)
		c.Op("up to %d entries, pattern %d, %d rounds", n, pattern, rounds)
		full := n <= 70
		next := 0
		var log []int
		view := func() { // a range view is a tree as well, and may take the tree's place
			keys := b.t.Keys()
			i, j := c.IntN(len(keys)), c.IntN(len(keys))
			if i > j {
				i, j = j, i
			}
			if c.Chance(3) {
				i, j = 0, len(keys)-1
			}
			v := &checker{cnt: b.cnt, have: map[int]bool{}}
			name := ""
			from, to := i, j
			switch c.IntN(3) {
			case 0:
				incl := c.Chance(2)
				name = fmt.Sprintf("SubTree(%d, %v, %d, %[2]v)", keys[i], incl, keys[j])
				v.t = b.t.SubTree(keys[i], incl, keys[j], incl)
				if !incl {
					from, to = i+1, j-1
				}
			case 1:
				from = 0
				incl := c.Chance(2)
				name = fmt.Sprintf("LeftSubTree(%d, %v)", keys[j], incl)
				v.t = b.t.LeftSubTree(keys[j], incl)
				if !incl {
					to--
				}
			default:
				to = len(keys) - 1
				incl := c.Chance(2)
				name = fmt.Sprintf("RightSubTree(%d, %v)", keys[i], incl)
				v.t = b.t.RightSubTree(keys[i], incl)
				if !incl {
					from++
				}
			}
			c.Op("%s", name)
			for ; from <= to; from++ {
				v.have[keys[from]] = true
			}
			v.check(c, name, true)
			mon.Count("range views", 1)
			if c.Chance(2) {
				b.check(c, "the tree after "+name, true)
			} else if len(v.have) > 0 {
				c.Op("go on with the view")
				b.t, b.have = v.t, v.have
			}
		}
		ins := func() {
			var k int
			switch pattern {
			case 0:
				next++
				k = next * 2
			case 1:
				next++
				k = -next * 2
			case 2: // alternating ends
				next++
				k = next * 2
				if next%2 == 0 {
					k = -k
				}
			case 3: // between the ends
				next++
				k = int(bits.Reverse16(uint16(next))) * 2
			case 4: // runs
				if c.Chance(8) {
					next = c.IntN(20 * n)
				}
				next++
				k = next * 2
			default:
				k = c.IntN(4*n) * 2
			}
			if full {
				c.Op("Insert(%d)", k)
			}
			log = append(log, k)
			b.t.Insert(k, k)
			b.have[k] = true
		}
		del := func(how int) {
			if len(b.have) == 0 {
				return
			}
			k := 0
			keys := b.t.Keys()
			if len(keys) != len(b.have) {
				c.Violate("%d keys, want %d", len(keys), len(b.have))
			}
			switch how {
			case 0:
				k = keys[0]
			case 1:
				k = keys[len(keys)-1]
			case 2:
				k = keys[len(keys)/2]
			default:
				k = keys[c.IntN(len(keys))]
			}
			if full {
				c.Op("Delete(%d)", k)
			}
			log = append(log, k+1)
			b.t.Delete(k)
			delete(b.have, k)
		}
		for r := 0; r < rounds; r++ {
			up := 1 + c.IntN(n)
			for i := 0; i < up; i++ {
				ins()
				if full && (len(b.have) < 20 || c.Chance(3)) || c.Chance(40) {
					b.check(c, "after an insertion", full)
				}
				if c.Chance(10) {
					del(3)
				}
				mon.Beat()
			}
			b.check(c, "after the insertions", true)
			if len(b.have) > 2 && c.Chance(4) {
				view()
			}
			if full && len(b.have) > 0 && c.Chance(4) {
				keys := b.t.Keys()
				k := keys[c.IntN(len(keys))]
				c.Op("Update(%d) and Insert(%[1]d) again", k)
				b.t.Update(k, -1)
				b.t.Insert(k, -2)
				b.check(c, "after an update", true)
			}
			how := c.IntN(5)
			down := c.IntN(len(b.have) + 1)
			if r < rounds-1 && c.Chance(3) {
				down = len(b.have) - min(len(b.have), c.IntN(8))
			}
			for i := 0; i < down; i++ {
				del(how)
				if full && (len(b.have) < 20 || c.Chance(3)) || c.Chance(40) {
					b.check(c, "after a deletion", full)
				}
				if c.Chance(10) {
					ins()
				}
				mon.Beat()
			}
			b.check(c, "after the deletions", true)
			if len(b.have) > 2 && c.Chance(6) {
				view()
			}
			mon.Max("entries", len(b.have))
			if c.Chance(20) {
				c.Op("Clear()")
				b.t.Clear()
				b.have = map[int]bool{}
			}
		}
		if len(log) > 3 {
			c.Distinct(fmt.Sprint(log))
			c.SampleTrace()
		}
	})
	// every order of up to 7 insertions and of up to 3 deletions after them
	mon.Cases(t, "orders", mon.Num(6000, 200000), func(c *mon.C) {
		b := newChecker(c.Chance(3))
		n := 3 + c.IntN(12)
		p := c.Perm(n)
		for _, k := range p {
			c.Op("Insert(%d)", 2*k)
			b.t.Insert(2*k, k)
			b.have[2*k] = true
			b.check(c, "after an insertion", true)
		}
		q := c.Perm(n)
		for _, k := range q {
			c.Op("Delete(%d)", 2*k)
			b.t.Delete(2 * k)
			delete(b.have, 2*k)
			b.check(c, "after a deletion", true)
		}
		c.Distinct(fmt.Sprint(p, q))
	})
}
