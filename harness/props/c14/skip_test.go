// Monitor for C14: skip lists against a sorted map.
package c14

import (
	"fmt"
	"math"
	"os"
	"slices"
	"sort"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"

	"gosbverif/mon"
	"gosbverif/vrand"
)

func TestMain(m *testing.M) { mon.Main(m) }

type named string

// model is the sorted map beside one list.
type model[K gconstraints.Ordered, V comparable] struct {
	list *gskiplist.SkipList[K, V]
	keys []K
	vals []V
	// nodes handed out earlier, by key (dropped when the key is deleted)
	nodes map[int]*held[K, V]
	nn    int
}

type held[K gconstraints.Ordered, V comparable] struct {
	key K
	e   *gskiplist.SkipListElement[K, V]
}

// at returns the position of the least key not below k.
func (m *model[K, V]) at(k K) (int, bool) {
	i := sort.Search(len(m.keys), func(i int) bool { return m.keys[i] >= k })
	return i, i < len(m.keys) && m.keys[i] == k
}

func (m *model[K, V]) put(k K, v V) {
	i, ok := m.at(k)
	if ok {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	copy(m.keys[i+1:], m.keys[i:])
	copy(m.vals[i+1:], m.vals[i:])
	m.keys[i], m.vals[i] = k, v
}

func (m *model[K, V]) del(k K) {
	i, ok := m.at(k)
	if !ok {
		return
	}
	m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
	for id, h := range m.nodes {
		if h.key == k {
			delete(m.nodes, id)
		}
	}
}

func (m *model[K, V]) keep(k K, e *gskiplist.SkipListElement[K, V]) {
	m.nn++
	m.nodes[m.nn%8] = &held[K, V]{k, e}
}

type lister[K gconstraints.Ordered, V comparable] struct {
	name string
	key  func(c *mon.C, n int) K // n: size of the key range
	val  func(n int) V
}

// walk visits the whole list from the element at position i and back.
func (m *model[K, V]) walk(c *mon.C, what string, e *gskiplist.SkipListElement[K, V], i int) {
	n := len(m.keys)
	steps := n + min(n, 3)
	x := e
	for s := 0; s <= steps; s++ {
		want := m.vals[(i+s)%n]
		if x == nil {
			c.Violate("%s: walking forward, step %d of %d entries: nil element, want the entry of key %v", what, s, n, m.keys[(i+s)%n])
		}
		if got := x.GetValue(); got != want {
			c.Violate("%s: walking forward from key %v, step %d of %d entries: value %v, want %v (key %v)", what, m.keys[i], s, n, got, want, m.keys[(i+s)%n])
		}
		x = m.list.Next(x)
	}
	x = e
	for s := 0; s <= steps; s++ {
		j := ((i-s)%n + n) % n
		if x == nil {
			c.Violate("%s: walking backward, step %d of %d entries: nil element, want the entry of key %v", what, s, n, m.keys[j])
		}
		if got := x.GetValue(); got != m.vals[j] {
			c.Violate("%s: walking backward from key %v, step %d of %d entries: value %v, want %v (key %v)", what, m.keys[i], s, n, got, m.vals[j], m.keys[j])
		}
		x = m.list.Prev(x)
	}
}

func (m *model[K, V]) ends(c *mon.C) {
	n := len(m.keys)
	if got := m.list.GetNodeCount(); got != n {
		c.Violate("GetNodeCount() = %d, want %d", got, n)
	}
	if got := m.list.IsEmpty(); got != (n == 0) {
		c.Violate("IsEmpty() = %v with %d entries", got, n)
	}
	a, b := m.list.GetSmallestNode(), m.list.GetLargestNode()
	if n == 0 {
		if a != nil || b != nil {
			c.Violate("an empty list has a smallest (%v) or largest (%v) node", a, b)
		}
		return
	}
	if a == nil || a.GetValue() != m.vals[0] {
		c.Violate("GetSmallestNode() is %v, want the entry of key %v (%v)", a.GetValue(), m.keys[0], m.vals[0])
	}
	if b == nil || b.GetValue() != m.vals[n-1] {
		c.Violate("GetLargestNode() is %v, want the entry of key %v (%v)", b.GetValue(), m.keys[n-1], m.vals[n-1])
	}
}

func (m *model[K, V]) full(c *mon.C, probes []K) {
	m.ends(c)
	if len(m.keys) > 0 {
		m.walk(c, "from GetSmallestNode", m.list.GetSmallestNode(), 0)
		m.walk(c, "from GetLargestNode", m.list.GetLargestNode(), len(m.keys)-1)
		for _, h := range m.nodes {
			i, _ := m.at(h.key)
			m.walk(c, fmt.Sprintf("from the node of key %v held since earlier", h.key), h.e, i)
		}
	}
	for _, k := range probes {
		m.find(c, k)
		m.ge(c, k, false)
	}
	for _, k := range m.keys {
		m.find(c, k)
		m.ge(c, k, false)
	}
}

func (m *model[K, V]) find(c *mon.C, k K) {
	v, ok := m.list.Find(k)
	i, want := m.at(k)
	var zero V
	if ok != want || ok && v != m.vals[i] || !ok && v != zero {
		if want {
			c.Violate("Find(%v) = %v, %v, want %v, true", k, v, ok, m.vals[i])
		}
		c.Violate("Find(%v) = %v, %v, want the zero value and false", k, v, ok)
	}
}

func (m *model[K, V]) ge(c *mon.C, k K, keep bool) {
	e, ok := m.list.FindGreaterOrEqual(k)
	i, _ := m.at(k)
	if i == len(m.keys) {
		if ok {
			c.Violate("FindGreaterOrEqual(%v) found %v though every key is below", k, e.GetValue())
		}
		return
	}
	if !ok || e == nil || e.GetValue() != m.vals[i] {
		c.Violate("FindGreaterOrEqual(%v) = %v, %v, want the entry of key %v (%v)", k, e.GetValue(), ok, m.keys[i], m.vals[i])
	}
	if keep {
		m.keep(m.keys[i], e)
	}
}

func (l lister[K, V]) run(c *mon.C) {
	mode := c.IntN(5)
	if os.Getenv("VERIF_VARIANT") == "heights" {
		vrand.Seed(c.Uint64(), mode)
	}
	lists := make([]*model[K, V], 1+c.IntN(2))
	for i := range lists {
		lists[i] = &model[K, V]{list: gskiplist.New[K, V](), nodes: map[int]*held[K, V]{}}
	}
	ops := 20 + c.Size(150)
	keys := 1 + c.Size(40)
	if c.Chance(25) {
		ops, keys = 300+c.IntN(600), 50+c.IntN(800)
	}
	huge := c.Big(400, 8000)
	if huge > 0 {
		ops, keys = 250+c.IntN(200), 4*huge
	}
	big := ops > 250 || huge > 0
	if big && huge == 0 && c.Chance(2) {
		keys *= 20
	}
	var past []K
	newKey := func() K {
		if len(past) > 0 && (!big && !c.Chance(3) || big && c.Chance(4)) {
			return past[c.IntN(len(past))]
		}
		k := l.key(c, keys)
		if len(past) < 2000 {
			past = append(past, k)
		}
		return k
	}
	c.Op("%s, %d lists, up to %d keys, heights mode %d", l.name, len(lists), keys, mode)
	insW := 1 + c.IntN(6)
	delW := 1 + c.IntN(4)
	order := c.IntN(4) // 1: insert ascending, 2: descending
	nv := 0
	var trace []any
	deletes := 0
	for huge > 0 && len(lists[0].keys) < huge && nv < 2*huge {
		k := newKey()
		nv++
		v := l.val(nv)
		lists[0].list.Insert(k, v)
		lists[0].put(k, v)
		mon.Beat()
	}
	if huge > 0 {
		c.Op("list 0 filled with %d random entries", len(lists[0].keys))
	}
	for o := 0; o < ops; o++ {
		li := c.IntN(len(lists))
		m := lists[li]
		if c.Chance(40) {
			insW, delW = delW, insW // phases of growth and shrinking
		}
		switch r := c.IntN(insW + delW + 4); {
		case r < insW:
			k := newKey()
			if order != 0 && len(m.keys) > 0 && !c.Chance(8) {
				// the next unused key beyond an end
				sort.Slice(past, func(i, j int) bool { return past[i] < past[j] })
				if order == 1 {
					for _, p := range past {
						if p > m.keys[len(m.keys)-1] {
							k = p
							break
						}
					}
				} else if order == 2 {
					for i := len(past) - 1; i >= 0; i-- {
						if past[i] < m.keys[0] {
							k = past[i]
							break
						}
					}
				}
			}
			nv++
			v := l.val(nv)
			c.Op("list %d: Insert(%v, %v)", li, k, v)
			m.list.Insert(k, v)
			m.put(k, v)
			trace = append(trace, li, 'i', k)
		case r < insW+delW:
			k := newKey()
			if n := len(m.keys); n > 0 {
				switch c.IntN(6) {
				case 0:
					k = m.keys[0]
				case 1:
					k = m.keys[n-1]
				case 2, 3:
					k = m.keys[c.IntN(n)]
				}
			}
			c.Op("list %d: Delete(%v)", li, k)
			m.list.Delete(k)
			if _, ok := m.at(k); ok {
				deletes++
			}
			m.del(k)
			trace = append(trace, li, 'd', k)
		case r == insW+delW:
			k := newKey()
			nv++
			v := l.val(nv)
			c.Op("list %d: ChangeValue(%v, %v)", li, k, v)
			_, want := m.at(k)
			if got := m.list.ChangeValue(k, v); got != want {
				c.Violate("ChangeValue(%v) = %v, want %v", k, got, want)
			}
			if want {
				m.put(k, v)
			}
		case r == insW+delW+1:
			k := newKey()
			c.Op("list %d: Find(%v)", li, k)
			m.find(c, k)
		case r == insW+delW+2:
			k := newKey()
			c.Op("list %d: FindGreaterOrEqual(%v)", li, k)
			m.ge(c, k, true)
		default:
			if len(m.keys) > 0 {
				c.Op("list %d: keep the end nodes", li)
				m.ends(c)
				m.keep(m.keys[0], m.list.GetSmallestNode())
				m.keep(m.keys[len(m.keys)-1], m.list.GetLargestNode())
			}
			if c.Chance(20) && huge == 0 { // its cost is quadratic
				c.Op("list %d: String()", li)
				_ = m.list.String()
			}
		}
		mon.Beat()
		for _, m := range lists {
			m.ends(c)
		}
		if !big || c.Chance(60) || o == ops-1 {
			probe := []K{newKey(), l.key(c, keys)}
			for _, m := range lists {
				m.full(c, probe)
			}
		}
		mon.Max("entries", len(m.keys))
	}
	l.none(c, newKey())
	// empty the lists completely and use them again
	for li, m := range lists {
		for len(m.keys) > 0 {
			k := m.keys[c.IntN(len(m.keys))]
			c.Op("list %d: Delete(%v)", li, k)
			m.list.Delete(k)
			m.del(k)
			m.ends(c)
		}
		m.full(c, past[:min(len(past), 5)])
		for i := 0; i < 6; i++ {
			k := newKey()
			nv++
			v := l.val(nv)
			c.Op("list %d: Insert(%v, %v)", li, k, v)
			m.list.Insert(k, v)
			m.put(k, v)
			m.full(c, nil)
		}
	}
	if deletes > 0 {
		c.Distinct(l.name, fmt.Sprint(trace))
		c.SampleTrace()
	}
}

// none uses a list that is not there: it holds nothing, and stays that way.
func (l lister[K, V]) none(c *mon.C, k K) {
	var (
		none *gskiplist.SkipList[K, V]
		node *gskiplist.SkipListElement[K, V]
		zero V
	)
	c.Op("nil list, key %v", k)
	none.Insert(k, l.val(1))
	none.Delete(k)
	if v, ok := none.Find(k); ok || any(v) != any(zero) {
		c.Violate("Find in a nil list = %v, %v", v, ok)
	}
	if e, ok := none.FindGreaterOrEqual(k); ok || e != nil {
		c.Violate("FindGreaterOrEqual in a nil list = %v, %v", e, ok)
	}
	if v := node.GetValue(); any(v) != any(zero) {
		c.Violate("GetValue of a nil node = %v", v)
	}
}

var inf = math.Inf(1)

type big struct {
	a string
	b [5]int
}

func TestC14(t *testing.T) {
	kinds := []interface{ run(*mon.C) }{
		lister[int, int]{"int keys", func(c *mon.C, n int) int { return c.IntN(n) }, func(n int) int { return n }},
		lister[int, string]{"spread int keys", func(c *mon.C, n int) int { return (c.IntN(n) - n/2) * 1000003 }, func(n int) string { return fmt.Sprint("v", n) }},
		lister[int8, *int]{"int8 keys", func(c *mon.C, n int) int8 { return mon.Pick(c, int8(c.IntN(256)-128), -128, 127, 0) }, func(n int) *int { return &n }},
		lister[uint64, big]{"uint64 keys", func(c *mon.C, n int) uint64 {
			return mon.Pick(c, uint64(c.IntN(n)), math.MaxUint64-uint64(c.IntN(n)), 1<<63+uint64(c.IntN(n)))
		}, func(n int) big { return big{fmt.Sprint(n), [5]int{n}} }},
		lister[float64, int]{"float keys", func(c *mon.C, n int) float64 {
			return mon.Pick(c, float64(c.IntN(n))/3, inf, -inf, 0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, -float64(c.IntN(n)))
		}, func(n int) int { return n }},
		lister[string, int]{"string keys", func(c *mon.C, n int) string {
			return mon.Pick(c, "", "a", "aa", "\x00", "\xff") + fmt.Sprint(c.IntN(n))[c.IntN(2):]
		}, func(n int) int { return n }},
		lister[named, any]{"named keys", func(c *mon.C, n int) named { return named(fmt.Sprint("k", c.IntN(n))) }, func(n int) any {
			if n%3 == 0 {
				return fmt.Sprint(n)
			}
			return n
		}},
	}
	mon.Cases(t, "list", mon.Num(16000, 400000), func(c *mon.C) {
		rounds := 1
		if mon.Replaying() {
			rounds = 200 // the heights are not ours to choose
		}
		k := kinds[c.IntN(len(kinds))]
		for i := 0; i < rounds; i++ {
			k.run(c)
		}
	})
	mon.Cases(t, "large", mon.Num(60, 2000), large)
}

// large is a list of many entries, judged at the end of each phase only.
func large(c *mon.C) {
	if os.Getenv("VERIF_VARIANT") == "heights" {
		vrand.Seed(c.Uint64(), 0)
	}
	n := c.BigTo(1, 6000, 140000)
	l := gskiplist.New[int, int]()
	val := make([]int, n) // 0: absent
	count := 0
	order := c.Perm(n)
	switch c.IntN(4) {
	case 0:
		slices.Sort(order)
	case 1:
		slices.Sort(order)
		slices.Reverse(order)
	}
	check := func(when string) {
		if got := l.GetNodeCount(); got != count || l.IsEmpty() != (count == 0) {
			c.Violate("%s: GetNodeCount() = %d, IsEmpty() = %v, %d entries are there", when, got, l.IsEmpty(), count)
		}
		var e *gskiplist.SkipListElement[int, int]
		for k := 0; k < n; k++ {
			if v, ok := l.Find(k); ok != (val[k] != 0) || v != val[k] {
				c.Violate("%s: Find(%d) = %v, %v, want %v", when, k, v, ok, val[k])
			}
			if val[k] == 0 {
				continue
			}
			if e == nil {
				e = l.GetSmallestNode()
			} else {
				e = l.Next(e)
			}
			if e == nil || e.GetValue() != val[k] {
				c.Violate("%s: walking forward meets %v instead of the entry of key %d (%v)", when, e.GetValue(), k, val[k])
			}
		}
		if e != l.GetLargestNode() {
			c.Violate("%s: the walk does not end at the largest node", when)
		}
		for k := n - 1; k >= 0; k-- {
			if val[k] == 0 {
				continue
			}
			if e == nil || e.GetValue() != val[k] {
				c.Violate("%s: walking backward meets %v instead of the entry of key %d (%v)", when, e.GetValue(), k, val[k])
			}
			e = l.Prev(e)
		}
	}
	c.Op("%d entries", n)
	mon.Max("entries", n)
	for _, k := range order {
		val[k] = 1 + c.IntN(1000)
		l.Insert(k, val[k])
		count++
		mon.Beat()
	}
	check("after the insertions")
	if c.Chance(2) {
		c.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	part := mon.Pick(c, n/2, n, 1, n-1)
	c.Op("%d of them deleted", part)
	for _, k := range order[:part] {
		l.Delete(k)
		val[k] = 0
		count--
		mon.Beat()
	}
	check("after the deletions")
	c.Op("all inserted again")
	for k := range val {
		if val[k] == 0 {
			count++
		}
		val[k] = 1 + c.IntN(1000)
		l.Insert(k, val[k])
	}
	check("after more insertions")
	c.Distinct("large", n, part)
}
