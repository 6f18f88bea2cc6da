// Monitor for C18: linked lists against sequences of element handles.
package c18

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type list[T comparable] struct {
	l     *glist.List[T]
	elems []*glist.Element[T]
}

type world[T comparable] struct {
	lists []*list[T]
	value map[*glist.Element[T]]T
	owner map[*glist.Element[T]]*list[T] // absent: foreign or removed
	all   []*glist.Element[T]
	val   func(n int) T
	n     int
}

func (w *world[T]) id(e *glist.Element[T]) string {
	if e == nil {
		return "nil"
	}
	i := slices.Index(w.all, e)
	if i < 0 {
		return "an unknown element"
	}
	return fmt.Sprintf("e%d", i)
}

// check compares every list with its model, walking both ways.
func (w *world[T]) check(c *mon.C) {
	for li, m := range w.lists {
		n := len(m.elems)
		if got := m.l.Len(); got != n {
			c.Violate("list %d: Len() = %d, want %d", li, got, n)
		}
		f, b := m.l.Front(), m.l.Back()
		var wf, wb *glist.Element[T]
		if n > 0 {
			wf, wb = m.elems[0], m.elems[n-1]
		}
		if f != wf {
			c.Violate("list %d: Front() is %s, want %s", li, w.id(f), w.id(wf))
		}
		if b != wb {
			c.Violate("list %d: Back() is %s, want %s", li, w.id(b), w.id(wb))
		}
		e := f
		for i := 0; i < n; i++ {
			if e != m.elems[i] {
				c.Violate("list %d: walking forward, position %d of %d holds %s, want %s", li, i, n, w.id(e), w.id(m.elems[i]))
			}
			if e.Value != w.value[e] {
				c.Violate("list %d: %s has value %v, want %v", li, w.id(e), e.Value, w.value[e])
			}
			e = e.Next()
		}
		if e != nil {
			c.Violate("list %d: %s follows the last element", li, w.id(e))
		}
		e = b
		for i := n - 1; i >= 0; i-- {
			if e != m.elems[i] {
				c.Violate("list %d: walking backward, position %d of %d holds %s, want %s", li, i, n, w.id(e), w.id(m.elems[i]))
			}
			e = e.Prev()
		}
		if e != nil {
			c.Violate("list %d: %s precedes the first element", li, w.id(e))
		}
		i := 0
		m.l.Range(func(e *glist.Element[T]) {
			if i >= n || e != m.elems[i] {
				c.Violate("list %d: Range position %d of %d holds %s", li, i, n, w.id(e))
			}
			i++
		})
		if i != n {
			c.Violate("list %d: Range visited %d of %d elements", li, i, n)
		}
	}
}

// adopt notes that e is a new element of m at position i.
func (w *world[T]) adopt(c *mon.C, m *list[T], i int, e *glist.Element[T], v T) {
	if e == nil {
		c.Violate("no element returned for an insertion")
	}
	if _, old := w.value[e]; old {
		c.Violate("an insertion returned the old element %s", w.id(e))
	}
	if e.Value != v {
		c.Violate("the new element's value is %v, want %v", e.Value, v)
	}
	w.note(m, e, v)
	m.elems = slices.Insert(m.elems, i, e)
}

func (w *world[T]) note(m *list[T], e *glist.Element[T], v T) {
	w.all = append(w.all, e)
	w.value[e], w.owner[e] = v, m
}

// adoptCopies notes copies of vals from position i on.
func (w *world[T]) adoptCopies(c *mon.C, m *list[T], i int, vals []T) {
	want := len(m.elems) + len(vals)
	if got := m.l.Len(); got != want {
		c.Violate("Len() = %d after a list copy, want %d", got, want)
	}
	e := m.l.Front()
	for j := 0; j < i; j++ {
		if e != m.elems[j] {
			c.Violate("after a list copy position %d holds %s, want %s", j, w.id(e), w.id(m.elems[j]))
		}
		e = e.Next()
	}
	var es []*glist.Element[T]
	for j, v := range vals {
		if e == nil {
			c.Violate("after a list copy the list ends at position %d of %d", i+j, want)
		}
		if _, old := w.value[e]; old {
			c.Violate("a list copy reuses the element %s", w.id(e))
		}
		if e.Value != v {
			c.Violate("after a list copy position %d holds the value %v, want %v", i+j, e.Value, v)
		}
		w.note(m, e, v)
		es = append(es, e)
		e = e.Next()
	}
	m.elems = slices.Insert(m.elems, i, es...)
}

func run[T comparable](c *mon.C, name string, val func(n int) T) {
	w := &world[T]{value: map[*glist.Element[T]]T{}, owner: map[*glist.Element[T]]*list[T]{}, val: val}
	var zeros [4]glist.List[T]
	nl := 1 + c.IntN(3)
	for i := 0; i < nl; i++ {
		switch c.IntN(3) {
		case 0:
			w.lists = append(w.lists, &list[T]{l: &zeros[i]})
			c.Op("list %d: zero list", i)
		case 1:
			w.lists = append(w.lists, &list[T]{l: glist.New[T]()})
			c.Op("list %d: New", i)
		default:
			w.lists = append(w.lists, &list[T]{l: zeros[i].Init()})
			c.Op("list %d: Init", i)
		}
	}
	stray := &glist.Element[T]{Value: val(-1)}
	w.all = append(w.all, stray)
	w.value[stray] = val(-1)
	c.Op("%s; e0 belongs to no list", name)
	w.check(c)
	ops := 5 + c.Size(80)
	limit := 40
	if huge := c.BigTo(400, 4000, 140000); huge > 0 {
		ops, limit = 5+c.IntN(30), huge+100
		m := w.lists[0]
		var front, back []*glist.Element[T]
		for i := 0; i < huge; i++ {
			w.n++
			v := val(w.n)
			var e *glist.Element[T]
			if i%2 == 0 {
				e = m.l.PushBack(v)
				back = append(back, e)
			} else {
				e = m.l.PushFront(v)
				front = append(front, e)
			}
			if e == nil {
				c.Violate("no element returned for an insertion")
			}
			if _, old := w.value[e]; old || e.Value != v {
				c.Violate("an insertion of %v returned an old element or one with the value %v", v, e.Value)
			}
			w.note(m, e, v)
		}
		slices.Reverse(front)
		m.elems = append(append(front, m.elems...), back...)
		c.Op("list 0 filled to %d elements", huge)
		w.check(c)
	}
	var trace strings.Builder
	foreign := 0
	for o := 0; o < ops; o++ {
		li := c.IntN(nl)
		m := w.lists[li]
		n := len(m.elems)
		// an element: usually of this list, sometimes of another or of none
		pick := func() *glist.Element[T] {
			if n > 0 && !c.Chance(4) {
				switch c.IntN(5) {
				case 0:
					return m.elems[0]
				case 1:
					return m.elems[n-1]
				}
				return m.elems[c.IntN(n)]
			}
			return w.all[c.IntN(len(w.all))]
		}
		mine := func(e *glist.Element[T]) bool { return w.owner[e] == m }
		w.n++
		v := val(w.n)
		take := func(e *glist.Element[T]) {
			i := slices.Index(m.elems, e)
			m.elems = slices.Delete(slices.Clone(m.elems), i, i+1)
		}
		op := c.IntN(11)
		if n > limit && op < 4 {
			op = 4
		}
		switch op {
		case 0:
			c.Op("list %d: PushFront(%v)", li, v)
			w.adopt(c, m, 0, m.l.PushFront(v), v)
		case 1:
			c.Op("list %d: PushBack(%v)", li, v)
			w.adopt(c, m, n, m.l.PushBack(v), v)
		case 2, 3:
			mark := pick()
			before := op == 2
			f, nm := m.l.InsertAfter, "InsertAfter"
			if before {
				f, nm = m.l.InsertBefore, "InsertBefore"
			}
			c.Op("list %d: %s(%v, %s)", li, nm, v, w.id(mark))
			e := f(v, mark)
			if !mine(mark) {
				foreign++
				if e != nil {
					c.Violate("%s at a foreign mark returned an element", nm)
				}
				break
			}
			i := slices.Index(m.elems, mark)
			if !before {
				i++
			}
			w.adopt(c, m, i, e, v)
		case 4, 5:
			e := pick()
			c.Op("list %d: Remove(%s)", li, w.id(e))
			got := m.l.Remove(e)
			if got != any(w.value[e]) {
				c.Violate("Remove returned %v, want %v", got, w.value[e])
			}
			if mine(e) {
				take(e)
				delete(w.owner, e)
			} else {
				foreign++
			}
		case 6:
			e := pick()
			front := c.Chance(2)
			nm, f := "MoveToFront", m.l.MoveToFront
			if !front {
				nm, f = "MoveToBack", m.l.MoveToBack
			}
			c.Op("list %d: %s(%s)", li, nm, w.id(e))
			f(e)
			if mine(e) {
				take(e)
				if front {
					m.elems = slices.Insert(m.elems, 0, e)
				} else {
					m.elems = append(m.elems, e)
				}
			} else {
				foreign++
			}
		case 7, 8:
			e, mark := pick(), pick()
			before := op == 7
			nm, f := "MoveBefore", m.l.MoveBefore
			if !before {
				nm, f = "MoveAfter", m.l.MoveAfter
			}
			c.Op("list %d: %s(%s, %s)", li, nm, w.id(e), w.id(mark))
			f(e, mark)
			if mine(e) && mine(mark) && e != mark {
				take(e)
				i := slices.Index(m.elems, mark)
				if !before {
					i++
				}
				m.elems = slices.Insert(m.elems, i, e)
			} else if e != mark {
				foreign++
			}
		case 9:
			oi := c.IntN(nl)
			other := w.lists[oi]
			if n+len(other.elems) > limit+20 && (limit == 40 || n+len(other.elems) > 3*limit) {
				break
			}
			var vals []T
			for _, e := range other.elems {
				vals = append(vals, w.value[e])
			}
			if c.Chance(2) {
				c.Op("list %d: PushBackList(list %d)", li, oi)
				m.l.PushBackList(other.l)
				w.adoptCopies(c, m, n, vals)
			} else {
				c.Op("list %d: PushFrontList(list %d)", li, oi)
				m.l.PushFrontList(other.l)
				w.adoptCopies(c, m, 0, vals)
			}
		default:
			e := w.all[c.IntN(len(w.all))]
			c.Op("%s.Value = %v", w.id(e), v)
			e.Value = v
			w.value[e] = v
		}
		fmt.Fprint(&trace, li, op, len(m.elems))
		w.check(c)
		for _, e := range w.all {
			if e.Value != w.value[e] {
				c.Violate("%s has value %v, want %v", w.id(e), e.Value, w.value[e])
			}
		}
		mon.Beat()
		mon.Max("length", len(m.elems))
	}
	mon.Count("foreign elements", foreign)
	if foreign > 0 {
		c.Distinct(name, trace.String())
		c.SampleTrace()
	}
}

func TestC18(t *testing.T) {
	mon.Cases(t, "list", mon.Num(80000, 2000000), func(c *mon.C) {
		switch c.IntN(4) {
		case 0:
			run(c, "strings", func(n int) string { return fmt.Sprint("v", n) })
		case 1:
			run(c, "pairs", func(n int) [2]int { return [2]int{n, -n} })
		case 2:
			run(c, "any", func(n int) any {
				if n%4 == 0 {
					return nil
				}
				return n
			})
		default:
			run(c, "ints", func(n int) int { return n % 5 })
		}
	})
}
