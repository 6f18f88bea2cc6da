// Monitor for C17: heaps against a multiset.
package c17

import (
	"fmt"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type kind[T comparable] struct {
	name string
	less func(a, b T) bool
	gen  func(c *mon.C, n, id int) T
}

type heap[T comparable] struct {
	h    *gheap.Heap[T]
	held []T
}

func (k kind[T]) pop(c *mon.C, id int, m *heap[T]) {
	before := len(m.held)
	got := gheap.Pop(m.h)
	at := -1
	for i, x := range m.held {
		if x == got {
			at = i
			break
		}
	}
	if at < 0 {
		c.Violate("heap %d: Pop returned %v, which is not among the %d elements held: %v", id, got, before, clip(m.held))
	}
	for _, x := range m.held {
		if k.less(x, got) {
			c.Violate("heap %d: Pop returned %v though %v precedes it; held: %v", id, got, x, clip(m.held))
		}
	}
	m.held[at] = m.held[before-1]
	m.held = m.held[:before-1]
	mon.Count("pops", 1)
}

func clip[T any](s []T) []T { return s[:min(len(s), 50)] }

func (k kind[T]) run(c *mon.C) {
	var heaps []*heap[T]
	id := 0
	rng := 1 + c.Size(60) // few values: many equal elements
	mk := func() T { id++; return k.gen(c, rng, id) }
	build := func() {
		m := &heap[T]{}
		if c.Chance(3) {
			m.h = gheap.New[T](k.less)
			c.Op("heap %d: New", len(heaps))
		} else {
			n := c.Size(60)
			if c.Chance(40) {
				n = 200 + c.IntN(1500)
			}
			var data []T
			if n > 0 || c.Chance(2) {
				data = make([]T, 0, n+c.IntN(5))
			}
			shape := c.IntN(4)
			for i := 0; i < n; i++ {
				x := mk()
				if shape == 1 && i > 0 && k.less(x, data[i-1]) || shape == 2 && i > 0 && k.less(data[i-1], x) {
					x = data[i-1]
					if c.Chance(2) {
						x = mk()
					}
				}
				data = append(data, x)
			}
			m.held = append(m.held, data...)
			c.Op("heap %d: NewWithData(%v)", len(heaps), clip(m.held))
			m.h = gheap.NewWithData(data, k.less)
		}
		heaps = append(heaps, m)
	}
	build()
	if c.Chance(3) {
		build()
	}
	var trace strings.Builder
	pushW, popW := 1+c.IntN(5), 1+c.IntN(4)
	ops := c.Size(150)
	for o := 0; o < ops; o++ {
		hi := c.IntN(len(heaps))
		m := heaps[hi]
		if c.Chance(30) {
			pushW, popW = popW, pushW
		}
		if c.IntN(pushW+popW) < pushW || len(m.held) == 0 {
			x := mk()
			if len(m.held) > 0 && c.Chance(8) {
				x = m.held[c.IntN(len(m.held))] // the very same element again
			}
			c.Op("heap %d: Push(%v)", hi, x)
			gheap.Push(m.h, x)
			m.held = append(m.held, x)
			fmt.Fprint(&trace, hi, x)
		} else {
			c.Op("heap %d: Pop()", hi)
			k.pop(c, hi, m)
			fmt.Fprint(&trace, hi, "p")
		}
		mon.Max("held", len(m.held))
	}
	for hi, m := range heaps {
		c.Op("heap %d: pop the %d elements left", hi, len(m.held))
		fmt.Fprint(&trace, len(m.held))
		for len(m.held) > 0 {
			k.pop(c, hi, m)
			mon.Beat()
		}
		// an emptied heap works on
		for i := 0; i < 3; i++ {
			x := mk()
			c.Op("heap %d: Push(%v)", hi, x)
			gheap.Push(m.h, x)
			m.held = append(m.held, x)
		}
		for len(m.held) > 0 {
			k.pop(c, hi, m)
		}
	}
	if ops > 2 {
		c.Distinct(k.name, trace.String())
		c.SampleTrace()
	}
}

// huge pushes and pops thousands of elements; in a run of Pops no element may
// precede the one popped before it.
func (k kind[T]) huge(c *mon.C) {
	n := c.BigTo(1, 30000, 140000)
	rng := mon.Pick(c, 2, n/4+1, 4*n+1)
	id := 0
	mk := func() T { id++; return k.gen(c, rng, id) }
	count := map[T]int{}
	held := 0
	var data []T
	for i := 0; i < n; i++ {
		x := mk()
		data = append(data, x)
		count[x]++
		held++
	}
	c.Op("NewWithData(%d elements)", n)
	h := gheap.NewWithData(data, k.less)
	pop := func(last T, some bool) T {
		x := gheap.Pop(h)
		if count[x] == 0 {
			c.Violate("Pop returned %v, which is not among the %d elements held", x, held)
		}
		if some && k.less(x, last) {
			c.Violate("Pop returned %v after %v though it precedes it and was held already", x, last)
		}
		if count[x]--; count[x] == 0 {
			delete(count, x)
		}
		held--
		mon.Beat()
		return x
	}
	for round := 0; round < 3; round++ {
		var last T
		some := false
		m := c.IntN(held + 1)
		c.Op("pop %d of %d", m, held)
		for ; m > 0; m-- {
			last, some = pop(last, some), true
		}
		m = c.IntN(n/2 + 2)
		c.Op("push %d", m)
		for ; m > 0; m-- {
			x := mk()
			count[x]++
			held++
			gheap.Push(h, x)
			mon.Beat()
		}
	}
	c.Op("pop the %d left", held)
	var last T
	some := false
	mon.Max("held", held)
	for held > 0 {
		last, some = pop(last, some), true
	}
	c.Distinct(k.name, n, rng, id)
}

type job struct{ prio, id int }

func TestC17(t *testing.T) {
	kinds := []interface {
		run(*mon.C)
		huge(*mon.C)
	}{
		kind[int]{"ints ascending", func(a, b int) bool { return a < b }, func(c *mon.C, n, id int) int { return c.IntN(n) }},
		kind[int]{"ints descending", func(a, b int) bool { return a > b }, func(c *mon.C, n, id int) int { return c.IntN(n) - n/2 }},
		kind[job]{"jobs by priority", func(a, b job) bool { return a.prio < b.prio }, func(c *mon.C, n, id int) job { return job{c.IntN(n), id} }},
		kind[job]{"jobs all equal", func(a, b job) bool { return false }, func(c *mon.C, n, id int) job { return job{0, id} }},
		kind[job]{"jobs by priority, two classes", func(a, b job) bool { return a.prio%2 < b.prio%2 }, func(c *mon.C, n, id int) job { return job{c.IntN(n), id} }},
		kind[*job]{"pointers", func(a, b *job) bool { return a.prio > b.prio }, func(c *mon.C, n, id int) *job { return &job{c.IntN(n), id} }},
		kind[string]{"strings", func(a, b string) bool { return a < b }, func(c *mon.C, n, id int) string { return strings.Repeat("a", c.IntN(4)) + fmt.Sprint(c.IntN(n)) }},
		kind[float64]{"floats", func(a, b float64) bool { return a < b }, func(c *mon.C, n, id int) float64 { return float64(c.IntN(n)) / 3 }},
		kind[any]{"mixed by printed length", func(a, b any) bool { return len(fmt.Sprint(a)) < len(fmt.Sprint(b)) }, func(c *mon.C, n, id int) any { return mon.Pick[any](c, id, fmt.Sprint(id*id), nil, true, job{id, n}) }},
		kind[int]{"distinct ints", func(a, b int) bool { return a < b }, func(c *mon.C, n, id int) int { return id*7919%10007 - 5000 }},
	}
	mon.Cases(t, "heap", mon.Num(40000, 1000000), func(c *mon.C) {
		kinds[c.IntN(len(kinds))].run(c)
	})
	mon.Cases(t, "huge", mon.Num(200, 10000), func(c *mon.C) {
		kinds[c.IntN(len(kinds))].huge(c)
	})
}
