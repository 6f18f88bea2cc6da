// Monitor for C19: queues against a sequence.
package c19

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type queue[T comparable] struct {
	q    *gqueue.Queue[T]
	held []T
	kept mon.Ledger[T] // what PeekAll returned
}

type stream[T comparable] struct {
	ch   <-chan T
	want []T
}

// drain reads what an iterator yields.
func (s *stream[T]) drain(c *mon.C) {
	deadline := time.Now().Add(30 * time.Second)
	for i := 0; ; {
		select {
		case v, ok := <-s.ch:
			if !ok {
				if i != len(s.want) {
					c.Violate("the iterator ended after %d of %d elements", i, len(s.want))
				}
				return
			}
			if i >= len(s.want) {
				c.Violate("the iterator yields %v after its %d elements", v, i)
			}
			if v != s.want[i] {
				c.Violate("element %d of the iterator is %v, want %v", i, v, s.want[i])
			}
			i++
		default:
			if time.Now().After(deadline) {
				c.Violate("the iterator neither yields nor ends after %d of %d elements", i, len(s.want))
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func (m *queue[T]) check(c *mon.C, scribble bool) {
	n := len(m.held)
	if got := m.q.Len(); got != n {
		c.Violate("Len() = %d, want %d", got, n)
	}
	if got := gqueue.IsEmpty(m.q); got != (n == 0) {
		c.Violate("IsEmpty() = %v with %d elements", got, n)
	}
	all := gqueue.PeekAll(m.q)
	if len(all) != n {
		c.Violate("PeekAll() has %d elements, want %d", len(all), n)
	}
	for i, v := range all {
		if v != m.held[i] {
			c.Violate("PeekAll()[%d] = %v, want %v", i, v, m.held[i])
		}
	}
	if scribble {
		var zero T
		for i := range all {
			all[i] = zero
		}
	} else {
		m.kept.Keep(c, "PeekAll", all, *new(T))
	}
	m.head(c, "Peek", func() (T, error) { return gqueue.Peek(m.q) })
}

func (m *queue[T]) head(c *mon.C, what string, f func() (T, error)) {
	v, err := f()
	if len(m.held) == 0 {
		var zero T
		if err == nil || v != zero {
			c.Violate("%s of an empty queue = %v, %v, want the zero value and an error", what, v, err)
		}
		return
	}
	if err != nil || v != m.held[0] {
		c.Violate("%s = %v, %v, want %v (of %d)", what, v, err, m.held[0], len(m.held))
	}
}

func run[T comparable](c *mon.C, name string, val func(n int) T) {
	type sliceT []T
	var qs []*queue[T]
	var streams []*stream[T]
	n := 0
	huge := c.BigTo(400, 20000, 140000)
	next := func() T { n++; return val(n) }
	build := func() {
		m := &queue[T]{}
		if c.Chance(2) {
			m.q = gqueue.New[T]()
			c.Op("queue %d: New", len(qs))
		} else {
			var src []T
			n := c.Size(40)
			if huge > 0 {
				n = huge
			}
			for i := n; i > 0; i-- {
				src = append(src, next())
			}
			m.held = append(m.held, src...)
			c.Op("queue %d: Gen(%d elements %v)", len(qs), len(src), slices.Clone(src[:min(len(src), 50)]))
			if c.Chance(2) {
				m.q = gqueue.Gen[T](src)
			} else {
				m.q = gqueue.Gen[T](sliceT(src))
			}
			var zero T
			for i := range src { // the slice is the caller's
				src[i] = zero
			}
		}
		qs = append(qs, m)
	}
	build()
	if c.Chance(3) {
		build()
	}
	pushW, popW := 1+c.IntN(6), 1+c.IntN(5)
	ops := 5 + c.Size(120)
	if huge > 0 {
		ops = 5 + c.IntN(40)
		m := qs[0]
		c.Op("push up to %d", huge)
		for i := 0; len(m.held) < huge; i++ {
			if i%3 == 2 { // the head moves on while the queue grows
				m.head(c, "Pop", m.q.Pop)
				m.held = m.held[1:]
				continue
			}
			v := next()
			if err := m.q.Push(v); err != nil {
				c.Violate("Push(%v): %v", v, err)
			}
			m.held = append(m.held, v)
		}
	}
	var trace strings.Builder
	for o := 0; o < ops; o++ {
		qi := c.IntN(len(qs))
		m := qs[qi]
		if c.Chance(30) {
			pushW, popW = popW, pushW
		}
		fmt.Fprint(&trace, qi, len(m.held))
		switch r := c.IntN(pushW + popW + 2); {
		case r < pushW:
			v := next()
			c.Op("queue %d: Push(%v)", qi, v)
			if err := m.q.Push(v); err != nil {
				c.Violate("Push(%v): %v", v, err)
			}
			m.held = append(m.held, v)
		case r < pushW+popW:
			c.Op("queue %d: Pop()", qi)
			m.head(c, "Pop", m.q.Pop)
			if len(m.held) > 0 {
				m.held = m.held[1:]
			}
			mon.Count("pops", 1)
		case r == pushW+popW && c.Chance(3):
			c.Op("queue %d: Clear()", qi)
			gqueue.Clear(m.q)
			m.held = nil
		case r == pushW+popW:
			c.Op("queue %d: Peek()", qi)
			m.head(c, "Peek", func() (T, error) { return gqueue.Peek(m.q) })
		case c.Chance(3):
			c.Op("queue %d: Iterator()", qi)
			s := &stream[T]{gqueue.Iterator(m.q), m.held}
			m.held = nil
			mon.Count("iterators", 1)
			if c.Chance(2) {
				m.check(c, false)
				c.Op("read the iterator")
				s.drain(c)
			} else {
				streams = append(streams, s)
			}
		}
		for _, m := range qs {
			m.check(c, c.Chance(3))
		}
		mon.Max("length", len(m.held))
	}
	for _, s := range streams {
		c.Op("read an iterator kept")
		s.drain(c)
	}
	for qi, m := range qs {
		c.Op("queue %d: pop everything", qi)
		for len(m.held) > 0 {
			m.head(c, "Pop", m.q.Pop)
			m.held = m.held[1:]
			if len(m.held) < 200 || len(m.held)%512 == 0 {
				m.check(c, false)
			}
		}
		m.head(c, "Pop", m.q.Pop)
	}
	if ops > 5 {
		c.Distinct(name, trace.String())
		c.SampleTrace()
	}
}

func TestC19(t *testing.T) {
	mon.Cases(t, "queue", mon.Num(80000, 2000000), func(c *mon.C) {
		switch c.IntN(5) {
		case 0:
			run(c, "strings", func(n int) string { return fmt.Sprint("v", n) })
		case 1:
			run(c, "pointers", func(n int) *int {
				if n%5 == 0 {
					return nil
				}
				return &n
			})
		case 2:
			run(c, "any", func(n int) any {
				if n%4 == 0 {
					return nil
				}
				return n
			})
		case 3:
			run(c, "structs", func(n int) [3]int { return [3]int{n, n} })
		default:
			run(c, "ints", func(n int) int { return n })
		}
	})
}
