// Monitor for C20: rings against cyclic sequences.
package c20

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type node = *gring.Ring[int]

type world struct {
	rings [][]node // each in forward order
	total int
}

// find returns the ring and position of x.
func (w *world) find(x node) (int, int) {
	for ri, r := range w.rings {
		if i := slices.Index(r, x); i >= 0 {
			return ri, i
		}
	}
	return -1, -1
}

func (w *world) id(x node) string {
	if x == nil {
		return "nil"
	}
	if ri, _ := w.find(x); ri < 0 {
		return "an unknown element"
	}
	return fmt.Sprintf("r%d", x.Value)
}

// rot returns ring r starting at position i.
func rot(r []node, i int) []node {
	return append(slices.Clone(r[i:]), r[:i]...)
}

func (w *world) check(c *mon.C, every bool) {
	for _, r := range w.rings {
		n := len(r)
		for i, x := range r {
			if a := x.Next(); a != r[(i+1)%n] {
				c.Violate("the element after %s is %s, want %s (ring of %d)", w.id(x), w.id(a), w.id(r[(i+1)%n]), n)
			}
			if a := x.Prev(); a != r[(i+n-1)%n] {
				c.Violate("the element before %s is %s, want %s (ring of %d)", w.id(x), w.id(a), w.id(r[(i+n-1)%n]), n)
			}
			if i > 0 && (!every || n > 2000 && i%(n/4) > 0) {
				continue
			}
			if a := x.Len(); a != n {
				c.Violate("%s.Len() = %d, want %d", w.id(x), a, n)
			}
			j := 0
			x.Do(func(v any) {
				if j >= n || v != any(r[(i+j)%n].Value) {
					c.Violate("%s.Do visits %v as number %d of %d", w.id(x), v, j, n)
				}
				j++
			})
			if j != n {
				c.Violate("%s.Do visited %d of %d elements", w.id(x), j, n)
			}
		}
	}
}

func TestC20(t *testing.T) {
	mon.Cases(t, "ring", mon.Num(80000, 2000000), func(c *mon.C) {
		w := &world{}
		huge := c.BigTo(400, 2000, 140000)
		add := func() {
			if c.Chance(4) && (huge == 0 || w.total > 0) {
				x := &gring.Ring[int]{}
				w.total++
				x.Value = w.total
				w.rings = append(w.rings, []node{x})
				c.Op("r%d: zero ring", w.total)
				return
			}
			n := 1 + c.Size(12)
			if huge > 0 && w.total < 2*huge {
				n = huge
			}
			r := gring.New[int](n)
			var ring []node
			c.Op("New(%d): r%d...", n, w.total+1)
			x := r
			seen := map[node]bool{}
			for i := 0; i < n; i++ {
				if x == nil || seen[x] {
					c.Violate("New(%d) has only %d elements", n, i)
				}
				w.total++
				x.Value = w.total
				ring = append(ring, x)
				seen[x] = true
				x = x.Next()
			}
			if x != r {
				c.Violate("New(%d) has more than %d elements", n, n)
			}
			w.rings = append(w.rings, ring)
		}
		for i := 1 + c.IntN(3); i > 0; i-- {
			add()
		}
		if c.Chance(10) {
			for _, n := range []int{0, -1, -5} {
				c.Op("New(%d)", n)
				if r := gring.New[int](n); r != nil {
					c.Violate("New(%d) is not the empty ring", n)
				}
			}
			var none *gring.Ring[int]
			c.Op("Len and Do of an empty ring")
			if none.Len() != 0 {
				c.Violate("an empty ring has length %d", none.Len())
			}
			none.Do(func(any) { c.Violate("Do of an empty ring calls its function") })
		}
		if c.Chance(2) { // otherwise zero rings meet their first call unprepared
			w.check(c, true)
		}
		ops := 3 + c.Size(40)
		if huge > 0 {
			ops = 3 + c.IntN(8)
		}
		var trace strings.Builder
		links := 0
		for o := 0; o < ops; o++ {
			ri := c.IntN(len(w.rings))
			r := w.rings[ri]
			i := c.IntN(len(r))
			x := r[i]
			n := len(r)
			op := c.IntN(8)
			fmt.Fprint(&trace, op, x.Value, n)
			switch op {
			case 0:
				if w.total < 60 {
					add()
				}
			case 1, 2, 3:
				if c.Chance(12) {
					c.Op("r%d.Link(nil)", x.Value)
					if got := x.Link(nil); got != r[(i+1)%n] {
						c.Violate("Link(nil) returned %s, want the next element %s", w.id(got), w.id(r[(i+1)%n]))
					}
					break
				}
				si := c.IntN(len(w.rings))
				if c.Chance(3) {
					si = ri
				}
				s := w.rings[si]
				j := c.IntN(len(s))
				c.Op("r%d.Link(r%d)", x.Value, s[j].Value)
				links++
				got := x.Link(s[j])
				if want := r[(i+1)%n]; got != want {
					c.Violate("Link returned %s, want the former next element %s", w.id(got), w.id(want))
				}
				if si != ri {
					joined := append(append([]node{x}, rot(s, j)...), rot(r, i)[1:]...)
					w.rings[ri] = joined
					w.rings = slices.Delete(w.rings, si, si+1)
				} else {
					line := rot(r, i) // starts with x
					k := (j - i + n) % n
					if k == 0 {
						k = n // x linked to itself: everything else goes
					}
					cut := slices.Clone(line[1:k])
					w.rings[ri] = append([]node{x}, line[k:]...)
					if len(cut) > 0 {
						w.rings = append(w.rings, cut)
					}
				}
			case 4, 5:
				k := c.IntN(2*n+3) - 2
				if c.Chance(6) {
					k = n * c.IntN(4)
				}
				c.Op("r%d.Unlink(%d)", x.Value, k)
				links++
				got := x.Unlink(k)
				if k <= 0 {
					if got != nil {
						c.Violate("Unlink(%d) returned %s", k, w.id(got))
					}
					break
				}
				if k%n == 0 {
					break // nothing removed; the result may be anything of the ring
				}
				line := rot(r, i)
				cut := slices.Clone(line[1 : k%n+1])
				if got != cut[0] {
					c.Violate("Unlink(%d) returned %s, want %s", k, w.id(got), w.id(cut[0]))
				}
				w.rings[ri] = append([]node{x}, line[k%n+1:]...)
				w.rings = append(w.rings, cut)
			default:
				k := c.IntN(6*n+1) - 3*n
				if c.Chance(4) {
					k = (c.IntN(5) - 2) * n
				}
				c.Op("r%d.Move(%d)", x.Value, k)
				want := r[((i+k)%n+n)%n]
				if got := x.Move(k); got != want {
					c.Violate("Move(%d) in a ring of %d landed on %s, want %s", k, n, w.id(got), w.id(want))
				}
			}
			sum := 0
			for _, r := range w.rings {
				sum += len(r)
				mon.Max("ring", len(r))
			}
			if sum != w.total {
				mon.Errorf("the model lost elements")
			}
			if !c.Chance(4) || o == ops-1 {
				w.check(c, c.Chance(3) || o == ops-1)
			}
			mon.Beat()
		}
		mon.Count("links and unlinks", links)
		if links > 1 {
			c.Distinct(trace.String())
			c.SampleTrace()
		}
	})
}
