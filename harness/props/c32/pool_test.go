// Monitor for C32: an ownership ledger around every Get and Put.
package c32

import (
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type state int

const (
	unknown state = iota
	made          // by the constructor, not handed out yet
	held
	pooled
)

// obj is what pools of pointers hold; its holder writes its mark into it.
type obj struct {
	id   int
	mark uint64
	pad  [3]uint64
}

// kind tells a ledger how to treat one element type.
type kind[T any] struct {
	name   string
	make   func(n int) T       // what the constructor returns the n-th time
	id     func(v T) any       // identity of an object
	write  func(v T, m uint64) // the holder's mark (nil: immutable values)
	read   func(v T) uint64
	stray  func(n int) T // an object not made by the constructor
	shared func(v T) bool
}

type entry struct {
	st   state
	n    int // of a value without identity: how many are in the pool
	mark uint64
	by   int
}

type ledger struct {
	mu      sync.Mutex
	c       *mon.C
	objs    map[any]*entry
	alive   []any // so that no address is used again
	made    int
	fresh   int
	recycle int
}

func (l *ledger) lock() func() { l.mu.Lock(); return l.mu.Unlock }

func pools[T any](c *mon.C, k kind[T], clients, steps int) {
	var ls []*ledger
	var ps []*gpool.Pool[T]
	for i := 1 + c.IntN(2); i > 0; i-- {
		l := &ledger{c: c, objs: map[any]*entry{}}
		base := len(ls) * 1000000
		p := gpool.New(func() T {
			defer l.lock()()
			v := k.make(base + l.made)
			l.made++
			id := k.id(v)
			e := l.objs[id]
			if e == nil {
				e = &entry{}
				l.objs[id] = e
			}
			e.st = made
			e.n++
			if k.read != nil {
				e.mark = k.read(v)
			}
			l.alive = append(l.alive, v)
			return v
		})
		ls = append(ls, l)
		ps = append(ps, &p)
	}
	type holding struct {
		v    T
		mark uint64
		l    int
	}
	client := func(g int, seed uint64) {
		r := mon.NewRand(seed)
		var mine []holding
		n := 0
		token := func() uint64 { n++; return uint64(g+1)<<32 | uint64(n) }
		put := func() {
			i := r.IntN(len(mine))
			h := mine[i]
			mine[i] = mine[len(mine)-1]
			mine = mine[:len(mine)-1]
			l := ls[h.l]
			id := k.id(h.v)
			l.mu.Lock()
			e := l.objs[id]
			if k.read != nil {
				if m := k.read(h.v); m != h.mark {
					l.mu.Unlock()
					c.Violate("%s: object %v changed while client %d held it: mark %#x, was %#x", k.name, id, g, m, h.mark)
				}
				h.mark = token()
				k.write(h.v, h.mark)
			}
			e.st, e.mark, e.by = pooled, h.mark, -1
			e.n++
			l.mu.Unlock()
			c.Op("client %d: Put(%v) to pool %d", g, id, h.l)
			ps[h.l].Put(h.v)
		}
		get := func() {
			li := r.IntN(len(ls))
			l := ls[li]
			v := ps[li].Get()
			id := k.id(v)
			c.Op("client %d: Get from pool %d = %v", g, li, id)
			l.mu.Lock()
			e := l.objs[id]
			var msg string
			switch {
			case e == nil:
				msg = "was neither made by the constructor nor put"
			case k.read == nil:
				if e.n--; e.n < 0 {
					msg = "was handed out more often than made and put"
				}
			case e.st == held:
				msg = fmt.Sprintf("is held by client %d", e.by)
			case k.read(v) != e.mark:
				msg = fmt.Sprintf("changed in the pool: mark %#x, was %#x", k.read(v), e.mark)
			}
			if msg != "" {
				l.mu.Unlock()
				c.Violate("%s: Get by client %d returned %v, which %s", k.name, g, id, msg)
			}
			if e.st == made {
				l.fresh++
			} else {
				l.recycle++
			}
			h := holding{v, 0, li}
			if k.read != nil {
				h.mark = token()
				k.write(v, h.mark)
			}
			e.st, e.by, e.mark = held, g, h.mark
			l.mu.Unlock()
			mine = append(mine, h)
		}
		for i := 0; i < steps; i++ {
			mon.Beat()
			switch x := r.IntN(40); {
			case x == 0 && clients == 1:
				runtime.GC()
			case x == 1 && r.IntN(20) == 0:
				runtime.GC()
			case x == 2 && len(mine) < 20: // an object of the client's own
				li := r.IntN(len(ls))
				l := ls[li]
				v := k.stray(g*10000 + i + 500000)
				h := holding{v, 0, li}
				l.mu.Lock()
				if k.read != nil {
					h.mark = token()
					k.write(v, h.mark)
				}
				e := l.objs[k.id(v)]
				if e == nil {
					e = &entry{}
					l.objs[k.id(v)] = e
				}
				e.st, e.by, e.mark = held, g, h.mark
				l.alive = append(l.alive, v)
				l.mu.Unlock()
				mine = append(mine, h)
			case x < 21 && len(mine) > 0:
				put()
			case len(mine) < 20:
				get()
			}
			if clients > 1 && r.IntN(3) == 0 {
				runtime.Gosched()
			}
		}
		for len(mine) > 0 {
			put()
		}
	}
	if clients == 1 {
		client(0, c.Uint64())
	} else {
		var wg sync.WaitGroup
		for g := 0; g < clients; g++ {
			wg.Add(1)
			seed := c.Uint64()
			go func() {
				defer wg.Done()
				mon.Guard(c, func() { client(g, seed) })
			}()
		}
		wg.Wait()
	}
	fr, re := 0, 0
	for _, l := range ls {
		fr += l.fresh
		re += l.recycle
	}
	mon.Count("fresh", fr)
	mon.Count("recycled", re)
	if re > 0 && fr > 0 {
		c.Distinct(c.TraceStrings())
	}
	c.SampleTrace()
}

type pair struct {
	a int
	s string
}

type shape interface{ area() int }

func (o *obj) area() int { return o.id }

func (o *obj) String() string { return fmt.Sprintf("object %p", o) }

var oops = errors.New("oops")

func objKind[T any](name string, wrap func(o *obj) T, un func(v T) *obj) kind[T] {
	mk := func(n int) T { return wrap(&obj{id: n, mark: 7}) }
	return kind[T]{
		name: name, make: mk, stray: mk,
		id:    func(v T) any { return un(v) },
		write: func(v T, m uint64) { o := un(v); o.mark, o.pad[0], o.pad[2] = m, m, m },
		read: func(v T) uint64 {
			o := un(v)
			if o.mark != o.pad[0] && o.mark != 7 || o.pad[0] != o.pad[2] {
				return ^uint64(0)
			}
			return o.mark
		},
	}
}

func runPool(c *mon.C, clients, steps int) {
	same := func(v any) any { return v }
	switch c.IntN(9) {
	case 0, 1:
		pools(c, objKind("*obj", func(o *obj) *obj { return o }, func(v *obj) *obj { return v }), clients, steps)
	case 2:
		pools(c, objKind("shape", func(o *obj) shape { return o }, func(v shape) *obj { return v.(*obj) }), clients, steps)
	case 3:
		pools(c, objKind("[]*obj", func(o *obj) []*obj { return []*obj{o} }, func(v []*obj) *obj { return v[0] }), clients, steps)
	case 4:
		pools(c, objKind("map", func(o *obj) map[string]*obj { return map[string]*obj{"x": o} }, func(v map[string]*obj) *obj { return v["x"] }), clients, steps)
	case 5:
		pools(c, kind[int]{name: "int", make: func(n int) int { return n }, stray: func(n int) int { return n % 7 }, id: func(v int) any { return v }}, clients, steps)
	case 6:
		pools(c, kind[pair]{name: "struct", make: func(n int) pair { return pair{n, fmt.Sprint(n)} }, stray: func(n int) pair { return pair{} }, id: func(v pair) any { return v }}, clients, steps)
	case 7: // interface values, the constructor returning nil at times
		pools(c, kind[any]{name: "any", make: func(n int) any { return mon.At[any](n, nil, n, "x", pair{n, ""}, &obj{}) }, stray: func(n int) any { return mon.At[any](n, n, nil) }, id: same}, clients, steps)
	case 8:
		pools(c, kind[error]{name: "error", make: func(n int) error { return mon.At[error](n, nil, oops, fmt.Errorf("%d", n)) }, stray: func(n int) error { return oops }, id: func(v error) any { return any(v) }}, clients, steps)
	}
}

// ------------------------------------------------------------ slice pools

type sliceEntry[T comparable] struct {
	st  state
	by  int
	s   []T // as put, with its full capacity kept
	cap int
	all []T // copy of all elements up to the capacity
}

func arrays[T comparable](c *mon.C, name string, val func(n int) T, clients, steps int) {
	size := uint(mon.Pick(c, 0, 1, 2, 7, 16, 64, 1000))
	p := gpool.NewArrayPool[T](size)
	var mu sync.Mutex
	objs := map[*T]*sliceEntry[T]{}
	var fresh, recycled int
	var zero T
	sized := unsafe.Sizeof(zero) > 0
	client := func(g int, seed uint64) {
		r := mon.NewRand(seed)
		type holding struct {
			s []T
			e *sliceEntry[T]
		}
		var mine []holding
		n := 0
		for i := 0; i < steps; i++ {
			mon.Beat()
			switch x := r.IntN(40); {
			case x == 0 && (clients == 1 || r.IntN(20) == 0):
				runtime.GC()
			case x < 20 && len(mine) > 0: // Put
				k := r.IntN(len(mine))
				h := mine[k]
				mine[k] = mine[len(mine)-1]
				mine = mine[:len(mine)-1]
				s := h.s
				// use it, then put it with any length and content
				s = s[:cap(s)]
				for j := range s {
					n++
					s[j] = val(g<<20 | n)
				}
				switch r.IntN(4) {
				case 0:
					s = s[:0]
				case 1:
					s = s[:r.IntN(cap(s)+1)]
				case 2:
					s = append(s, val(n)) // moves
				}
				if r.IntN(8) == 0 && cap(s) > 0 {
					s = s[:0:r.IntN(cap(s)+1)]
				}
				if r.IntN(50) == 0 {
					s = nil
				}
				all := append([]T(nil), s[:cap(s)]...)
				if sized && cap(s) > 0 {
					mu.Lock()
					if h.e != nil && h.e.st == held {
						h.e.st = unknown
					}
					e := &sliceEntry[T]{st: pooled, s: s, cap: cap(s), all: all}
					objs[unsafe.SliceData(s)] = e
					mu.Unlock()
				}
				c.Op("client %d: Put(len %d, cap %d, at %p)", g, len(s), cap(s), unsafe.SliceData(s))
				p.Put(s)
			case len(mine) < 10: // Get
				s := p.Get()
				c.Op("client %d: Get = len %d, cap %d, at %p", g, len(s), cap(s), unsafe.SliceData(s))
				if !sized || cap(s) == 0 {
					if cap(s) == 0 && size > 0 && s != nil && len(s) != 0 {
						c.Violate("[]%s: impossible slice", name)
					}
					continue
				}
				mu.Lock()
				e := objs[unsafe.SliceData(s)]
				var msg string
				switch {
				case e == nil: // not put by anybody: fresh
					if len(s) != 0 || uint(cap(s)) < size {
						msg = fmt.Sprintf("is fresh with length %d and capacity %d, size %d", len(s), cap(s), size)
					}
					at := uintptr(unsafe.Pointer(unsafe.SliceData(s)))
					for q, o := range objs {
						from := uintptr(unsafe.Pointer(q))
						if at > from && at < from+uintptr(cap(o.s))*unsafe.Sizeof(zero) {
							msg = fmt.Sprintf("begins inside a slice of capacity %d", cap(o.s))
						}
					}
					fresh++
					e = &sliceEntry[T]{s: s}
					objs[unsafe.SliceData(s)] = e
				case e.st == held:
					msg = fmt.Sprintf("is held by client %d", e.by)
				case e.st == unknown:
					msg = "was not put since it was handed out"
				default:
					recycled++
					if len(s) != len(e.s) || cap(s) != e.cap {
						msg = fmt.Sprintf("was put with length %d and capacity %d, and comes with %d and %d", len(e.s), e.cap, len(s), cap(s))
						break
					}
					for j, v := range s[:cap(s)] {
						if v != e.all[j] {
							msg = fmt.Sprintf("was put with %v at %d (length %d, capacity %d) and comes with %v", e.all[j], j, len(s), cap(s), v)
							break
						}
					}
				}
				e.st, e.by = held, g
				mu.Unlock()
				if msg != "" {
					c.Violate("[]%s: the slice Get returned to client %d %s", name, g, msg)
				}
				n++
				if len(s) < cap(s) {
					s[:cap(s)][cap(s)-1] = val(g<<20 | n)
				}
				mine = append(mine, holding{s, e})
			}
			if clients > 1 && r.IntN(3) == 0 {
				runtime.Gosched()
			}
		}
	}
	if clients == 1 {
		client(0, c.Uint64())
	} else {
		var wg sync.WaitGroup
		for g := 0; g < clients; g++ {
			wg.Add(1)
			seed := c.Uint64()
			go func() {
				defer wg.Done()
				mon.Guard(c, func() { client(g, seed) })
			}()
		}
		wg.Wait()
	}
	// fresh ones after the pool was emptied
	runtime.GC()
	runtime.GC()
	mon.Count("fresh slices", fresh)
	mon.Count("recycled slices", recycled)
	if fresh > 0 && recycled > 0 {
		c.Distinct(c.TraceStrings())
	}
	c.SampleTrace()
}

func runArrays(c *mon.C, clients, steps int) {
	switch c.IntN(5) {
	case 0:
		arrays(c, "int", func(n int) int { return n }, clients, steps)
	case 1:
		arrays(c, "string", func(n int) string { return fmt.Sprint(n) }, clients, steps)
	case 2:
		arrays(c, "byte", func(n int) byte { return byte(n) }, clients, steps)
	case 3:
		arrays(c, "struct{}", func(n int) struct{} { return struct{}{} }, clients, steps)
	case 4:
		arrays(c, "pair", func(n int) pair { return pair{n, "x"} }, clients, steps)
	}
}

func TestSeq(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // collections only where the workload has them
	mon.Cases(t, "one holder", mon.Num(1600, 60000), func(c *mon.C) {
		runPool(c, 1, 20+c.Size(200))
		if c.Idx%50 == 0 {
			runtime.GC()
		}
	})
	mon.Cases(t, "one holder of slices", mon.Num(1200, 50000), func(c *mon.C) { runArrays(c, 1, 20+c.Size(100)) })
}

func TestPar(t *testing.T) {
	mon.Cases(t, "many holders", mon.Num(250, 12000), func(c *mon.C) { runPool(c, 2+c.IntN(6), 100+c.Size(600)) })
	mon.Cases(t, "many holders of slices", mon.Num(200, 10000), func(c *mon.C) { runArrays(c, 2+c.IntN(6), 100+c.Size(300)) })
}
