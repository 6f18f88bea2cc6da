G = "gogenerics/gcontainers/"
HD = '''
package gheap

import (
	"math/rand"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for seed := int64(0); seed < 500; seed++ {
		r := rand.New(rand.NewSource(seed))
		var data []int
		for i := r.Intn(12); i > 0; i-- {
			data = append(data, r.Intn(20))
		}
		held := map[int]int{}
		for _, v := range data {
			held[v]++
		}
		n := len(data)
		h := NewWithData(data, func(a, b int) bool { return a < b })
		for i := 0; i < 40; i++ {
			if n > 0 && r.Intn(2) == 0 {
				v := Pop(h)
				n--
				if held[v] == 0 {
					t.Fatal("not held", v)
				}
				held[v]--
				for w, c := range held {
					if c > 0 && w < v {
						t.Fatal("popped", v, "before", w)
					}
				}
			} else {
				v := r.Intn(20)
				held[v]++
				n++
				Push(h, v)
			}
		}
	}
}
'''
SEEDS = [
dict(id="c17-right-bound", prop="C17", pkg=G+"gheap",
 edits=[(G+"gheap/heap.go", "		if len(x) > right && less(x[right], x[left]) {", "		if len(x) > right+1 && less(x[right], x[left]) {")],
 demo=HD, needs="the last element being a right child that is smaller than its sibling", breaks="Pop returns an element that is not the least"),
dict(id="c17-heapify-last", prop="C17", pkg=G+"gheap",
 edits=[(G+"gheap/heap.go", "	for i := n/2 - 1; i >= 0; i-- {", "	for i := (n-1)/2 - 1; i >= 0; i-- {")],
 demo=HD, needs="construction from an even number of elements whose last is less than its parent", breaks="Pop returns an element that is not the least"),
dict(id="c17-siftup-parent", prop="C17", pkg=G+"gheap",
 edits=[(G+"gheap/heap.go", "		p := (index - 1) / 2", "		p := index / 2")],
 demo=HD, needs="pushes that have to rise through a right child", breaks="Pop returns an element that is not the least"),
dict(id="c18-remove-list", prop="C18", pkg=G+"glist",
 edits=[(G+"glist/list.go", '''	e.prev = nil // avoid memory leaks
	e.list = nil
	l.len--
''', '''	e.prev = nil // avoid memory leaks
	if l.len--; l.len > 0 {
		e.list = nil
	}
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	e := l.PushBack(1)
	l.Remove(e)
	if l.InsertAfter(2, e) != nil || l.Len() != 0 || l.Front() != nil {
		t.Fatal("an insert beside a removed element changed the list")
	}
}
''', needs="an operation on the element that was removed last, the list being empty", breaks="a removed element still counts as belonging to the list"),
dict(id="c18-pushfront-self", prop="C18", pkg=G+"glist",
 edits=[(G+"glist/list.go", '''	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
		l.insertValue(e.Value, &l.root)
	}
''', '''	at := &l.root
	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
		at = l.insertValue(e.Value, at)
	}
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	l.PushBack(1)
	l.PushBack(2)
	l.PushBack(3)
	var got []int
	l.PushFrontList(l)
	for e := l.Front(); e != nil; e = e.Next() {
		got = append(got, e.Value)
	}
	if len(got) != 6 || got[3] != 1 || got[4] != 2 || got[5] != 3 || got[0] != 1 || got[1] != 2 || got[2] != 3 {
		t.Fatal(got)
	}
}
''', needs="a list with at least two different values pushed to its own front", breaks="the copies are not the contents at the time of the call"),
dict(id="c18-move-adjacent", prop="C18", pkg=G+"glist",
 edits=[(G+"glist/list.go", "	if e.list != l || e == mark || mark.list != l {\n		return\n	}\n	l.move(e, mark)\n", "	if e.list != l || e == mark || mark.list != l || mark.next == e || e.next == mark {\n		return\n	}\n	l.move(e, mark)\n")],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	a := l.PushBack(1)
	b := l.PushBack(2)
	l.MoveAfter(a, b)
	if l.Front().Value != 2 || l.Back().Value != 1 {
		t.Fatal("not moved")
	}
}
''', needs="moving an element behind its direct successor", breaks="the element is not moved"),
dict(id="c19-clear-list", prop="C19", pkg=G+"gqueue",
 edits=[(G+"gqueue/fifo.go", "	q.list = glist.New[T]()\n	q.length = 0\n}", "	q.length = 0\n}")],
 demo='''
package gqueue

import "testing"

func TestSeededDemo(t *testing.T) {
	q := New[int]()
	q.Push(1)
	Clear(q)
	q.Push(2)
	if v, err := q.Pop(); v != 2 || err != nil {
		t.Fatal(v, err)
	}
}
''', needs="a Push after clearing a queue that held elements", breaks="cleared elements come out again"),
dict(id="c19-iter-len", prop="C19", pkg=G+"gqueue",
 edits=[(G+"gqueue/fifo.go", '''	for {
		val, err := q.Pop()
		if err != nil {
			break
		}
		ch <- val
	}
	return ch
''', '''	for _, val := range PeekAll(q) {
		ch <- val
	}
	q.length = 0
	return ch
''')],
 demo='''
package gqueue

import "testing"

func TestSeededDemo(t *testing.T) {
	q := Gen([]int{1, 2, 3})
	n := 0
	for range Iterator(q) {
		n++
	}
	q.Push(4)
	if v, err := q.Pop(); n != 3 || v != 4 || err != nil || q.Len() != 0 {
		t.Fatal(n, v, err)
	}
}
''', needs="using the queue again after Iterator", breaks="elements leave the queue twice"),
dict(id="c20-move-neg", prop="C20", pkg=G+"gring",
 edits=[(G+"gring/ring.go", '''		for ; n < 0; n++ {
			r = r.prev
		}
''', '''		for n = -n % r.Len(); n > 0; n-- {
			r = r.prev
		}
		if n < 0 {
			r = r.next
		}
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	t.Fatal("equivalent")
}
''', needs="", breaks=""),
dict(id="c20-link-zero", prop="C20", pkg=G+"gring",
 edits=[(G+"gring/ring.go", '''		p := s.Prev()
		// Note''', '''		p := s.prev
		if p == nil {
			p = s
			s.next = s
		}
		if p == r {
			return n
		}
		// Note''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	for n := 1; n < 6; n++ {
		r := New[int](n)
		got := r.Link(r)
		if r.Len() != 1 || got.Len() != max(n-1, 1) {
			t.Fatal(n, r.Len(), got.Len())
		}
		r = New[int](n)
		got = r.Link(r.Next())
		if r.Len() != n {
			t.Fatal(n, r.Len())
		}
		for k := 1; k < n; k++ {
			r = New[int](n)
			first := r.Next()
			s := r.Move(k)
			got := r.Link(s)
			if r.Len() != n-k+1 || got != first {
				t.Fatal(n, k, r.Len())
			}
		}
	}
	var a, b Ring[int]
	a.Link(&b)
	if a.Len() != 2 || b.Len() != 2 || b.Prev() != &a {
		t.Fatal(a.Len(), b.Len())
	}
}
''', needs="?", breaks="?"),
dict(id="c20-unlink-one", prop="C20", pkg=G+"gring",
 edits=[(G+"gring/ring.go", "	return r.Link(r.Move(n + 1))\n", "	if m := n % r.Len(); m != 0 {\n		n = m\n	}\n	return r.Link(r.Move(n + 1).Move(n / 64 * 0)).Move(n / (1 << 30))\n")],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) { t.Fatal("equivalent") }
''', needs="", breaks=""),
dict(id="c21-equalfunc-missing", prop="C21", pkg=G+"gmap",
 edits=[(G+"gmap/map.go", "		v2, ok := m2[k]\n		if !ok || !eqFunc(v1, v2) {", "		if !eqFunc(v1, m2[k]) {")],
 demo='''
package gmap

import "testing"

func TestSeededDemo(t *testing.T) {
	if EqualWithFunc(map[string]int{"a": 0}, map[string]int{"b": 0}, func(a, b int) bool { return a == b }) {
		t.Fatal("maps with different keys are equal")
	}
}
''', needs="maps of one size with different keys and zero values", breaks="they count as equal"),
dict(id="c21-copy-empty", prop="C21", pkg=G+"gmap",
 edits=[(G+"gmap/map.go", "	res := make(map[K]V, len(m))\n\n	for k, v := range m {\n		res[k] = v\n", "	res := m\n	if len(m) > 0 {\n		res = make(map[K]V, len(m))\n	}\n\n	for k, v := range m {\n		res[k] = v\n")],
 demo='''
package gmap

import "testing"

func TestSeededDemo(t *testing.T) {
	m := map[string]int{}
	c := Copy(m)
	c["a"] = 1
	if len(m) != 0 {
		t.Fatal("writing to the copy changed the source")
	}
}
''', needs="copying an empty map and writing to one of the two", breaks="the copy is not independent"),
dict(id="c22-unique-one", prop="C22", pkg=G+"gslice",
 edits=[(G+"gslice/slice.go", '''	idx := 0
	seem := make(map[T]struct{}, len(s)) // comparable instead of any
	uniqS := make([]T, len(s))
''', '''	if l == 1 {
		return s, 1
	}
	idx := 0
	seem := make(map[T]struct{}, l) // comparable instead of any
	uniqS := make([]T, len(s))
''')],
 demo='''
package gslice

import "testing"

func TestSeededDemo(t *testing.T) {
	s := []int{1}
	u, _ := Unique(s)
	u[0] = 2
	if s[0] != 1 {
		t.Fatal("the result shares storage with the input")
	}
}
''', needs="a slice of one element", breaks="the result shares the input's storage"),
dict(id="c22-shuffle-last", prop="C22", pkg=G+"gslice",
 edits=[(G+"gslice/slice.go", '''	fastrand.Shuffle(len(collection), func(i, j int) {
''', '''	fastrand.Shuffle(max(len(collection)-1, 0), func(i, j int) {
''')],
 demo='''
package gslice

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		if s := Shuffle([]int{1, 2, 3, 4, 5}); s[4] != 5 {
			return
		}
	}
	t.Fatal("the last element never moves")
}
''', needs="looking at where the last element goes", breaks="orders that move the last element cannot be reached"),
dict(id="c22-merge-empty", prop="C22", pkg=G+"gslice",
 edits=[(G+"gslice/slice.go", '''	if s2 == nil {
		return Copy(s1)
	}
''', '''	if len(s2) == 0 {
		return s1
	}
''')],
 demo='''
package gslice

import "testing"

func TestSeededDemo(t *testing.T) {
	s := []int{1, 2}
	m := Merge(s, []int{})
	m[0] = 9
	if s[0] != 1 {
		t.Fatal("the result shares storage with the input")
	}
}
''', needs="an empty second slice", breaks="the result shares the input's storage"),
dict(id="c32-array-trim", prop="C32", pkg=G+"gpool",
 edits=[(G+"gpool/syncpool.go", '''func (p *ArrayPool[T]) Put(x []T) {
	p.pool.Put(x)
''', '''func (p *ArrayPool[T]) Put(x []T) {
	p.pool.Put(x[:len(x):len(x)])
''')],
 demo='''
package gpool

import "testing"

func TestSeededDemo(t *testing.T) {
	p := NewArrayPool[int](64)
	for i := 0; i < 1000; i++ {
		x := p.Get()
		if cap(x) != 64 {
			t.Fatal("capacity", cap(x))
		}
		p.Put(append(x[:0], 1, 2, 3))
	}
}
''', needs="a slice shorter than its capacity put back and handed out again", breaks="recycled slices lose their spare capacity"),
dict(id="c32-last-slot", prop="C32", pkg=G+"gpool",
 edits=[(G+"gpool/syncpool.go", '''import (
	"sync"
)
''', '''import (
	"sync"
	"sync/atomic"
)
'''), (G+"gpool/syncpool.go", '''type Pool[T any] struct {
	pool sync.Pool
}
''', '''type Pool[T any] struct {
	last atomic.Pointer[T] // the object put last, most often wanted again
	pool sync.Pool
}
'''), (G+"gpool/syncpool.go", '''	// a nil value of an interface type has no dynamic type to assert
''', '''	if x := p.last.Load(); x != nil {
		p.last.Store(nil)
		return *x
	}
	// a nil value of an interface type has no dynamic type to assert
'''), (G+"gpool/syncpool.go", '''func (p *Pool[T]) Put(x T) {
	p.pool.Put(x)
''', '''func (p *Pool[T]) Put(x T) {
	if p.last.Load() == nil {
		p.last.Store(&x)
		return
	}
	p.pool.Put(x)
''')],
 demo='''
package gpool

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	type object struct{ holders atomic.Int32 }
	p := New(func() *object { return &object{} })
	var wg sync.WaitGroup
	var bad atomic.Int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000 && bad.Load() == 0; i++ {
				x := p.Get()
				if x.holders.Add(1) != 1 {
					bad.Add(1)
				}
				x.holders.Add(-1)
				p.Put(x)
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatal("an object had two holders")
	}
}
''', needs="two Gets between the load and the clearing of the slot", breaks="two goroutines hold one object"),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
