# A second look at the properties with the fewest planted bugs.
SEEDS = [
dict(id="c20-unlink-clamp", prop="C20", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	return r.Link(r.Move(n + 1))
''', '''	// no need to walk around more than once
	l := r.Len()
	if n >= l {
		return r.Link(r)
	}
	return r.Link(r.Move((n + 1) % l))
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](5)
	for i := 0; i < 5; i++ {
		r.Value = i
		r = r.Next()
	}
	r.Unlink(7) // 7 % 5 == 2
	if r.Len() != 3 {
		t.Fatalf("Unlink(7) left %d of 5 elements, want 3", r.Len())
	}
}
''', needs="Unlink with a count above the ring's length that is no multiple of it",
 breaks="Unlink removes everything but the element itself instead of n mod Len elements"),

dict(id="c05-same-text", prop="C05", pkg="gogenerics/gconstraints",
 edits=[("gogenerics/gconstraints/errors.go", '''	if err != nil {
		ae.err.Store(errorBox{err})
''', '''	// the same failure again needs no new box
	if old := ae.Load(); err != nil && (old == nil || old.Error() != err.Error()) {
		ae.err.Store(errorBox{err})
''')],
 demo='''
package gconstraints

import (
	"errors"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var ae AtomicError
	a, b := errors.New("timeout"), errors.New("timeout")
	ae.Set(a)
	ae.Set(b)
	if ae.Load() != b {
		t.Fatal("Load does not return the latest error")
	}
}
''', needs="two different errors with the same text set one after the other",
 breaks="Load keeps returning the earlier error"),

dict(id="c30-max-zero", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", '''		(len(maxLen) > 0 && len(pw) > maxLen[0]) {
''', '''		(len(maxLen) > 0 && maxLen[0] > 0 && len(pw) > maxLen[0]) {
''')],
 demo='''
package password

import "testing"

func TestSeededDemo(t *testing.T) {
	if CheckPassword("abc", L, 0, 0) {
		t.Fatal("a password of three characters passes a limit of 0")
	}
}
''', needs="a maximum length of zero or less", breaks="the maximum is ignored"),

dict(id="c30-fold-case", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", '''		} else if c >= 'a' && c <= 'z' {
			r |= L
			r |= LorU
		} else if c >= 'A' && c <= 'Z' {
			r |= U
			r |= LorU
''', '''		} else if x := unicode.ToLower(c); x >= 'a' && x <= 'z' {
			if x == c {
				r |= L
			} else {
				r |= U
			}
			r |= LorU
'''), ("library/password/password.go", '''package password
''', '''package password

import "unicode"
''')],
 demo='''
package password

import "testing"

func TestSeededDemo(t *testing.T) {
	if CheckPassword("\\u212Aabcdef", L|U, 3) {
		t.Fatal("a password with the Kelvin sign passes")
	}
}
''', needs="a password with a non-ASCII letter whose lower case is ASCII (U+212A, U+0130)",
 breaks="a password with a non-ASCII character is accepted"),

dict(id="c34-short-copy", prop="C34", pkg="hack/unsafex",
 edits=[("hack/unsafex/str20.go", '''func StringToSlice(s string) []byte {
	return unsafe.Slice(unsafe.StringData(s), len(s))
''', '''func StringToSlice(s string) (b []byte) {
	if len(s) <= 8 {
		// cheaper than pinning a large string for a few bytes
		return append(make([]byte, 0, len(s)), s...)
	}
	return unsafe.Slice(unsafe.StringData(s), len(s))
''')],
 demo='''
package unsafex

import (
	"testing"
	"unsafe"
)

func TestSeededDemo(t *testing.T) {
	s := string([]byte("hello world")[:5])
	if b := StringToSlice(s); unsafe.SliceData(b) != unsafe.StringData(s) {
		t.Fatal("the bytes are a copy")
	}
}
''', needs="a string of at most eight bytes", breaks="the conversion copies instead of sharing the storage"),

dict(id="c15-finger-clear", prop="C15", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", '''	x := tree.root
	for x != tree.sentinel {
		if x.key == key {
			return x
''', '''	x := tree.last
	if x == nil || x.key != key {
		x = tree.root
	}
	for x != tree.sentinel {
		if x.key == key {
			tree.last = x
			return x
'''), ("gogenerics/gds/grbt/rbt.go", '''	sentinel *rbNode[K, V]        // The sentinel node.
''', '''	sentinel *rbNode[K, V]        // The sentinel node.
	last     *rbNode[K, V]        // The node found last.
'''), ("gogenerics/gds/grbt/rbt.go", '''	tree.delete(node)
''', '''	tree.last = nil
	tree.delete(node)
''')],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tr := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 10; i++ {
		tr.Insert(i, i)
	}
	tr.Search(4)
	tr.Clear()
	if tr.Search(4) || tr.Get(4) != 0 {
		t.Fatal("an entry is still found after Clear")
	}
}
''', needs="looking up a key, Clear, and looking up the same key again",
 breaks="the tree still finds an entry that Clear removed"),

dict(id="c36-count-level", prop="C36", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", '''	x := fastrand.Uint64() & ((1 << uint(maxLevel-1)) - 1)
''', '''	// every second entry gets one level more: no random number needed
	t.inserted++
	x := t.inserted & ((1 << uint(maxLevel-1)) - 1)
'''), ("gogenerics/gds/gskiplist/skiplist.go", '''	elementCount int
}
''', '''	elementCount int
	inserted     uint64
}
'''), ("gogenerics/gds/gskiplist/skiplist.go", '''
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/hack/fastrand"
''', '''
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
''')],
 demo='''
package gskiplist

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	const n = 60000
	for i := 0; i < n; i++ {
		l.Insert(i, i)
	}
	for i := 1; i < n; i += 2 {
		l.Delete(i)
	}
	start := time.Now()
	for i := 0; i < 3000; i++ {
		l.Find(i * 20)
	}
	if d := time.Since(start); d > 2*time.Second/3 {
		t.Fatalf("3000 lookups took %v", d)
	}
	time.Sleep(0)
}
''', needs="deleting every second entry of a list filled in order",
 breaks="only entries without upper levels are left and every search walks the whole list"),

dict(id="c32-slot-race", prop="C32", pkg="gogenerics/gcontainers/gpool",
 edits=[("gogenerics/gcontainers/gpool/syncpool.go", '''	x, _ := p.pool.Get().(T)
	return x
''', '''	if s := p.latest.Load(); s != nil {
		p.latest.Store(nil)
		return *s
	}
	x, _ := p.pool.Get().(T)
	return x
'''), ("gogenerics/gcontainers/gpool/syncpool.go", '''	p.pool.Put(x)
}

type ArrayPool''', '''	// the object put last is the one still in the cache
	if p.latest.Load() == nil {
		p.latest.Store(&x)
		return
	}
	p.pool.Put(x)
}

type ArrayPool'''), ("gogenerics/gcontainers/gpool/syncpool.go", '''type Pool[T any] struct {
	pool sync.Pool
''', '''type Pool[T any] struct {
	pool   sync.Pool
	latest atomic.Pointer[T]
'''), ("gogenerics/gcontainers/gpool/syncpool.go", '''	"sync"
''', '''	"sync"
	"sync/atomic"
''')],
 demo='''
package gpool

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	type obj struct{ held int32 }
	p := New(func() *obj { return new(obj) })
	var bad int32
	var wg sync.WaitGroup
	end := time.Now().Add(10 * time.Second)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; atomic.LoadInt32(&bad) == 0 && (i&255 != 0 || time.Now().Before(end)); i++ {
				x := p.Get()
				if !atomic.CompareAndSwapInt32(&x.held, 0, 1) {
					atomic.StoreInt32(&bad, 1)
					return
				}
				atomic.StoreInt32(&x.held, 0)
				p.Put(x)
			}
		}()
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("one object was handed to two holders")
	}
}
''', needs="two goroutines in Get at the same moment, both reading the slot before either empties it",
 breaks="one object is handed to both"),

dict(id="c35-heap-keep", prop="C35", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''	if len(*x) > 0 {
		siftDown((*x), 0, h.less)
''', '''	if n := len(*x); n > 0 {
		siftDown((*x)[:n], 0, h.less)
'''), ("gogenerics/gcontainers/gheap/heap.go", '''	(*x)[0] = (*x)[last]
	(*x)[last] = gconstraints.Empty[T]() // avoid memory leaks
	*x = (*x)[:last]
''', '''	(*x)[0] = (*x)[last]
	if *x = (*x)[:last]; cap(*x) > 2*len(*x) {
		*x = append(make([]T, 0, len(*x)), *x...) // avoid memory leaks
	}
''')],
 demo='''
package gheap

import (
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	h := New(func(a, b *[1024]byte) bool { return a[0] < b[0] })
	done := make(chan bool, 16)
	for i := 0; i < 16; i++ {
		x := new([1024]byte)
		runtime.SetFinalizer(x, func(*[1024]byte) { done <- true })
		Push(h, x)
	}
	for i := 0; i < 7; i++ {
		Pop(h)
	}
	for i := 0; i < 50 && len(done) < 7; i++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
	}
	if len(done) < 7 {
		t.Fatalf("%d of 7 popped values were reclaimed", len(done))
	}
	runtime.KeepAlive(h)
}
''', needs="popping a few elements of a heap that stays more than half full",
 breaks="the spare part of the heap's array keeps the popped values alive"),

dict(id="c16-subtree-build", prop="C16", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", '''		if node.key == key && inclusive {
			subTree.Insert(node.key, node.value)
		} else if tree.less(node.key, key) {
			subTree.Insert(node.key, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return subTree
''', '''		if node.key == key && inclusive {
			nodes = append(nodes, newRedBlackNode(node.key, node.value, subTree.sentinel))
		} else if tree.less(node.key, key) {
			nodes = append(nodes, newRedBlackNode(node.key, node.value, subTree.sentinel))
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	subTree.root = subTree.build(nodes, subTree.sentinel)
	subTree.len = len(nodes)
	return subTree
'''), ("gogenerics/gds/grbt/rbt.go", '''func (tree *RbTree[K, V]) LeftSubTree(key K, inclusive bool) *RbTree[K, V] {
	subTree := New[K, V](tree.less)
''', '''func (tree *RbTree[K, V]) LeftSubTree(key K, inclusive bool) *RbTree[K, V] {
	subTree := New[K, V](tree.less)
	var nodes []*rbNode[K, V]
'''), ("gogenerics/gds/grbt/rbt.go", '''// Search checks if''', '''// build links sorted nodes to a tree of least height.
func (tree *RbTree[K, V]) build(nodes []*rbNode[K, V], parent *rbNode[K, V]) *rbNode[K, V] {
	if len(nodes) == 0 {
		return tree.sentinel
	}
	m := len(nodes) / 2
	node := nodes[m]
	node.parent, node.color = parent, black
	node.left = tree.build(nodes[:m], node)
	node.right = tree.build(nodes[m+1:], node)
	return node
}

// Search checks if''')],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tr := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 100; i++ {
		tr.Insert(i, i)
	}
	for n := 0; n < 100; n++ {
		sub := tr.LeftSubTree(n, true)
		var walk func(n *rbNode[int, int]) int
		walk = func(n *rbNode[int, int]) int {
			if n == sub.sentinel {
				return 1
			}
			l, r := walk(n.left), walk(n.right)
			if l != r {
				t.Fatal("the paths have different numbers of black entries")
			}
			if n.color {
				l++
			}
			return l
		}
		walk(sub.root)
	}
}
''', needs="a left range of a number of entries that is not one below a power of two",
 breaks="all entries of the range view are black although its paths differ in length"),

dict(id="c17-presorted", prop="C17", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''	n := len(v)
	for i := n/2 - 1; i >= 0; i-- {
''', '''	n := cap(v[:len(v):len(v)])
	// data in order is a heap already: look at the parents' left children
	i := 0
	for i < n/2 && !less(v[2*i+1], v[i]) {
		i++
	}
	if i == n/2 {
		return
	}
	for i := n/2 - 1; i >= 0; i-- {
''')],
 demo='''
package gheap

import "testing"

func TestSeededDemo(t *testing.T) {
	h := NewWithData([]int{0, 5, 1, 6, 7, 2, 0, 9, 8, 8}, func(a, b int) bool { return a < b })
	last := -1
	for i := 0; i < 10; i++ {
		v := Pop(h)
		if v < last {
			t.Fatalf("popped %d after %d", v, last)
		}
		last = v
	}
}
''', needs="data whose left children are in order while a right child precedes its parent",
 breaks="the heap order is not established"),

dict(id="c20-new-chunk", prop="C20", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	for i := 1; i < n; i++ {
		p.next = &Ring[V]{prev: p}
		p = p.next
	}
''', '''	// elements come in blocks, which spares allocations
	for left := n - 1; left > 0; {
		size := 128
		if size > left {
			size = left
		}
		block := make([]Ring[V], size)
		p.next = &block[0]
		block[0].prev = r
		if left == n-1 {
			block[0].prev = p
		}
		for i := 1; i < size; i++ {
			block[i-1].next, block[i].prev = &block[i], &block[i-1]
		}
		p = &block[size-1]
		left -= size
	}
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	for n := 1; n < 1000; n++ {
		r := New[int](n)
		for i := 0; i < n; i++ {
			if r.Next().Prev() != r {
				t.Fatalf("ring of %d: element %d is not the one before the next", n, i)
			}
			r = r.Next()
		}
	}
}
''', needs="a new ring of more than 129 elements walked backward",
 breaks="going back across a block boundary lands on the first element"),
]
