# Results that share memory with what later calls return or use.
SEEDS = [
dict(id="c15-keys-scratch", prop="C15", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", '''	less     gconstraints.Less[K] // The comparison for ordering keys.
''', '''	less     gconstraints.Less[K] // The comparison for ordering keys.
	ordered  []K                  // What Keys returned last, for the next time.
'''), ("gogenerics/gds/grbt/rbt.go", '''	data := make([]K, tree.len)
	index := 0
''', '''	if len(tree.ordered) != tree.len {
		tree.ordered = make([]K, tree.len)
	}
	data := tree.ordered
	index := 0
''')],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tree := New[int, int](func(a, b int) bool { return a < b })
	tree.Insert(1, 1)
	tree.Insert(2, 2)
	keys := tree.Keys()
	tree.Delete(1)
	tree.Insert(3, 3)
	tree.Keys()
	if keys[0] != 1 || keys[1] != 2 {
		t.Fatal(keys)
	}
}
''', needs="keeping what Keys returned across another Keys of the same length", breaks="an earlier result of Keys changes"),

dict(id="c15-getif-stack", prop="C15", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", '''	less     gconstraints.Less[K] // The comparison for ordering keys.
''', '''	less     gconstraints.Less[K] // The comparison for ordering keys.
	path     []*rbNode[K, V]      // The way GetIf has come, kept between the calls.
'''), ("gogenerics/gds/grbt/rbt.go", '''	values := make([]V, 0)
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}

		if f(node.key) {
			values = append(values, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return values
''', '''	values := make([]V, 0)
	tree.path = tree.path[:0]
	node := tree.root
	for node != tree.sentinel || len(tree.path) > 0 {
		for node != tree.sentinel {
			tree.path = append(tree.path, node)
			node = node.left
		}
		last := len(tree.path) - 1
		node, tree.path[last] = tree.path[last], nil
		tree.path = tree.path[:last]
		if f(node.key) {
			values = append(values, node.value)
		}
		node = node.right
	}
	return values
''')],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tree := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 7; i++ {
		tree.Insert(i, i)
	}
	got := tree.GetIf(func(k int) bool {
		// keys with a larger one in the tree
		return len(tree.GetIf(func(x int) bool { return x > k })) > 0
	})
	if len(got) != 6 {
		t.Fatal(got)
	}
}
''', needs="a predicate of GetIf that calls GetIf on the same tree", breaks="GetIf returns only some of the values"),

dict(id="c26-json-pool", prop="C26", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", '''	"strings"
	"unicode"
''', '''	"strings"
	"sync"
	"unicode"
'''), ("library/stringx/stringx.go", '''	var buf = bytes.NewBuffer(make([]byte, 0, 64))
	buf.WriteByte('"')
	start := 0
''', '''	buf := jsonBuffers.Get().(*bytes.Buffer)
	buf.Reset()
	defer jsonBuffers.Put(buf)
	buf.WriteByte('"')
	start := 0
'''), ("library/stringx/stringx.go", '''	buf.WriteByte('"')
	return buf.Bytes()
}
''', '''	buf.WriteByte('"')
	if buf.Len() > 1024 {
		// large results need not be copied, the buffer gets new memory
		b := buf.Bytes()
		*buf = *bytes.NewBuffer(b[len(b):])
		return b
	}
	return append([]byte(nil), buf.Bytes()...)
}

var jsonBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
''')],
 demo='''
package stringx

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a := StringMarshalJSON(strings.Repeat("a", 1100), false)
		b := append(a[:len(a):len(a)], "tail"...)
		_ = b
		want := string(a)
		more := append(a, "tail"...)
		got := StringMarshalJSON("other", false)
		if string(more[len(a):]) != "tail" || string(a) != want || string(got) != `"other"` {
			t.Fatalf("appended %q, got %q", more[len(a):], got)
		}
	}
}
''', needs="appending to a result of more than 1024 bytes before the next call", breaks="what the caller appended to its result is overwritten by the next call"),

dict(id="c23-decode-pool", prop="C23", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", '''	"io"
)
''', '''	"io"
	"sync"
)

// decoded holds memory for decoded ciphertexts.
var decoded = sync.Pool{New: func() any { b := make([]byte, 0, 4096); return &b }}
'''), ("library/cryptox/cryptox.go", '''	dst := make([]byte, base64.RawURLEncoding.DecodedLen(len(src)))
	n, err''', '''	n := base64.RawURLEncoding.DecodedLen(len(src))
	if n <= 4096 {
		p := decoded.Get().(*[]byte)
		defer decoded.Put(p)
		dst := (*p)[:n]
		n, err := base64.RawURLEncoding.Decode(dst, src)
		return dst[:n], err
	}
	dst := make([]byte, n)
	n, err''')],
 demo='''
package cryptox

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	a := AESCTREncrypt(key, []byte("first text"), true)
	b := AESCTREncrypt(key, []byte("second text"), true)
	for i := 0; i < 100; i++ {
		x, err := AESCTRDecrypt(key, a, true)
		if err != nil {
			t.Fatal(err)
		}
		AESCTRDecrypt(key, b, true)
		if !bytes.Equal(x, []byte("first text")) {
			t.Fatalf("%q", x)
		}
	}
}
''', needs="a CBC or CTR plaintext kept across another base64 decryption", breaks="a decrypted text changes when another is decrypted"),

dict(id="c06-mget-buffer", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	maxUsed int // Maximum usage count, value 0 means no limitation
	caption int // Number of cached items
''', '''	maxUsed int // Maximum usage count, value 0 means no limitation
	caption int // Number of cached items
	flags   []bool
'''), ("library/cachex/lrucache.go", '''	oks := make([]bool, len(keys))
	for idx, key := range keys {
		val, ok := lc.getOne(key)
		values[idx] = val
		oks[idx] = ok
	}
''', '''	// answers are cut from one large piece of memory
	if len(lc.flags) < len(keys) {
		lc.flags = make([]bool, 64+len(keys))
	}
	oks := lc.flags[:len(keys)]
	lc.flags = lc.flags[len(keys):]
	for idx, key := range keys {
		val, ok := lc.getOne(key)
		values[idx] = val
		oks[idx] = ok
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[int, int](10, 0)
	_ = c.Set(ctx, 1, 1, time.Hour)
	_, a, _ := c.MGet(ctx, 1)
	_, b, _ := c.MGet(ctx, 2)
	_ = append(a, true)
	if b[0] {
		t.Fatal("a missing key became a hit")
	}
}
''', needs="appending to the flags of one MGet while those of the next are in use", breaks="MGet reports a key as found that is not"),

dict(id="c19-peekall-tail", prop="C19", pkg="gogenerics/gcontainers/gqueue",
 edits=[("gogenerics/gcontainers/gqueue/fifo.go", '''	list   *glist.List[T]
	length int
}
''', '''	list   *glist.List[T]
	length int
	all    []T // what PeekAll returned last, while nothing was popped
}
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	val := q.list.Front().Value
''', '''	q.all = nil
	val := q.list.Front().Value
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	res := make([]T, q.length)
	var idx int
	q.list.Range(func(e *glist.Element[T]) {
		res[idx] = e.Value
		idx++
	})
	return res
''', '''	if len(q.all) > q.length {
		q.all = nil
	}
	// only what was pushed since is new
	res := q.all
	e := q.list.Back()
	for i := len(res) + 1; i < q.length; i++ {
		e = e.Prev()
	}
	for len(res) < q.length {
		res = append(res, e.Value)
		e = e.Next()
	}
	q.all = res
	return res[:len(res):len(res)]
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	q.list = glist.New[T]()
	q.length = 0
}
''', '''	q.list = glist.New[T]()
	q.length = 0
	q.all = nil
}
''')],
 demo='''
package gqueue

import "testing"

func TestSeededDemo(t *testing.T) {
	q := Gen([]int{1, 2})
	a := PeekAll(q)
	a[0] = 9
	if b := PeekAll(q); b[0] != 1 {
		t.Fatal(b)
	}
}
''', needs="writing to what PeekAll returned before the next PeekAll, with no Pop between them", breaks="PeekAll shows values that are not in the queue"),

dict(id="c33-sort-input", prop="C33", pkg="gogenerics/gnumerics",
 edits=[("gogenerics/gnumerics/math.go", '''	minC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if cmp(c, minC) {
			minC = c
		}
	}
	return minC
}
''', '''	// the smallest of pairs, of pairs of pairs and so on: comparisons of
	// neighbours are kinder to the cache
	for step := 1; step < l; step *= 2 {
		for i := 0; i+step < l; i += 2 * step {
			if cmp(collection[i+step], collection[i]) {
				collection[i], collection[i+step] = collection[i+step], collection[i]
			}
		}
	}
	return collection[0]
}
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	s := []int{3, 1, 2}
	if MinBy(s, func(a, b int) bool { return a < b }) != 1 || s[0] != 3 || s[1] != 1 {
		t.Fatal(s)
	}
}
''', needs="looking at the collection after MinBy", breaks="MinBy reorders the caller's collection"),

dict(id="c08-item-pool", prop="C08", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	lastGC   atomic.Int64
''', '''	// items are used again, decoding one needs no new memory then
	items sync.Pool

	lastGC   atomic.Int64
'''), ("library/cachex/file.go", '''	item := &fileCacheItem[K, V]{}
	err = json.Unmarshal(content, item)
''', '''	item, _ := f.items.Get().(*fileCacheItem[K, V])
	if item == nil {
		item = &fileCacheItem[K, V]{}
	}
	defer f.items.Put(item)
	err = json.Unmarshal(content, item)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	type val struct {
		A int `json:",omitempty"`
		B int `json:",omitempty"`
	}
	f := &FileStore[string, val]{Dir: t.TempDir()}
	_ = f.Set(ctx, "a", val{A: 1}, time.Hour)
	_ = f.Set(ctx, "b", val{B: 1}, time.Hour)
	for i := 0; i < 50; i++ {
		if v, ok, err := f.Get(ctx, "a"); v != (val{A: 1}) || !ok || err != nil {
			t.Fatal(v, ok, err)
		}
		if v, ok, err := f.Get(ctx, "b"); v != (val{B: 1}) || !ok || err != nil {
			t.Fatal(v, ok, err)
		}
	}
}
''', needs="values whose JSON leaves out what is zero, or maps and pointers, read one after another", breaks="Get returns a mixture of two stored values"),

dict(id="c18-free-list", prop="C18", pkg="gogenerics/gcontainers/glist",
 edits=[("gogenerics/gcontainers/glist/list.go", '''	len  int        // current list length excluding (this) sentinel element
}
''', '''	len  int        // current list length excluding (this) sentinel element
	free *Element[T]
}
'''), ("gogenerics/gcontainers/glist/list.go", '''	return l.insert(&Element[T]{Value: v}, at)
''', '''	e := l.free
	if e == nil || e.list != nil {
		e = &Element[T]{}
	}
	l.free = nil
	e.Value = v
	return l.insert(e, at)
'''), ("gogenerics/gcontainers/glist/list.go", '''		l.remove(e)
	}
	return e.Value
''', '''		l.remove(e)
		l.free = e
	}
	return e.Value
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	e := l.PushBack(1)
	l.Remove(e)
	l.PushBack(2)
	if l.Remove(e); l.Len() != 1 || e.Value != 1 {
		t.Fatal("removing a removed element took another one out")
	}
}
''', needs="removing an element twice with a push between", breaks="an element that was removed stands for another one"),

dict(id="c01-box-pool", prop="C01", pkg="gogenerics/gconcurrent/sync", race=False,
 edits=[("gogenerics/gconcurrent/sync/map.go", '''		if e.p.CompareAndSwap(p, nil) {
			return *p, true
		}
	}
}
''', '''		if e.p.CompareAndSwap(p, nil) {
			v := *p
			e.spare.Store(p)
			return v, true
		}
	}
}
'''), ("gogenerics/gconcurrent/sync/map.go", '''	ic := i
	for {
		if e.p.CompareAndSwap(nil, &ic) {
			return i, false, true
		}
''', '''	// the memory of the value deleted last, if nobody else has taken it
	b := e.spare.Swap(nil)
	if b == nil {
		b = new(V)
	}
	*b = i
	for {
		if e.p.CompareAndSwap(nil, b) {
			return i, false, true
		}
'''), ("gogenerics/gconcurrent/sync/map.go", '''type entry[V any] struct {
''', '''type entry[V any] struct {
	spare pointer[V]

''')],
 demo='''
package sync

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	type val struct{ a, b, c, d, e, f, g, h int }
	var m Map[int, val]
	m.Store(1, val{})
	m.Range(func(int, val) bool { return true })
	var bad, stop int32
	var wg sync.WaitGroup
	for g := 1; g < 4; g++ {
		g := g
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := g; atomic.LoadInt32(&stop) == 0; i += 4 {
				m.LoadOrStore(1, val{i, i, i, i, i, i, i, i})
				m.Delete(1)
			}
		}()
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if v, ok := m.Load(1); ok && v != (val{v.a, v.a, v.a, v.a, v.a, v.a, v.a, v.a}) {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}()
	}
	for i := 0; i < 100 && atomic.LoadInt32(&bad) == 0; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if bad != 0 {
		t.Fatal("a value nobody stored")
	}
}
''', needs="a Load that read the pointer before the value was deleted and stored again", breaks="Load returns a mixture of two values, or one stored after it was deleted"),

dict(id="c11-shared-lists", prop="C11", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''	hit = make([]K, 0, len(mr.keys))
	miss = make([]K, 0, len(mr.keys))
	for idx := 0; idx < len(mr.keys); idx++ {
		if mr.hits[idx] {
			hit = append(hit, mr.keys[idx])
		} else {
			miss = append(miss, mr.keys[idx])
		}
	}
	return hit, miss
''', '''	n := 0
	for _, ok := range mr.hits {
		if ok {
			n++
		}
	}
	// one piece of memory is enough for both
	all := make([]K, len(mr.keys))
	hit, miss = all[:0], all[n:n]
	for idx := 0; idx < len(mr.keys); idx++ {
		if mr.hits[idx] {
			hit = append(hit, mr.keys[idx])
		} else {
			miss = append(miss, mr.keys[idx])
		}
	}
	return hit, miss
''')],
 demo='''
package cachex

import "testing"

func TestSeededDemo(t *testing.T) {
	r := MGetResult[int, int]{keys: []int{1, 2}, values: []int{0, 0}, hits: []bool{true, false}}
	hit, miss := r.HitMissKeys()
	if _ = append(hit, 7); miss[0] != 2 {
		t.Fatal(miss)
	}
}
''', needs="appending to the keys that were hit, then using those that were missed", breaks="the missed keys change"),

dict(id="c28-grow-cap", prop="C26", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", '''	var buf = bytes.NewBuffer(make([]byte, 0, 64))
	buf.WriteByte('"')
	start := 0
''', '''	var buf = bytes.NewBuffer(nil)
	if s == "" {
		return emptyJSON
	}
	buf.WriteByte('"')
	start := 0
'''), ("library/stringx/stringx.go", '''var hexSet = ''', '''var emptyJSON = []byte(`""`)

var hexSet = ''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	b := StringMarshalJSON("", true)
	b[0] = 'x'
	if got := StringMarshalJSON("", true); string(got) != `""` {
		t.Fatalf("%q", got)
	}
}
''', needs="writing to the result for the empty string before encoding it again", breaks="the empty string is encoded as what the caller wrote"),

dict(id="c31-perm-pool", prop="C31", pkg="hack/fastrand",
 edits=[("hack/fastrand/fastrand.go", '''	m := make([]int, n)
	for i := 1; i < n; i++ {
''', '''	m := make([]int, n, n+n%2)
	if n > 0 && n <= len(small) {
		m = small[:n:n]
		small = small[n:]
	}
	for i := 1; i < n; i++ {
'''), ("hack/fastrand/fastrand.go", '''// Perm returns, as''', '''// small permutations are cut from one piece of memory.
var small = make([]int, 4096)

// Perm returns, as''')],
 race=True, demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 50; i++ {
				_ = Perm(10)
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}
''', needs="two goroutines that permute at the same time", breaks="two permutations share memory"),
]
