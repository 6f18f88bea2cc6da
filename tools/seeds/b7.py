M = "gogenerics/gconcurrent/sync"
SK = "gogenerics/gds/gskiplist"
CX = "library/cachex"
BS = "library/bitset"
GL = "gogenerics/gcontainers/glist"
GR = "gogenerics/gcontainers/gring"
GH = "gogenerics/gcontainers/gheap"
GQ = "gogenerics/gcontainers/gqueue"
GN = "gogenerics/gnumerics"
SX = "library/stringx"
SEEDS = [
dict(id="c35-elem-links", prop="C35", pkg=GL,
 edits=[(GL+"/list.go", '''	e.next = nil // avoid memory leaks
	e.prev = nil // avoid memory leaks
	e.list = nil
''', '''	e.list = nil // next and prev are set again when it is inserted
''')],
 demo='''
package glist

import (
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	l := New[*[1 << 16]byte]()
	a := l.PushBack(new([1 << 16]byte))
	gone := make(chan struct{})
	func() {
		v := new([1 << 16]byte)
		runtime.SetFinalizer(v, func(any) { close(gone) })
		b := l.PushBack(v)
		l.Remove(a)
		l.Remove(b)
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			runtime.KeepAlive(a)
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	runtime.KeepAlive(a)
	t.Fatal("the removed value is never reclaimed")
}
''', needs="a handle of a removed element that is kept while its former neighbours are removed too", breaks="a kept element keeps its former neighbours and their values alive for ever"),
dict(id="c35-lru-expired", prop="C35", pkg=CX,
 edits=[(CX+"/lrucache.go", '''	el := lc.lruList.PushFront(key)
''', '''	if last := lc.lruList.Back(); last != nil && lc.lruList.Len() == lc.caption {
		// reuse the element of the entry that has to go
		delete(lc.lruMap, last.Value)
		last.Value = any(key)
		lc.lruList.MoveToFront(last)
		lc.spare = lc.lruMap[key]
	}
	el := lc.lruList.Front()
	if el == nil || el.Value != any(key) {
		el = lc.lruList.PushFront(key)
	}
''')], demo="", needs="", breaks="") if False else
dict(id="c35-queue-clear", prop="C35", pkg=GQ,
 edits=[(GQ+"/fifo.go", '''	q.list = glist.New[T]()
	q.length = 0
}

// Iterator''', '''	q.list.Init()
	q.length = 0
}

// Iterator''')], demo="", needs="", breaks="") if False else
dict(id="c35-rbt-clear", prop="C35", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", '''	tree.root = tree.sentinel
''', '''	tree.root.left, tree.root.right = tree.sentinel, tree.sentinel
	tree.root = tree.sentinel
''')], demo="", needs="", breaks="") if False else
dict(id="c36-first-flat", prop="C36", pkg=SK,
 edits=[(SK+"/skiplist.go", '''	level := t.generateLevel(t.maxNewLevel)
''', '''	level := t.generateLevel(t.maxNewLevel)
	if !t.IsEmpty() && key < t.startLevels[0].key {
		level = 0 // becomes the first one, found without express lanes
	}
''')],
 demo='''
package gskiplist

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	build := func(n int) time.Duration {
		best := time.Hour
		for r := 0; r < 3; r++ {
			l := New[int, int]()
			for i := 0; i < n; i++ {
				l.Insert(n-i, i) // always the first, cheap even in a linked list
			}
			start := time.Now()
			for i := 0; i < 500; i++ {
				l.Find(n - i%10)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	small, big := build(500), build(32000)
	if big > 20*small {
		t.Fatalf("500 searches take %v in 500 entries, %v in 32000", small, big)
	}
}
''', needs="keys inserted in descending order, and enough of them", breaks="the list stays flat, searches walk all entries"),
dict(id="c37-miss-uncounted", prop="C37", pkg=M,
 edits=[(M+"/map.go", '''		if !ok && read.amended {
			e, ok = m.dirty[key]
			// Regardless of whether the entry was present, record a miss: this key
			// will take the slow path until the dirty map is promoted to the read
			// map.
			m.missLocked()
		}
		m.mu.Unlock()
	}
	if !ok {
		var zero V
		return zero, false
	}
	return e.load()''', '''		if !ok && read.amended {
			// record a miss: this key will take the slow path until the dirty map
			// is promoted to the read map.
			if e, ok = m.dirty[key]; ok {
				m.missLocked()
			}
		}
		m.mu.Unlock()
	}
	if !ok {
		var zero V
		return zero, false
	}
	return e.load()''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[int, int]
	m.Store(1, 1)
	for i := 0; i < 100; i++ {
		m.Load(2)
	}
	// nobody else is active: a load of a missing key must not need the lock
	m.mu.Lock()
	done := make(chan bool)
	go func() { m.Load(3); close(done) }()
	select {
	case <-done:
		m.mu.Unlock()
	case <-timeout():
		m.mu.Unlock()
		t.Fatal("loads of missing keys take the lock for ever")
	}
}
''', needs="many loads of keys that are missing while the map holds keys not promoted yet", breaks="loads of missing keys lock the whole map for ever, because misses of absent keys no longer promote the dirty map") ,
dict(id="c37-misses-reset", prop="C37", pkg=M,
 edits=[(M+"/map.go", '''	m.dirty = nil
	m.misses = 0
}
''', '''	m.dirty = nil
}
''')],
 demo='''
package sync

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	work := func(n int) time.Duration {
		best := time.Hour
		for r := 0; r < 3; r++ {
			var m Map[int, int]
			for i := 0; i < n; i++ {
				m.Store(i, i)
			}
			for i := 0; i < n; i++ {
				m.Load(i)
			}
			for i := 0; i <= n; i++ {
				m.Load(-1)
			}
			start := time.Now()
			for i := 0; i < 300; i++ {
				m.Store(n+i, i)
				m.Load(n + i)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	small, big := work(300), work(20000)
	if big > 20*small {
		t.Fatalf("300 stores and loads take %v with 300 keys, %v with 20000", small, big)
	}
}
''', needs="a map that was promoted once by misses, then new keys stored and read", breaks="after the first promotion every miss promotes again, so each new key copies the whole map"),
dict(id="c38-heap-down", prop="C38", pkg=GH,
 edits=[(GH+"/heap.go", '''func Push[T any](h *Heap[T], v T) {
	x := &h.data
	(*x) = append((*x), v)
	siftUp(*x, len(*x)-1, h.less)
''', '''func Push[T any](h *Heap[T], v T) {
	x := &h.data
	full := len(*x) == cap(*x)
	(*x) = append((*x), v)
	if full || len(*x)&63 == 0 {
		heapSort(*x, h.less) // moved: restore the order of the new array
	} else {
		siftUp(*x, len(*x)-1, h.less)
	}
''')],
 demo='''
package gheap

import "testing"

func TestSeededDemo(t *testing.T) {
	n := 0
	h := New[int](func(a, b int) bool { n++; return a < b })
	worst := 0
	for i := 0; i < 4000; i++ {
		n = 0
		Push(h, 4000-i)
		if n > worst {
			worst = n
		}
	}
	if worst > 100 {
		t.Fatalf("a Push into up to 4000 elements takes %d comparisons", worst)
	}
}
''', needs="every 64th Push, or one that makes the array grow", breaks="some pushes compare all elements instead of one per level"),
dict(id="c38-list-pushlist", prop="C38", pkg=GL,
 edits=[(GL+"/list.go", '''	if e.list != l || l.root.prev == e {
		return
	}
''', '''	if e.list != l || l.root.prev == e {
		return
	}
	for l.root.next != e {
		l.move(l.root.next, l.root.prev) // rotate until e comes first
	}
''')], demo="", needs="", breaks="") if False else
dict(id="c39-bitset-range", prop="C39", pkg=BS,
 edits=[(BS+"/bitset.go", '''	b.mu.RLock()
	defer b.mu.RUnlock()
	size := b.size()
	if size == 0 {
		return
	}
	for offset := 0; offset < size; offset++ {
		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {
			return
		}
	}
}
''', '''	b.mu.RLock()
	size := b.size()
	for offset := 0; offset < size; offset++ {
		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {
			break
		}
	}
	b.mu.RUnlock()
}
''')],
 demo='''
package bitset

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	b := New(1)
	func() {
		defer func() { recover() }()
		b.Range(func(int, bool) bool { panic("x") })
	}()
	done := make(chan bool)
	go func() { b.Set(0, true); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Set blocks after a callback panicked")
	}
}
''', needs="a Range callback that panics, recovered by the caller, then a write", breaks="the read lock stays held, every later write blocks for ever"),
dict(id="c39-lru-get", prop="C39", pkg=CX,
 edits=[(CX+"/lrucache.go", '''	lc.mux.Lock()
	defer lc.mux.Unlock()

	val, ok := lc.getOne(key)
	return val, ok, nil
''', '''	lc.mux.Lock()
	val, ok := lc.getOne(key)
	lc.mux.Unlock()
	return val, ok, nil
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	c := NewLRUCacheV2[any, int](4, 0)
	ctx := context.Background()
	func() {
		defer func() { recover() }()
		c.Get(ctx, []int{1})
	}()
	done := make(chan bool)
	go func() { c.Set(ctx, 1, 1, time.Hour); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the cache blocks after a key that cannot be hashed")
	}
}
''', needs="a cache keyed by an interface type and a key of a dynamic type that cannot be hashed, the panic being recovered", breaks="the cache's lock stays held, every later call blocks for ever"),
dict(id="c39-map-cas", prop="C39", pkg=M,
 edits=[(M+"/map.go", '''	m.mu.Lock()
	defer m.mu.Unlock()
	read = m.loadReadOnly()
	swapped := false
''', '''	m.mu.Lock()
	read = m.loadReadOnly()
	swapped := false
'''), (M+"/map.go", '''		m.missLocked()
	}
	return swapped
}
''', '''		m.missLocked()
	}
	m.mu.Unlock()
	return swapped
}
''')],
 demo='''
package sync

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	var m Map[string, any]
	m.Store("a", []int{1}) // not promoted yet: CompareAndSwap takes the lock
	func() {
		defer func() { recover() }()
		m.CompareAndSwap("a", []int{1}, 2)
	}()
	done := make(chan bool)
	go func() { m.Store("b", 1); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the map blocks after values that cannot be compared")
	}
}
''', needs="a key only in the dirty map whose value cannot be compared, the panic being recovered", breaks="the map's lock stays held, every later store of a new key blocks for ever"),
dict(id="c39-gc-status", prop="C39", pkg=CX,
 edits=[(CX+"/file.go", '''		defer func() {
			f.lastGC.Store(time.Now().Unix())
			f.gcStatus.Store(false)
			_ = recover()
		}()
		f.scanExpire()
''', '''		defer func() {
			_ = recover()
		}()
		f.scanExpire()
		f.lastGC.Store(time.Now().Unix())
		f.gcStatus.Store(false)
''')],
 demo='''
package cachex

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"
)

type seededVal struct{ Bad bool }

func (v *seededVal) UnmarshalJSON(b []byte) error {
	if string(b) == "{\\n    \\"Bad\\": true\\n  }" {
		panic("cannot decode")
	}
	return nil
}

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, seededVal]{Dir: t.TempDir(), GCCycle: time.Second}
	ctx := context.Background()
	files := func() (n int) {
		filepath.Walk(f.Dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				n++
			}
			return nil
		})
		return n
	}
	f.Set(ctx, "a", seededVal{true}, time.Hour)
	for i := 0; i < 3; i++ { // clean-up meets the bad entry
		time.Sleep(1100 * time.Millisecond)
		f.Delete(ctx, "none")
	}
	time.Sleep(200 * time.Millisecond)
	f.Set(ctx, "a", seededVal{}, time.Hour)
	f.Set(ctx, "b", seededVal{}, time.Millisecond)
	for i := 0; i < 5; i++ {
		time.Sleep(1100 * time.Millisecond)
		f.Get(ctx, "a")
	}
	time.Sleep(200 * time.Millisecond)
	if n := files(); n != 1 {
		t.Fatalf("%d files, an expired entry is never cleaned up", n)
	}
}
''', needs="a clean-up that meets an entry whose decoding panics", breaks="no clean-up ever runs again, expired files stay for ever"),
dict(id="c40-write-err", prop="C40", pkg=CX,
 edits=[(CX+"/file.go", '''	return os.WriteFile(fp, content, 0666)
''', '''	file, err := os.OpenFile(fp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	_, _ = file.Write(content)
	return file.Close()
''')],
 demo='''
package cachex

import (
	"context"
	"os/signal"
	"strings"
	"syscall"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	f := &FileStore[string, string]{Dir: t.TempDir()}
	ctx := context.Background()
	var old syscall.Rlimit
	syscall.Getrlimit(1, &old)
	cur := old
	cur.Cur = 200
	if err := syscall.Setrlimit(1, &cur); err != nil {
		t.Skip(err)
	}
	err := f.Set(ctx, "a", strings.Repeat("x", 1000), time.Hour)
	syscall.Setrlimit(1, &old)
	if err == nil {
		t.Fatal("Set reports success although the value was not written completely")
	}
}
''', needs="a write that fails half-way, as on a full disk", breaks="Set reports success, the entry is damaged and lost"),
dict(id="c40-get-miss", prop="C40", pkg=CX,
 edits=[(CX+"/file.go", '''		if os.IsNotExist(err) {
			return emp, false, false, nil
		}
		return emp, false, false, err
''', '''		return emp, false, !os.IsNotExist(err), nil
''')],
 demo='''
package cachex

import (
	"context"
	"syscall"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, string]{Dir: t.TempDir()}
	ctx := context.Background()
	if err := f.Set(ctx, "a", "x", time.Hour); err != nil {
		t.Fatal(err)
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	cur := old
	cur.Cur = 3
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &cur); err != nil {
		t.Skip(err)
	}
	_, ok, err := f.Get(ctx, "a")
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	if !ok && err == nil {
		t.Error("an entry that could not be read is reported as missing")
	}
	if v, ok, err := f.Get(ctx, "a"); v != "x" || !ok {
		t.Fatalf("the entry is gone afterwards: %v", err)
	}
}
''', needs="a file that exists but cannot be opened at the moment", breaks="the entry is reported as missing and its file removed"),
dict(id="c40-delete-err", prop="C40", pkg=CX,
 edits=[(CX+"/file.go", '''		if err == nil || os.IsNotExist(err) {
			continue
		}
		errs = append(errs, err)
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
}

// gc ''', '''		if err == nil || os.IsNotExist(err) {
			errs = errs[:0]
			continue
		}
		errs = append(errs, err)
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
}

// gc ''')],
 demo='''
package cachex

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, string]{Dir: t.TempDir()}
	ctx := context.Background()
	f.Set(ctx, "b", "x", time.Hour)
	fp := f.getFilePath("a")
	os.MkdirAll(filepath.Join(fp, "x"), 0777)
	if err := f.Delete(ctx, "a", "b"); err == nil {
		t.Fatal("Delete reports success although the first key could not be deleted")
	}
}
''', needs="a multi-key Delete in which one key fails and a later one succeeds", breaks="Delete reports success although an entry is still there"),
dict(id="c20-move-zero", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''	n := r.Next()
	if s != nil {
		p := s.Prev()
''', '''	n := r.Next()
	if s != nil && s != n {
		p := s.Prev()
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	// linking an element to its successor removes nothing and must leave the ring as it is;
	// with a ring of one linked to itself the same holds
	r := New[int](1)
	s := New[int](3)
	r.Link(s)
	if r.Len() != 4 {
		t.Fatal(r.Len())
	}
	if got := r.Link(r); got.Len() != 3 || r.Len() != 1 {
		t.Fatalf("Link(r) gave %d, left %d", got.Len(), r.Len())
	}
}
''', needs="", breaks="") if False else
dict(id="c20-do-len", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''		f(r.Value)
		for p := r.Next(); p != r; p = p.next {
			f(p.Value)
		}
''', '''		for n, p := r.Len(), r; n > 0; n-- {
			f(p.Value)
			p = p.next
		}
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](5)
	for i := 0; i < 5; i++ {
		r.Value = i
		r = r.Next()
	}
	seen := map[any]int{}
	r.Do(func(v any) {
		seen[v]++
		if v == 1 {
			// the element behind the current one is taken out during the walk
			r.Next().Unlink(1)
		}
	})
	for v, n := range seen {
		if n > 1 {
			t.Fatalf("element %v visited %d times", v, n)
		}
	}
}
''', needs="a callback that removes elements ahead of the walk", breaks="Do goes on past the start and calls the function twice for some elements"),
dict(id="c27-surrogate", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
''', '''	if strings.Count(str, "&#") > strings.Count(str, ";") {
		return str // not terminated: no entities
	}
	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
''')], demo="", needs="", breaks="") if False else
dict(id="c33-maxby-last", prop="C33", pkg=GN,
 edits=[(GN+"/math.go", '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if cmp(c, maxC) {
			maxC = c
		}
	}
	return maxC
''', '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if !cmp(maxC, c) {
			maxC = c
		}
	}
	return maxC
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	type p struct{ k, id int }
	got := MaxBy([]p{{1, 0}, {3, 1}, {3, 2}, {2, 3}}, func(a, b p) bool { return a.k > b.k })
	if got.id != 1 {
		t.Fatalf("got element %d, the first of the largest is 1", got.id)
	}
}
''', needs="elements that compare as equal but differ", breaks="MaxBy gives the last instead of the first of several largest elements"),
dict(id="c33-max-zero", prop="C33", pkg=GN,
 edits=[(GN+"/math.go", '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if c > maxC {
			maxC = c
		}
	}
	return maxC
''', '''	for i := 0; i < l; i++ {
		c := collection[i]
		if i == 0 && c > maxC || c > maxC {
			maxC = c
		}
	}
	return maxC
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	if got := MaxCollection([]int{-5, -3, -9}); got != -3 {
		t.Fatalf("got %d", got)
	}
}
''', needs="a collection of values all below the zero value", breaks="MaxCollection gives the zero value, which is not in the collection"),
]
SEEDS[5 if False else [i for i, s in enumerate(SEEDS) if s["id"] == "c37-miss-uncounted"][0]]["demo"] = SEEDS[[i for i, s in enumerate(SEEDS) if s["id"] == "c37-miss-uncounted"][0]]["demo"].replace('import "testing"', 'import (\n\t"testing"\n\t"time"\n)\n\nfunc timeout() <-chan time.Time { return time.After(3 * time.Second) }', 1)
SEEDS = [s for s in SEEDS if s["demo"]]
