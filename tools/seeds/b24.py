# Small counters, wide sizes, fingers, decoders that accept too much.
SEEDS = [
dict(id="c17-wide", prop="C17", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''		p := (index - 1) / 2
		if less(x[p], x[index]) {
''', '''		p := index / 2 // avoids a subtraction, off by one does not matter far down
		if index <= 1<<16 {
			p = (index - 1) / 2
		}
		if less(x[p], x[index]) {
''')],
 demo='''
package gheap

import "testing"

func TestSeededDemo(t *testing.T) {
	h := New(func(a, b int) bool { return a < b })
	for i := 140000; i > 0; i-- {
		Push(h, i)
	}
	for i := 1; i <= 140000; i++ {
		if v := Pop(h); v != i {
			t.Fatal(v, i)
		}
	}
}
''', needs="a heap of more than 65536 elements", breaks="elements come out of order"),

dict(id="c19-peek16", prop="C19", pkg="gogenerics/gcontainers/gqueue",
 edits=[("gogenerics/gcontainers/gqueue/fifo.go", "	var idx int\n", "	var idx uint16\n")],
 demo='''
package gqueue

import "testing"

func TestSeededDemo(t *testing.T) {
	q := New[int]()
	for i := 0; i < 70000; i++ {
		_ = q.Push(i)
	}
	for i, v := range PeekAll(q) {
		if v != i {
			t.Fatal(i, v)
		}
	}
}
''', needs="more than 65536 elements", breaks="PeekAll overwrites the first with the last and leaves the last out"),

dict(id="c14-count16", prop="C14", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", '''	maxLevel     int
	elementCount int
}''', '''	maxLevel     int
	elementCount uint16
}'''), ("gogenerics/gds/gskiplist/skiplist.go", "	return t.elementCount\n", "	return int(t.elementCount)\n")],
 demo='''
package gskiplist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	for i := 0; i < 70000; i++ {
		l.Insert(i, i)
	}
	if n := l.GetNodeCount(); n != 70000 {
		t.Fatal(n)
	}
}
''', needs="more than 65535 entries", breaks="the count starts over"),

dict(id="c33-index16", prop="C33", pkg="gogenerics/gnumerics",
 edits=[("gogenerics/gnumerics/math.go", '''	minC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if c < minC {
			minC = c
		}
	}
	return minC
''', '''	best := uint16(0)
	for i := range collection {
		if collection[i] < collection[best] {
			best = uint16(i)
		}
	}
	minC = collection[best]
	return minC
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	c := make([]int, 70000)
	c[69000] = -1
	if v := MinCollection(c); v != -1 {
		t.Fatal(v)
	}
}
''', needs="the smallest of more than 65536 elements stands beyond them", breaks="another element is returned"),

dict(id="c12-range16", prop="C12", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''	for offset := 0; offset < size; offset++ {
		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {
			return
		}
	}
''', '''	for i, gb := range b.set {
		for bit := byte(0); bit < 8; bit++ {
			if !f(int(uint16(i))*8+int(bit), getBit(gb, bit) == 1) {
				return
			}
		}
	}
''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	next := 0
	New(make([]byte, 70000)...).Range(func(offset int, _ bool) bool {
		if offset != next {
			t.Fatal(offset, next)
		}
		next++
		return true
	})
}
''', needs="sets of more than 65536 bytes", breaks="Range reports the offsets of the first bits again"),

dict(id="c35-tree-finger", prop="C35", pkg="gogenerics/gds/grbt",
 edits=[("gogenerics/gds/grbt/rbt.go", "	len      int                  // Number of nodes in the tree.\n", "	len      int                  // Number of nodes in the tree.\n	found    *rbNode[K, V]        // The node found last.\n"),
  ("gogenerics/gds/grbt/rbt.go", '''	x := tree.root
	for x != tree.sentinel {
		if x.key == key {
			return x
''', '''	if tree.found != nil && tree.found.key == key && tree.found.left != nil {
		return tree.found
	}
	x := tree.root
	for x != tree.sentinel {
		if x.key == key {
			tree.found = x
			return x
'''), ("gogenerics/gds/grbt/rbt.go", '''	tree.root = nil
	tree.sentinel = nil
''', '''	tree.root = nil
	tree.found = nil
	tree.sentinel = nil
'''), ("gogenerics/gds/grbt/rbt.go", "	node = nil\n	return temp\n", "	return temp\n")],
 demo='''
package rbt

import (
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	tree := New[int, *[100]int](func(a, b int) bool { return a < b })
	gone := make(chan bool, 1)
	func() {
		v := new([100]int)
		runtime.SetFinalizer(v, func(any) { gone <- true })
		tree.Insert(1, v)
		tree.Insert(2, nil)
		tree.Get(1)
		tree.Delete(1)
	}()
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-gone:
			runtime.KeepAlive(tree)
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	runtime.KeepAlive(tree)
	t.Fatal("the tree keeps the deleted value")
}
''', needs="an entry found, then deleted, and no other found since", breaks="the tree keeps the deleted entry"),

dict(id="c08-trailing", prop="C08", pkg="library/cachex",
 edits=[("library/cachex/file.go", "	item := &fileCacheItem[K, V]{}\n", "	item := new(fileCacheItem[K, V])\n"), ("library/cachex/file.go", "	err = json.Unmarshal(content, item)\n", "	err = json.NewDecoder(bytes.NewReader(content)).Decode(item)\n"),
        ("library/cachex/file.go", 'import (\n', 'import (\n	"bytes"\n')],
 demo='''
package cachex

import (
	"context"
	"io/fs"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, int]{Dir: t.TempDir()}
	ctx := context.Background()
	_ = f.Set(ctx, "a", 1, time.Hour)
	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if !d.IsDir() {
			b, _ := os.ReadFile(path)
			_ = os.WriteFile(path, append(b, "}}garbage"...), 0666)
		}
		return nil
	})
	if v, ok, err := f.Get(ctx, "a"); ok || err == nil {
		t.Fatal(v, ok, err)
	}
}
''', needs="a file with something behind the entry", breaks="the damage is not noticed"),

dict(id="c08-use-number", prop="C08", pkg="library/cachex",
 edits=[("library/cachex/file.go", "	item := &fileCacheItem[K, V]{}\n", "	item := new(fileCacheItem[K, V])\n"), ("library/cachex/file.go", "	err = json.Unmarshal(content, item)\n", "	dec := json.NewDecoder(bytes.NewReader(content))\n	dec.UseNumber() // keeps all digits\n	if err = dec.Decode(item); err == nil && dec.More() {\n		err = errors.New(\"more than one value\")\n	}\n"),
        ("library/cachex/file.go", 'import (\n', 'import (\n	"bytes"\n')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, any]{Dir: t.TempDir()}
	ctx := context.Background()
	_ = f.Set(ctx, "a", 1.5, time.Hour)
	if v, ok, err := f.Get(ctx, "a"); v != any(1.5) {
		t.Fatalf("%T %v %v %v", v, v, ok, err)
	}
}
''', needs="numbers in values of interface type", breaks="they come back as another type"),

dict(id="c31-perm-block", prop="C31", pkg="hack/fastrand",
 edits=[("hack/fastrand/fastrand.go", '''		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
''', '''		near := i + 1
		if i >= 1024 {
			near = 512 // stay in the cache
		}
		j := i - Intn(near)
		m[i] = m[j]
		m[j] = i
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		for _, v := range Perm(20000)[:512] {
			if v >= 10000 {
				return
			}
		}
	}
	t.Fatal("no large number among the first of twenty permutations")
}
''', needs="permutations of more than 1024 elements", breaks="numbers stay near where they started"),

dict(id="c40-mget-err", prop="C40", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''		val, st, err := f.Get(ctx, key)
		if err != nil {
			return nil, nil, err
		}
''', '''		val, st, err := f.readFile(f.getFilePath(key))
		if err != nil && idx == len(keys)-1 && len(keys) > 1 {
			break // what was read is still good
		}
		if err != nil {
			return nil, nil, err
		}
''')],
 demo='''
package cachex

import (
	"context"
	"os"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, int]{Dir: t.TempDir()}
	ctx := context.Background()
	_ = f.Set(ctx, "a", 1, time.Hour)
	_ = f.Set(ctx, "b", 1, time.Hour)
	fp := f.getFilePath("b")
	_ = os.Remove(fp)
	_ = os.Mkdir(fp, 0777)
	if v, ok, err := f.MGet(ctx, "a", "b"); err == nil {
		t.Fatal(v, ok, err)
	}
}
''', needs="the last of several keys cannot be read", breaks="it is reported as missing, without an error"),
]
