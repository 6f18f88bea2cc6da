SK = "gogenerics/gds/gskiplist"
RB = "gogenerics/gds/grbt"
GL = "gogenerics/gcontainers/glist"
SY = "gogenerics/gconcurrent/sync"
ST = "library/stringx"
CR = "library/cryptox"
CX = "library/cachex"
MEM = '''
func liveBytes() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}
'''
SEEDS = [
dict(id="c41-skip-finger", prop="C41", pkg=SK, race=True,
 edits=[(SK+"/skiplist.go", '''	elementCount int
}
''', '''	elementCount int
	// the element the last successful search ended at
	finger *SkipListElement[K, V]
}
'''), (SK+"/skiplist.go", '''	index := t.findEntryIndex(key, 0)
	var currentNode *SkipListElement[K, V]

	currentNode = t.startLevels[index]
''', '''	if t.finger != nil && t.finger.key == key {
		return t.finger, true
	}
	index := t.findEntryIndex(key, 0)
	currentNode := t.startLevels[index]
'''), (SK+"/skiplist.go", '''		if currentNode.key == key {
			return currentNode, true
		}

		nextNode = currentNode.next[index]
''', '''		if currentNode.key == key {
			t.finger = currentNode
			return currentNode, true
		}

		nextNode = currentNode.next[index]
'''), (SK+"/skiplist.go", '''		return
	}

	index := t.findEntryIndex(key, 0)

	var currentNode *SkipListElement[K, V]
''', '''		return
	}

	t.finger = nil
	index := t.findEntryIndex(key, 0)

	var currentNode *SkipListElement[K, V]
''')],
 demo='''
package gskiplist

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	for i := 0; i < 200; i++ {
		l.Insert(i, i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if v, ok := l.Find((i*7 + g) % 200); !ok || v != (i*7+g)%200 {
					t.Errorf("Find %d %v", v, ok)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''', needs="two lookups of a skip list at the same time, without any writer",
 breaks="the search remembers the element it ended at in the list, so concurrent readers race"),
dict(id="c41-rbt-sentinel", prop="C41", pkg=RB, race=True,
 edits=[(RB+"/rbt.go", '''	x := tree.root
	for x != tree.sentinel {
		if x.key == key {
			return x
		} else if tree.less(x.key, key) {
''', '''	// the sentinel holds the key while we descend, which saves a test per level
	x := tree.root
	tree.sentinel.key = key
	for {
		if x.key == key {
			return x
		} else if x != tree.sentinel && tree.less(x.key, key) {
'''), (RB+"/rbt.go", '''			x = x.left
		}
	}
	return x
}

// SubTree returns''', '''			x = x.left
		}
	}
}

// SubTree returns''')],
 demo='''
package rbt

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	tr := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 100; i++ {
		tr.Insert(2*i, i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				k := (i*7 + g) % 200
				if got := tr.Search(k); got != (k%2 == 0) {
					t.Errorf("Search(%d) %v", k, got)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''', needs="two lookups of a tree at the same time, without any writer",
 breaks="the lookup writes the key into the shared sentinel (classic sentinel search), so concurrent readers race and can walk past the leaves"),
dict(id="c41-list-front-init", prop="C41", pkg=GL, race=True,
 edits=[(GL+"/list.go", '''	if l.len == 0 {
		return nil
	}
	return l.root.next
''', '''	l.lazyInit()
	if l.root.next == &l.root {
		return nil
	}
	return l.root.next
''')],
 demo='''
package glist

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for n := 0; n < 50; n++ {
		var l List[int]
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if l.Front() != nil || l.Len() != 0 {
					t.Error("not empty")
				}
			}()
		}
		wg.Wait()
	}
}
''', needs="two readers of a list that is still the zero value",
 breaks="Front initialises the list, so readers of an empty zero list race"),
dict(id="c42-map-nilkeep", prop="C42", pkg=SY,
 edits=[(SY+"/map.go", '''		if !e.tryExpungeLocked() {
			m.dirty[k] = e
		}
''', '''		// a deleted entry will often be stored again: keep it, which
		// saves an allocation then
		if p := e.p.Load(); p == nil || unsafe.Pointer(p) != expunged {
			m.dirty[k] = e
		}
''')],
 demo='''
package sync

import (
	"runtime"
	"testing"
)
'''+MEM+'''
func TestSeededDemo(t *testing.T) {
	var m Map[int, int]
	run := func(from, to int) {
		for i := from; i < to; i++ {
			m.Store(i, i)
			for j := 0; j < 3; j++ {
				m.Load(i)
			}
			if i%2 == 0 {
				m.Range(func(int, int) bool { return true })
			}
			m.Delete(i)
		}
	}
	run(0, 500)
	a := liveBytes()
	run(500, 8500)
	if b := liveBytes(); b-a > 150<<10 {
		t.Fatalf("grew by %d bytes", b-a)
	}
	runtime.KeepAlive(&m)
}
''', needs="many different keys stored, promoted, deleted; the number of live keys stays small",
 breaks="deleted entries are copied into every new dirty map and never leave the map"),
dict(id="c42-lint-cache", prop="C42", pkg=ST,
 edits=[(ST+"/stringx.go", '''	r := string(toInitialisms(runes[i:]))
	return r
}
''', '''	r := string(toInitialisms(runes[i:]))
	v, _ := lintCache.LoadOrStore(name, r)
	return v.(string)
}

// lintCache remembers converted names, code generators ask for few
var lintCache sync.Map
'''), (ST+"/stringx.go", '''	if name == "_" {
		return "_"
	}
''', '''	if name == "_" {
		return "_"
	}
	if r, ok := lintCache.Load(name); ok {
		return r.(string)
	}
'''), (ST+"/stringx.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
 demo='''
package stringx

import (
	"fmt"
	"runtime"
	"testing"
)
'''+MEM+'''
func TestSeededDemo(t *testing.T) {
	run := func(from, to int) {
		for i := from; i < to; i++ {
			LintCamelString(fmt.Sprintf("user_%d_id", i))
		}
	}
	run(0, 1000)
	a := liveBytes()
	run(1000, 21000)
	if b := liveBytes(); b-a > 400<<10 {
		t.Fatalf("grew by %d bytes", b-a)
	}
}
''', needs="many different names converted over the life of a process",
 breaks="every converted name is kept in a package-level cache without bound"),
dict(id="c42-aes-cache", prop="C42", pkg=CR,
 edits=[(CR+"/cryptox.go", '''func mustNewCipher(cipherKey []byte) cipher.Block {
	block, err := aes.NewCipher(cipherKey)
	if err != nil {
		panic(err)
	}
	return block
}
''', '''func mustNewCipher(cipherKey []byte) cipher.Block {
	if b, ok := ciphers.Load(string(cipherKey)); ok {
		return b.(cipher.Block)
	}
	block, err := aes.NewCipher(cipherKey)
	if err != nil {
		panic(err)
	}
	b, _ := ciphers.LoadOrStore(string(cipherKey), block)
	return b.(cipher.Block)
}

// ciphers holds the expanded keys
var ciphers sync.Map
'''), (CR+"/cryptox.go", '''	"hash/fnv"
''', '''	"hash/fnv"
	"sync"
''')],
 demo='''
package cryptox

import (
	"encoding/binary"
	"runtime"
	"testing"
)
'''+MEM+'''
func TestSeededDemo(t *testing.T) {
	run := func(from, to int) {
		key := make([]byte, 16)
		for i := from; i < to; i++ {
			binary.LittleEndian.PutUint64(key, uint64(i))
			AESEncrypt(key, []byte("text"))
		}
	}
	run(0, 1000)
	a := liveBytes()
	run(1000, 11000)
	if b := liveBytes(); b-a > 400<<10 {
		t.Fatalf("grew by %d bytes", b-a)
	}
}
''', needs="many different keys used over the life of a process",
 breaks="every key (expanded) is kept in a package-level cache without bound"),
dict(id="c42-skip-free", prop="C42", pkg=SK,
 edits=[(SK+"/skiplist.go", '''	elementCount int
}
''', '''	elementCount int
	// levels of deleted elements, for new ones
	spare [][maxLevel]*SkipListElement[K, V]
}
'''), (SK+"/skiplist.go", '''				t.elementCount--
			}
''', '''				t.elementCount -= 1
				t.spare = append(t.spare, [maxLevel]*SkipListElement[K, V]{})
			}
''')],
 demo='''
package gskiplist

import (
	"runtime"
	"testing"
)
'''+MEM+'''
func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	run := func(from, to int) {
		for i := from; i < to; i++ {
			l.Insert(i%10, i)
			l.Delete(i % 10)
		}
	}
	run(0, 1000)
	a := liveBytes()
	run(1000, 21000)
	if b := liveBytes(); b-a > 400<<10 {
		t.Fatalf("grew by %d bytes", b-a)
	}
	runtime.KeepAlive(l)
}
''', needs="many deletions over the life of a list",
 breaks="each deletion appends to a free list that nothing takes from"),
dict(id="c10-get-retry", prop="C10", pkg=CX,
 edits=[(CX+"/cache.go", '''	return values, status, err
}

func (c *Chain[K, V]) msetForMGet''', '''	for idx := range status {
		if status[idx] {
			// a partial result is a result
			err = nil
		}
	}
	if err != nil {
		return values, status, fmt.Errorf("no level could answer: %w", err)
	}
	return values, status, nil
}

func (c *Chain[K, V]) msetForMGet'''),
 (CX+"/cache.go", '''	"errors"
''', '''	"errors"
	"fmt"
''')],
 demo='''
package cachex

import (
	"context"
	"errors"
	"testing"
	"time"
)

type failing struct{ NoCache[string, int] }

func (f *failing) MGet(context.Context, ...string) ([]int, []bool, error) {
	return nil, nil, errors.New("backing store is down")
}

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	a := NewLRUCacheV2[string, int](10, 0)
	_ = a.Set(ctx, "a", 1, time.Hour)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: a, TTL: time.Hour}, {Cache: &failing{}, TTL: time.Hour}}, ContinueOnReadErr: true}
	_, oks, err := c.MGet(ctx, "a", "b")
	if err == nil {
		t.Fatalf("b was not looked up and nobody says so: %v", oks)
	}
}
''', needs="reading on after errors, a batch partly found, and a last level that fails",
 breaks="the failure of the last level is swallowed when another key of the batch was found"),
]
