# Caches beside the data, work outside the lock, large sizes, cooperating sites.
SEEDS = [
dict(id="c09-tmp-name", prop="C09", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	f.mu.Lock()
	defer f.mu.Unlock()
	dir := filepath.Dir(fp)
''', '''	dir := filepath.Dir(fp)
'''), ("library/cachex/file.go", '''	return os.WriteFile(fp, content, 0666)
''', '''	// readers only see whole files
	if err := os.WriteFile(fp+"~", content, 0666); err != nil {
		return err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	return os.Rename(fp+"~", fp)
''')],
 demo='''
package cachex

import (
	"context"
	"strings"
	"sync"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, string]{Dir: t.TempDir(), GCCycle: time.Hour}
	ctx := context.Background()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			v := strings.Repeat(string(rune('a'+g)), 1<<(10+4*(g%2)))
			for i := 0; i < 2000; i++ {
				if err := f.Set(ctx, "k", v, time.Hour); err != nil {
					t.Error(err)
					return
				}
				if got, ok, err := f.Get(ctx, "k"); !ok || err != nil || strings.Trim(got, got[:1]) != "" {
					t.Error(len(got), ok, err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''', needs="two writers of one key at the same time", breaks="they share one temporary file, so that a writer fails or readers see half a value"),

dict(id="c41-bitset-count", prop="C41", pkg="library/bitset", race=True,
 edits=[("library/bitset/bitset.go", '''	set []byte
	mu  sync.RWMutex
}''', '''	set []byte
	mu  sync.RWMutex
	sum int // how many bits are set, if known, and one more
}'''), ("library/bitset/bitset.go", '''	size := b.size()
	// 0 means the 1st bit, -1 means the bottom 1th bit,
	// -2 means the bottom 2th bit and so on.
	if offset < 0 {
		offset += size
	}
	if offset < 0 {
''', '''	size := b.size()
	b.sum = 0
	// 0 means the 1st bit, -1 means the bottom 1th bit,
	// -2 means the bottom 2th bit and so on.
	if offset < 0 {
		offset += size
	}
	if offset < 0 {
'''), ("library/bitset/bitset.go", '''	b.mu.Lock()
	for i := range b.set {
''', '''	b.mu.Lock()
	b.sum = 0
	for i := range b.set {
'''), ("library/bitset/bitset.go", '''	var n int
	n += bits.OnesCount8(b.set[sgi] << sbi)
''', '''	whole := start == 0 && end == -1
	if whole && b.sum > 0 {
		return b.sum - 1
	}
	n := bits.OnesCount8(b.set[sgi] << sbi)
'''), ("library/bitset/bitset.go", '''	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
	return n
''', '''	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
	if whole {
		b.sum = n + 1
	}
	return n
''')],
 demo='''
package bitset

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := New(1, 2, 3)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				b.Count(0, -1)
			}
		}()
	}
	wg.Wait()
}
''', needs="two goroutines count the whole set at the same time", breaks="counting writes to the set under the read lock"),

dict(id="c42-file-dirs", prop="C42", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	lastGC   atomic.Int64
''', '''	dirs sync.Map // directories known to exist

	lastGC   atomic.Int64
'''), ("library/cachex/file.go", '''	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
	return os.WriteFile(fp, content, 0666)
''', '''	if _, ok := f.dirs.Load(dir); !ok {
		_ = os.MkdirAll(dir, 0777)
		f.dirs.Store(dir, true)
	}
	err = os.WriteFile(fp, content, 0666)
	if os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
		err = os.WriteFile(fp, content, 0666)
	}
	return err
''')],
 demo='''
package cachex

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, int]{Dir: t.TempDir(), GCCycle: time.Hour}
	ctx := context.Background()
	live := func() int {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	work := func(from int) {
		for i := from; i < from+3000; i++ {
			_ = f.Set(ctx, i, i, time.Hour)
			_ = f.Delete(ctx, i)
		}
	}
	work(0)
	before := live()
	work(3000)
	if grown := live() - before; grown > 200000 {
		t.Fatal(grown)
	}
	runtime.KeepAlive(f)
}
''', needs="many different keys over the life of one store", breaks="the store remembers the directory of every key ever written"),

dict(id="c10-own-ttl", prop="C10", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''func (c *Chain[K, V]) Set(ctx context.Context, key K, value V, _ time.Duration) error {
	var errs []error
	for _, item := range c.Caches {
		err := item.Cache.Set(ctx, key, value, item.TTL)
''', '''func (c *Chain[K, V]) Set(ctx context.Context, key K, value V, ttl time.Duration) error {
	var errs []error
	for _, item := range c.Caches {
		if item.TTL != 0 {
			ttl = item.TTL
		}
		err := item.Cache.Set(ctx, key, value, ttl)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	a, b := NewLRUCacheV2[string, int](2, 0), NewLRUCacheV2[string, int](2, 0)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: a, TTL: time.Hour}, {Cache: b}}}
	ctx := context.Background()
	_ = c.Set(ctx, "a", 1, time.Minute)
	time.Sleep(time.Millisecond)
	if _, ok, _ := b.Get(ctx, "a"); ok {
		t.Fatal("a level with a TTL of 0 kept the value")
	}
}
''', needs="a level without a TTL", breaks="it gets the TTL of the level before, or the caller's"),

dict(id="c13-grow-outside", prop="C13", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''		newSet := make([]byte, gi+1)
		copy(newSet, b.set)
		b.set = newSet
''', '''		old := b.set
		if gi >= 1<<12 {
			// clearing that much memory takes a while, let others read
			b.mu.Unlock()
			b.mu.RLock()
			newSet := make([]byte, gi+1)
			copy(newSet, old)
			b.mu.RUnlock()
			b.mu.Lock()
			old = newSet
		}
		newSet := old
		if len(newSet) <= gi {
			newSet = make([]byte, gi+1)
			copy(newSet, b.set)
		}
		b.set = newSet
''')],
 demo='''
package bitset

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		b := New()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					_, _ = b.Set(g, true)
					_, _ = b.Set(40000+1000*i+g, true)
				}
			}(g)
		}
		wg.Wait()
		if n := b.Count(0, -1); n != 84 {
			t.Fatal(n)
		}
	}
}
''', needs="a set growing beyond 4096 bytes while another goroutine sets bits", breaks="bits set meanwhile are lost"),

dict(id="c24-pad-mask", prop="C24", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", '''	isPad := true
	for _, v := range pad {
		if v != n {
			isPad = false
			break
		}
	}
	if !isPad {
''', '''	// no early exit, the time taken must not tell which byte is wrong
	var diff byte
	for _, v := range pad {
		diff = (diff | v ^ n) & 0x1f
	}
	if diff != 0 {
''')],
 demo='''
package cryptox

import (
	"bytes"
	"crypto/aes"
	"encoding/hex"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	block, _ := aes.NewCipher(key)
	text := append(bytes.Repeat([]byte("a"), 13), 3, 0x83, 3)
	text[13] = 0xe3
	out := make([]byte, 16)
	block.Encrypt(out, text)
	if got, err := AESDecrypt(key, []byte(hex.EncodeToString(out))); err == nil {
		t.Fatalf("%q", got)
	}
}
''', needs="padding bytes that are wrong in their upper three bits only", breaks="they are accepted"),

dict(id="c36-append-level", prop="C36", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", '''	if level > t.maxLevel {
		level = t.maxLevel + 1
		t.maxLevel = level
	}
''', '''	if level > t.maxLevel {
		if t.elementCount>>uint(2*t.maxLevel) == 0 {
			level = t.maxLevel // still too few elements for another level
		} else {
			level = t.maxLevel + 1
			t.maxLevel = level
		}
	}
''')],
 demo='''
package gskiplist

import (
	"testing"
)

type key int

func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	for i := 0; i < 1<<17; i++ {
		l.Insert(i, i)
	}
	if l.maxLevel < 10 {
		t.Fatal(l.maxLevel)
	}
}
''', needs="lists of many elements, whose height follows a quarter of the usual", breaks="searches take longer steps"),

dict(id="c38-lru-walk", prop="C38", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	if tmp.expireTime.Before(time.Now()) {
		delete(lc.lruMap, key)
		lc.lruList.Remove(tmp.el)
		var emp V
		return emp, false
	}
''', '''	if tmp.expireTime.Before(time.Now()) {
		delete(lc.lruMap, key)
		for el := lc.lruList.Front(); el != nil; el = el.Next() {
			if el.Value == any(key) {
				lc.lruList.Remove(el)
				break
			}
		}
		var emp V
		return emp, false
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	lc := NewLRUCacheV2[int, int](1<<17, 0)
	ctx := context.Background()
	for i := 0; i < 1<<17; i++ {
		_ = lc.Set(ctx, i, i, time.Hour-time.Hour*time.Duration(2-i>>16))
	}
	start := time.Now()
	for i := 0; i < 3000; i++ {
		_, _, _ = lc.Get(ctx, i)
	}
	if d := time.Since(start); d > 150*time.Millisecond {
		t.Fatal(d)
	}
}
''', needs="reads of expired entries of a large cache", breaks="each of them walks through the list"),

dict(id="c34-empty", prop="C34", pkg="hack/unsafex",
 edits=[("hack/unsafex/str20.go", '''	return unsafe.String(unsafe.SliceData(b), len(b))
''', '''	if b == nil {
		return ""
	}
	return unsafe.String(&b[0], len(b))
''')],
 demo='''
package unsafex

import "testing"

func TestSeededDemo(t *testing.T) {
	if SliceToString([]byte{}) != "" {
		t.Fatal()
	}
}
''', needs="an empty slice that is not nil", breaks="the conversion panics"),

dict(id="c18-move-adjacent", prop="C18", pkg="gogenerics/gcontainers/glist",
 edits=[("gogenerics/gcontainers/glist/list.go", '''	if e == at {
		return
	}
''', '''	if e == at || e.prev == at || e.next == at.next {
		return // there already
	}
	if n := e.next; n == at && n.next == e.prev {
		return // a ring of three
	}
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	a := l.PushBack(1)
	b := l.PushBack(2)
	l.MoveAfter(a, b)
	if l.Front() != b || l.Back() != a {
		t.Fatal("not moved")
	}
}
''', needs="a list of two elements", breaks="its first element cannot be moved behind the second"),

]
