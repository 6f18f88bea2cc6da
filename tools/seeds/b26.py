# The caller's memory, chunks under a lock, memos of reading calls.
CA = "library/cachex/cache.go"
FI = "library/cachex/file.go"
RB = "gogenerics/gds/grbt/rbt.go"
SEEDS = [
dict(id="c10-dedupe-inplace", prop="C10", pkg="library/cachex",
 edits=[(CA, '''	uniqKeys := make([]K, 0, length)
''', '''	uniqKeys := keys[:0]
'''), (CA, '''	values := make([]V, length)
	status := make([]bool, length)
	var err error

	for idx''', '''	values, status := make([]V, length), make([]bool, length)
	var err error

	for idx''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: NewLRUCacheV2[string, int](4, 0), TTL: time.Hour}}}
	_ = c.Set(ctx, "a", 1, 0)
	_ = c.Set(ctx, "b", 2, 0)
	keys := []string{"a", "a", "b"}
	if _, _, err := c.MGet(ctx, keys...); err != nil || keys[0] != "a" || keys[1] != "a" || keys[2] != "b" {
		t.Fatal(keys, err)
	}
}
''', needs="a slice of keys with a repeated one in front of another", breaks="the caller's slice of keys is changed, and with it the caller's reading of the results"),

dict(id="c11-dedupe-inplace", prop="C11", pkg="library/cachex",
 edits=[(CA, '''	uniqKeys := make([]K, 0, length)
''', '''	uniqKeys := keys[:0]
'''), (CA, '''	values := make([]V, length)
	status := make([]bool, length)
	var err error

	for idx''', '''	values, status := make([]V, length), make([]bool, length)
	var err error

	for idx''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: NewLRUCacheV2[string, int](4, 0), TTL: time.Hour}}}
	_ = c.Set(ctx, "a", 1, 0)
	_ = c.Set(ctx, "b", 2, 0)
	r, err := MGet[string, int](ctx, c, "a", "a", "b")
	if k := r.HitKeys(); err != nil || len(k) != 3 || k[0] != "a" || k[1] != "a" || k[2] != "b" {
		t.Fatal(k, err)
	}
}
''', needs="the batch lookup of a chain with a repeated key in front of another", breaks="the views name other keys than were requested"),

dict(id="c02-range-len", prop="C02", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", '''		read = m.loadReadOnly()
		if read.amended {
			read = readOnly[K, V]{m: m.dirty}
''', '''		read = m.loadReadOnly()
		if read.amended && len(m.dirty) != len(read.m) {
			read = readOnly[K, V]{m: m.dirty}
''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[int, int]
	for i := 0; i < 5; i++ {
		m.Store(i, i)
	}
	m.Range(func(int, int) bool { return true })
	m.Delete(0)
	m.Store(10, 10)
	n := 0
	m.Range(func(int, int) bool { n++; return true })
	if n != 5 {
		t.Fatal(n)
	}
}
''', needs="as many new keys as deleted ones since the last promotion", breaks="Range misses the new keys"),

dict(id="c39-encode-lock", prop="C39", pkg="library/cachex",
 edits=[(FI, '''	content, err := json.MarshalIndent(item, "", "  ")
	if err != nil {
		return err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
''', '''	f.mu.Lock()
	content, err := json.MarshalIndent(&item, "", "  ")
	if err != nil {
		f.mu.Unlock()
		return err
	}
	defer f.mu.Unlock()
	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

type demoBad struct{ on bool }

func (b demoBad) MarshalJSON() ([]byte, error) {
	if b.on {
		panic("bad")
	}
	return []byte("{}"), nil
}

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, demoBad]{Dir: t.TempDir()}
	func() {
		defer func() { _ = recover() }()
		_ = f.Set(context.Background(), "a", demoBad{true}, time.Hour)
	}()
	done := make(chan bool)
	go func() {
		_ = f.Set(context.Background(), "a", demoBad{}, time.Hour)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
}
''', needs="a value whose encoding panics", breaks="every later call blocks"),

dict(id="c40-purge-last", prop="C40", pkg="library/cachex",
 edits=[(FI, '''	var lastErr error
	var errTotal int
''', '''	var (
		lastErr  error
		errTotal int
	)
'''), (FI, '''		if e := os.Remove(path); e != nil && !os.IsNotExist(e) {
			errTotal++
			lastErr = e
		}
		return nil
	})
''', '''		if lastErr = os.Remove(path); os.IsNotExist(lastErr) {
			lastErr = nil
		}
		if lastErr != nil {
			errTotal++
		}
		return nil
	})
''')],
 demo='''
package cachex

import (
	"context"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	if os.Getuid() == 0 { // permissions do not stop root
		_ = syscall.Setgid(65534)
		if err := syscall.Setuid(65534); err != nil {
			t.Skip(err)
		}
	}
	ctx := context.Background()
	for i := 0; i < 4; i++ {
		dir, err := os.MkdirTemp("/tmp", "demo")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		f := &FileStore[int, int]{Dir: dir}
		for k := 0; k < 4; k++ {
			_ = f.Set(ctx, k, k, time.Hour)
		}
		_ = os.Chmod(filepath.Dir(f.getFilePath(i)), 0555)
		err = f.Purge()
		_ = os.Chmod(filepath.Dir(f.getFilePath(i)), 0777)
		if _, ok, _ := f.Get(ctx, i); ok && err == nil {
			t.Fatal("an entry is left, but no error reported")
		}
	}
}
''', needs="a removal that fails, followed by one that succeeds", breaks="Purge reports success"),

dict(id="c38-build-up", prop="C38", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''	n := len(v)
	for i := n/2 - 1; i >= 0; i-- {
		siftDown(v, i, less)
	}
''', '''	for i := range v {
		siftUp(v, i, less)
	}
''')],
 demo='''
package gheap

import "testing"

func TestSeededDemo(t *testing.T) {
	const n = 1 << 16
	data := make([]int, n)
	for i := range data {
		data[i] = n - i
	}
	calls := 0
	NewWithData(data, func(a, b int) bool { calls++; return a < b })
	if calls > 4*n {
		t.Fatal(calls)
	}
}
''', needs="a large slice in descending order", breaks="building the heap takes n log n comparisons"),

dict(id="c41-keys-memo", prop="C41", pkg="gogenerics/gds/grbt",
 edits=[(RB, '''	data := make([]K, tree.len)
	index := 0
	tree.keys(tree.root, data, &index)
	return data
''', '''	if tree.sorted == nil {
		data := make([]K, tree.len)
		index := 0
		tree.keys(tree.root, data, &index)
		tree.sorted = data
	}
	return append(make([]K, 0, tree.len), tree.sorted...)
'''), (RB, '''	len      int                  // Number of nodes in the tree.
''', '''	len      int                  // Number of nodes in the tree.
	sorted   []K                  // The keys in order, nil when not known.
'''), (RB, '''	stored, ok := tree.insert(node)
	if ok {
''', '''	stored, ok := tree.insert(node)
	if ok {
		tree.sorted = nil
'''), (RB, '''	tree.len = int(math.Max(0, float64(tree.len-1)))
''', '''	tree.len, tree.sorted = int(math.Max(0, float64(tree.len-1))), nil
'''), (RB, '''	tree.len = 0
	sentinel :=''', '''	tree.len, tree.sorted = 0, nil
	sentinel :=''')],
 race=True,
 demo='''
package rbt

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	tree := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 100; i++ {
		tree.Insert(i, i)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tree.Keys()
		}()
	}
	wg.Wait()
}
''', needs="two Keys calls at the same time after a change", breaks="a data race"),

dict(id="c13-count-chunk", prop="C13", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''	for _, v := range b.set[sgi+1 : egi] {
		n += bits.OnesCount8(v)
	}
	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
''', '''	for i := sgi + 1; i < egi; i++ {
		if i%64 == 0 {
			// let writers in
			b.mu.RUnlock()
			b.mu.RLock()
		}
		n += bits.OnesCount8(b.set[i])
	}
	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
''')],
 demo='''
package bitset

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := New(make([]byte, 200000)...)
	var wg sync.WaitGroup
	stop := make(chan bool)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			// at most one bit is set at any time
			_, _ = b.Set(0, true)
			_, _ = b.Set(0, false)
			_, _ = b.Set(1600000-1, true)
			_, _ = b.Set(1600000-1, false)
		}
	}()
	for i := 0; i < 10000; i++ {
		if n := b.Count(0, -1); n > 1 {
			close(stop)
			wg.Wait()
			t.Fatal(n)
		}
	}
	close(stop)
	wg.Wait()
}
''', needs="counting more than 512 bits while bits far apart are moved", breaks="Count returns a number of bits that were never set at once"),
]
