SEEDS = [
dict(id="c01-cad-once", prop="C01", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", '''	for ok {
		p := e.p.Load()
		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
			return false
		}
		if e.p.CompareAndSwap(p, nil) {
			return true
		}
	}
	return false
''', '''	if !ok {
		return false
	}
	p := e.p.Load()
	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
		return false
	}
	// somebody else changed the entry when this fails
	return e.p.CompareAndSwap(p, nil)
''')],
 demo='''
package sync

import (
	"runtime"
	gosync "sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	for i := 0; i < 300; i++ {
		var m Map[int, int]
		m.Store(1, 7)
		m.Range(func(int, int) bool { return true })
		var wg gosync.WaitGroup
		stop := make(chan bool)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					for k := 0; k < 100; k++ {
						m.Store(1, 7)
					}
				}
			}
		}()
		for k := 0; k < 3000; k++ {
			m.Store(1, 7)
			// the value is 7 whatever the other one does
			if !m.CompareAndDelete(1, 7) {
				close(stop)
				wg.Wait()
				t.Fatal("CompareAndDelete failed")
			}
		}
		close(stop)
		wg.Wait()
	}
}
''', needs="storing the value the entry already has while it is compared and deleted", breaks="CompareAndDelete fails although the entry always has the expected value"),

dict(id="c01-cas-once", prop="C01", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", '''	nc := new
	for {
		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
		p = e.p.Load()
		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
			return false
		}
	}
''', '''	nc := new
	return e.p.CompareAndSwap(p, &nc)
''')],
 demo='''
package sync

import (
	"runtime"
	gosync "sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	for i := 0; i < 300; i++ {
		var m Map[int, int]
		m.Store(1, 7)
		m.Range(func(int, int) bool { return true })
		var wg gosync.WaitGroup
		stop := make(chan bool)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					for k := 0; k < 100; k++ {
						m.Store(1, 7)
					}
				}
			}
		}()
		for k := 0; k < 3000; k++ {
			if !m.CompareAndSwap(1, 7, 7) {
				close(stop)
				wg.Wait()
				t.Fatal("CompareAndSwap failed")
			}
		}
		close(stop)
		wg.Wait()
	}
}
''', needs="storing the value the entry already has while it is compared and swapped", breaks="CompareAndSwap fails although the entry always has the expected value"),

dict(id="c31-read-state", prop="C31", pkg="hack/fastrand",
 edits=[("hack/fastrand/fastrand.go", '''// Read generates len(p) random bytes''', '''var readSource = wyrand(Uint64())

// Read generates len(p) random bytes'''),
 ("hack/fastrand/fastrand.go", '''	r := wyrand(Uint32())
''', '''	r := &readSource
''')],
 race=True,
 demo='''
package fastrand

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 100)
			for k := 0; k < 1000; k++ {
				_, _ = Read(b)
			}
		}()
	}
	wg.Wait()
}
''', needs="two Reads at the same time", breaks="they share one generator without a lock: data race, the same bytes twice"),

dict(id="c42-lru-timer", prop="C42", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	el := lc.lruList.PushFront(key)
	lc.lruMap[key] = &item2[V]{
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
		el:         el,
	}
''', '''	el := lc.lruList.PushFront(key)
	it := &item2[V]{
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
		el:         el,
	}
	lc.lruMap[key] = it
	if ttl > 0 {
		// let go of the value in time
		time.AfterFunc(ttl+ttl/8+time.Second, func() {
			lc.mux.Lock()
			defer lc.mux.Unlock()
			if lc.lruMap[key] == it && it.expireTime.Before(time.Now()) {
				delete(lc.lruMap, key)
				lc.lruList.Remove(it.el)
			}
		})
	}
''')],
 demo='''
package cachex

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	lc := NewLRUCacheV2[int, []byte](4, 0)
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := heap()
	for i := 0; i < 20000; i++ {
		_ = lc.Set(context.Background(), i, make([]byte, 1000), time.Hour)
	}
	if grown := int64(heap() - before); grown > 5<<20 {
		t.Fatal(grown)
	}
	runtime.KeepAlive(lc)
}
''', needs="many keys with a long time to live in a small cache", breaks="every value ever stored stays in memory until its time to live has passed, although it was evicted"),

dict(id="c35-lru-timer", prop="C35", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	el := lc.lruList.PushFront(key)
	lc.lruMap[key] = &item2[V]{
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
		el:         el,
	}
''', '''	el := lc.lruList.PushFront(key)
	it := &item2[V]{
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
		el:         el,
	}
	lc.lruMap[key] = it
	if ttl >= time.Hour {
		// let go of the value in time
		time.AfterFunc(ttl, func() {
			lc.mux.Lock()
			defer lc.mux.Unlock()
			if lc.lruMap[key] == it && it.expireTime.Before(time.Now()) {
				delete(lc.lruMap, key)
				lc.lruList.Remove(it.el)
			}
		})
	}
''')],
 demo='''
package cachex

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	lc := NewLRUCacheV2[int, *[1000]byte](4, 0)
	gone := make(chan bool, 1)
	v := new([1000]byte)
	runtime.SetFinalizer(v, func(*[1000]byte) { gone <- true })
	_ = lc.Set(context.Background(), 1, v, 2*time.Hour)
	_ = lc.Delete(context.Background(), 1)
	v = nil
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	t.Fatal("the deleted value is still reachable")
	runtime.KeepAlive(lc)
}
''', needs="a time to live of an hour or more", breaks="a deleted or evicted value stays reachable until its time to live has passed"),

dict(id="c37-cas-miss", prop="C37", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", '''	} else if e, ok := m.dirty[key]; ok {
		swapped = e.tryCompareAndSwap(old, new)
		// We needed to lock mu in order to load the entry for key,
		// and the operation didn't change the set of keys in the map
		// (so it would be made more efficient by promoting the dirty
		// map to read-only).
		// Count it as a miss so that we will eventually switch to the
		// more efficient steady state.
		m.missLocked()
	}
''', '''	} else if e, ok := m.dirty[key]; ok {
		swapped = e.tryCompareAndSwap(old, new)
		// The keys are settled once values are compared: promote the dirty map
		// now, so that the next call needs no lock.
		m.read.Store(&readOnly[K, V]{m: m.dirty})
		m.dirty = nil
		m.misses = 0
	}
''')],
 demo='''
package sync

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	run := func(n int) time.Duration {
		var m Map[int, int]
		for i := 0; i < n; i++ {
			m.Store(i, i)
		}
		start := time.Now()
		for i := 0; i < 300; i++ {
			m.Store(n+i, i)
			m.CompareAndSwap(n+i, i, i+1)
		}
		return time.Since(start)
	}
	small, large := time.Hour, time.Hour
	for i := 0; i < 5; i++ {
		if d := run(100); d < small {
			small = d
		}
		if d := run(20000); d < large {
			large = d
		}
	}
	if large > 15*small {
		t.Fatal(small, large)
	}
}
''', needs="new keys and compare-and-swap on them in turn", breaks="every new key copies the whole map"),

dict(id="c23-iv-narrow", prop="C23", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", '''	"io"
)''', '''	"io"

	"github.com/miniLCT/gosb/hack/fastrand"
)'''),
 ("library/cryptox/cryptox.go", '''	ciphertext := make([]byte, aes.BlockSize+len(plainText))
	iv := ciphertext[:aes.BlockSize]
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	stream := cipher.NewCTR''', '''	ciphertext := make([]byte, aes.BlockSize+len(plainText))
	iv := ciphertext[:aes.BlockSize]
	if _, err := fastrand.Read(iv); err != nil {
		panic(err)
	}
	stream := cipher.NewCTR''')],
 demo='''
package cryptox

import "testing"

func TestSeededDemo(t *testing.T) {
	seen := map[[32]byte]bool{}
	for i := 0; i < 500000; i++ {
		var iv [32]byte
		copy(iv[:], AESCTREncrypt([]byte("0123456789abcdef"), []byte("x")))
		if seen[iv] {
			t.Fatal("the same initialisation vector twice")
		}
		seen[iv] = true
	}
}
''', needs="some hundred thousand CTR encryptions", breaks="initialisation vectors repeat: the generator is seeded with 32 bits"),

dict(id="c09-stripe", prop="C09", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	f.mu.Lock()
	defer f.mu.Unlock()
	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
	return os.WriteFile(fp, content, 0666)
}
''', '''	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
	// readers see the old or the new file, so a shared lock will do
	tmp, err := os.CreateTemp(dir, "new-*")
	if err != nil {
		return err
	}
	_, err = tmp.Write(content)
	if e := tmp.Close(); err == nil {
		err = e
	}
	f.mu.RLock()
	defer f.mu.RUnlock()
	if err == nil {
		err = os.Rename(tmp.Name(), fp)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
	}
	return err
}
'''),
 ("library/cachex/file.go", '''	// read again, the file may have been rewritten meanwhile
	f.mu.Lock()
	defer f.mu.Unlock()
	value, ok, dead, err = f.tryReadFile(fp)
	if dead {
''', '''	// read again, the file may have been rewritten meanwhile
	f.mu.RLock()
	defer f.mu.RUnlock()
	value, ok, dead, err = f.tryReadFile(fp)
	if dead {
''')],
 demo='''
package cachex

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[int, int]{Dir: t.TempDir()}
	for i := 0; i < 6000; i++ {
		_ = f.Set(ctx, 1, 1, -time.Second)
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _, _ = f.Get(ctx, 1)
			}()
		}
		_ = f.Set(ctx, 1, 2, time.Hour)
		wg.Wait()
		if v, ok, err := f.Get(ctx, 1); !ok || v != 2 || err != nil {
			t.Fatal(i, v, ok, err)
		}
	}
}
''', needs="a Get that finds the old entry expired while a Set replaces it", breaks="the fresh entry is removed"),
]
