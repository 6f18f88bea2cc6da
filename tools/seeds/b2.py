C = "library/cachex"
B = "library/bitset"
SEEDS = [
dict(id="c06-ttl-extend", prop="C06", pkg=C,
 edits=[(C+"/lrucache.go", '''		tmp.expireTime = time.Now().Add(ttl)
		lc''', '''		if exp := time.Now().Add(ttl); exp.After(tmp.expireTime) {
			tmp.expireTime = exp
		}
		lc''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](4, 0)
	c.Set(ctx, "a", 1, time.Hour)
	c.Set(ctx, "a", 2, 10*time.Millisecond)
	time.Sleep(30 * time.Millisecond)
	if v, ok, _ := c.Get(ctx, "a"); ok {
		t.Fatal("expired entry returned", v)
	}
}
''', needs="a key set again with a shorter ttl than it has left", breaks="the entry outlives the ttl of its latest Set"),
dict(id="c06-set-recency", prop="C06", pkg=C,
 edits=[(C+"/lrucache.go", '''		tmp.expireTime = time.Now().Add(ttl)
		lc.lruList.MoveToFront(tmp.el)
''', '''		tmp.expireTime = time.Now().Add(ttl)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](2, 0)
	c.Set(ctx, "a", 1, time.Hour)
	c.Set(ctx, "b", 1, time.Hour)
	c.Set(ctx, "a", 2, time.Hour)
	c.Set(ctx, "c", 1, time.Hour)
	if _, ok, _ := c.Get(ctx, "a"); !ok {
		t.Fatal("recently set key evicted")
	}
	if _, ok, _ := c.Get(ctx, "b"); ok {
		t.Fatal("oldest key kept")
	}
}
''', needs="setting an existing key again and then going over the capacity", breaks="the most recently set key is evicted"),
dict(id="c06-used-reset", prop="C06", pkg=C,
 edits=[(C+"/lrucache.go", '''		tmp.val = value
		tmp.usedCount = 0
''', '''		tmp.val = value
		if tmp.usedCount >= lc.maxUsed {
			tmp.usedCount = 0
		}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](2, 3)
	c.Set(ctx, "a", 1, time.Hour)
	c.Get(ctx, "a")
	c.Set(ctx, "a", 2, time.Hour)
	for i := 0; i < 3; i++ {
		if v, ok, _ := c.Get(ctx, "a"); !ok || v != 2 {
			t.Fatal("use", i, v, ok)
		}
	}
	if _, ok, _ := c.Get(ctx, "a"); ok {
		t.Fatal("one use too many")
	}
}
''', needs="a use limit of at least 2 and a Set of a partly used key", breaks="the new value is returned fewer times than allowed"),
dict(id="c07-mset-lock", prop="C07", pkg=C,
 edits=[(C+"/lrucache.go", '''	lc.mux.Lock()
	defer lc.mux.Unlock()
	for key, val := range kvs {
		lc.doSet(key, val, ttl)
	}
''', '''	for key, val := range kvs {
		lc.mux.Lock()
		lc.doSet(key, val, ttl)
		lc.mux.Unlock()
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](10, 0)
	stop := make(chan bool)
	keys := []string{"a", "b", "c", "d", "e", "f"}
	set := func(i int) {
		kvs := map[string]int{}
		for _, k := range keys {
			kvs[k] = i
		}
		c.MSet(ctx, kvs, time.Hour)
	}
	set(0)
	go func() {
		for i := 1; ; i++ {
			select {
			case <-stop:
				return
			default:
				set(i)
			}
		}
	}()
	defer close(stop)
	for i := 0; i < 300000; i++ {
		vs, _, _ := c.MGet(ctx, keys...)
		for _, v := range vs {
			if v != vs[0] {
				t.Fatal("MGet saw half an MSet", vs)
			}
		}
	}
}
''', needs="an MGet between two keys of an MSet", breaks="MSet is not atomic"),
dict(id="c07-get-unlocked", prop="C07", pkg=C, race=True,
 edits=[(C+"/lrucache.go", '''	lc.mux.Lock()
	defer lc.mux.Unlock()

	val, ok := lc.getOne(key)
	return val, ok, nil
''', '''	lc.mux.Lock()
	val, ok := lc.getOne(key)
	item := lc.lruMap[key]
	lc.mux.Unlock()
	if ok {
		val = item.val
	}
	return val, ok, nil
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, [4]int](10, 0)
	c.Set(ctx, "a", [4]int{}, time.Hour)
	done := make(chan bool)
	go func() {
		for i := 0; i < 20000; i++ {
			c.Set(ctx, "a", [4]int{i, i, i, i}, time.Hour)
		}
		close(done)
	}()
	for i := 0; i < 20000; i++ {
		v, ok, _ := c.Get(ctx, "a")
		if !ok || v != [4]int{v[0], v[0], v[0], v[0]} {
			t.Fatal(v, ok)
		}
	}
	<-done
}
''', needs="a Set of the key between Get's unlocking and its read of the value", breaks="data race, torn values"),
dict(id="c08-no-trunc", prop="C08", pkg=C,
 edits=[(C+"/file.go", '''	return os.WriteFile(fp, content, 0666)
''', '''	file, err := os.OpenFile(fp, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	if _, err = file.Write(content); err != nil {
		_ = file.Close()
		return err
	}
	return file.Close()
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[string, string]{Dir: t.TempDir()}
	f.Set(ctx, "a", "a rather long value", time.Hour)
	f.Set(ctx, "a", "short", time.Hour)
	if v, ok, err := f.Get(ctx, "a"); v != "short" || !ok || err != nil {
		t.Fatal(v, ok, err)
	}
}
''', needs="a key overwritten by a shorter value", breaks="the entry is unreadable"),
dict(id="c08-alive-seconds", prop="C08", pkg=C,
 edits=[(C+"/file.go", '''	return fi.Exp > time.Now().UnixNano()
''', '''	return fi.Exp/int64(time.Second) >= time.Now().Unix()
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[string, string]{Dir: t.TempDir()}
	for i := 0; i < 4; i++ {
		f.Set(ctx, "a", "v", 50*time.Millisecond)
		time.Sleep(70 * time.Millisecond)
		if v, ok, err := f.Get(ctx, "a"); ok {
			t.Fatal("expired entry returned", v, ok, err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}
''', needs="a read within the second in which the entry expired", breaks="expired entries are returned for up to a second"),
dict(id="c08-delete-stops", prop="C08", pkg=C,
 edits=[(C+"/file.go", '''		if err == nil || os.IsNotExist(err) {
			continue
		}
		errs = append(errs, err)
''', '''		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			errs = append(errs, err)
		}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[string, string]{Dir: t.TempDir()}
	f.Set(ctx, "a", "v", time.Hour)
	if err := f.Delete(ctx, "missing", "a"); err != nil {
		t.Fatal(err)
	}
	if v, ok, err := f.Get(ctx, "a"); ok {
		t.Fatal("deleted entry returned", v, ok, err)
	}
}
''', needs="a Delete whose keys include an absent one before a present one", breaks="later keys are not deleted"),
dict(id="c09-delete-stat", prop="C09", pkg=C,
 edits=[(C+"/file.go", '''		fp := f.getFilePath(k)
		f.mu.Lock()
		err := os.Remove(fp)
		f.mu.Unlock()
		if err == nil || os.IsNotExist(err) {
			continue
		}
''', '''		fp := f.getFilePath(k)
		if _, err := os.Stat(fp); os.IsNotExist(err) {
			continue
		}
		f.mu.Lock()
		err := os.Remove(fp)
		f.mu.Unlock()
		if err == nil {
			continue
		}
''')],
 demo='''
package cachex

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[int, string]{Dir: t.TempDir()}
	for i := 0; i < 3000; i++ {
		f.Set(ctx, i%8, "v", time.Hour)
		var wg sync.WaitGroup
		errs := make([]error, 6)
		for g := range errs {
			wg.Add(1)
			go func() { defer wg.Done(); errs[g] = f.Delete(ctx, i%8) }()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatal(i, err)
			}
		}
	}
}
''', needs="two Deletes of one key, both finding it present", breaks="one of the Deletes reports an error"),
dict(id="c09-scan-unlocked", prop="C09", pkg=C,
 edits=[(C+"/file.go", '''		_, _, _ = f.readFile(path)
''', '''		if _, _, dead, _ := f.tryReadFile(path); dead {
			_ = os.Remove(path)
		}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[int, string]{Dir: t.TempDir()}
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				f.scanExpire()
			}
		}
	}()
	defer func() { close(stop); <-done }()
	big := string(make([]byte, 100000))
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		for k := 0; k < 4; k++ {
			f.Set(ctx, k, big, -1)
		}
		for k := 0; k < 4; k++ {
			f.Set(ctx, k, "fresh", time.Hour)
			time.Sleep(100 * time.Microsecond)
			if v, ok, err := f.Get(ctx, k); !ok || v != "fresh" || err != nil {
				t.Fatal("fresh entry gone", k, ok, err)
			}
		}
	}
}
''', needs="a Set between the clean-up's read of an expired file and its removal of it", breaks="a fresh entry disappears"),
dict(id="c10-fill-ttl", prop="C10", pkg=C,
 edits=[(C+"/cache.go", '''	for _, item := range caches {
		_ = item.Cache.Set(ctx, key, value, item.TTL)
	}
''', '''	ttl := caches[0].TTL
	for _, item := range caches {
		_ = item.Cache.Set(ctx, key, value, ttl)
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

type ttlCache struct {
	NoCache[string, int]
	ttl time.Duration
}

func (c *ttlCache) Set(_ context.Context, _ string, _ int, ttl time.Duration) error {
	c.ttl = ttl
	return nil
}

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	a, b, last := &ttlCache{}, &ttlCache{}, NewLRUCacheV2[string, int](4, 0)
	last.Set(ctx, "k", 1, time.Hour)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: a, TTL: 1}, {Cache: b, TTL: 2}, {Cache: last, TTL: 3}}}
	if v, ok, err := c.Get(ctx, "k"); v != 1 || !ok || err != nil {
		t.Fatal(v, ok, err)
	}
	if a.ttl != 1 || b.ttl != 2 {
		t.Fatal(a.ttl, b.ttl)
	}
}
''', needs="a hit in the third level or later", breaks="the second level is filled with the first level's ttl"),
dict(id="c10-notfound-short", prop="C10", pkg=C,
 edits=[(C+"/cache.go", '''		if len(status) <= idx || !status[idx] {
''', '''		if idx < len(status) && !status[idx] {
''')],
 demo='''
package cachex

import (
	"context"
	"errors"
	"testing"
	"time"
)

type failing struct{ NoCache[string, int] }

func (failing) MGet(context.Context, ...string) ([]int, []bool, error) {
	return nil, nil, errors.New("down")
}

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	last := NewLRUCacheV2[string, int](4, 0)
	last.Set(ctx, "k", 1, time.Hour)
	c := &Chain[string, int]{ContinueOnReadErr: true, Caches: []*ChainItem[string, int]{{Cache: &failing{}, TTL: 1}, {Cache: last, TTL: 3}}}
	if v, ok, err := c.MGet(ctx, "k"); len(v) != 1 || v[0] != 1 || !ok[0] || err != nil {
		t.Fatal(v, ok, err)
	}
}
''', needs="reading on after errors and a level whose MGet fails without a status list", breaks="the remaining levels are not used"),
dict(id="c10-delete-first", prop="C10", pkg=C,
 edits=[(C+"/cache.go", '''		err := item.Cache.Delete(ctx, keys...)
		if err != nil {
			errs = append(errs, err)
		}
''', '''		err := item.Cache.Delete(ctx, keys...)
		if err != nil {
			errs = append(errs, err)
			break
		}
''')],
 demo='''
package cachex

import (
	"context"
	"errors"
	"testing"
	"time"
)

type noDelete struct{ NoCache[string, int] }

func (noDelete) Delete(context.Context, ...string) error { return errors.New("down") }

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	last := NewLRUCacheV2[string, int](4, 0)
	last.Set(ctx, "k", 1, time.Hour)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: &noDelete{}, TTL: 1}, {Cache: last, TTL: 3}}}
	if err := c.Delete(ctx, "k"); err == nil {
		t.Fatal("no error")
	}
	if _, ok, _ := last.Get(ctx, "k"); ok {
		t.Fatal("the second level was not reached")
	}
}
''', needs="a level that fails to delete before other levels", breaks="later levels keep the deleted key"),
dict(id="c11-hitkeys-map", prop="C11", pkg=C,
 edits=[(C+"/cache.go", '''	result := make([]K, 0, len(mr.keys))
	mr.RangeHit(func(key K, _ V) bool {
		result = append(result, key)
		return true
	})
	return result
''', '''	result := make([]K, 0, len(mr.keys))
	seen := make(map[K]bool, len(mr.keys))
	mr.RangeHit(func(key K, _ V) bool {
		if !seen[key] {
			seen[key] = true
			result = append(result, key)
		}
		return true
	})
	return result
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](4, 0)
	c.Set(ctx, "k", 1, time.Hour)
	r, err := MGet[string, int](ctx, c, "k", "x", "k")
	hit, miss := r.HitMissKeys()
	if err != nil || len(r.HitKeys()) != 2 || len(hit) != 2 || len(miss) != 1 {
		t.Fatal(r.HitKeys(), hit, miss, err)
	}
}
''', needs="a key requested twice and hit", breaks="the hit keys no longer list each requested key"),
dict(id="c11-rangemiss-stop", prop="C11", pkg=C,
 edits=[(C+"/cache.go", '''		if mr.hits[idx] {
			continue
		}
		if !fn(mr.keys[idx]) {
			return
		}
''', '''		if mr.hits[idx] || !fn(mr.keys[idx]) {
			continue
		}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	r, err := MGet[string, int](context.Background(), &NoCache[string, int]{}, "a", "b")
	n := 0
	r.RangeMiss(func(string) bool { n++; return false })
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}
}
''', needs="a callback that returns false with more misses to come", breaks="RangeMiss goes on"),
dict(id="c12-append-share", prop="C12", pkg=B,
 edits=[(B+"/bitset.go", '''		newSet := make([]byte, gi+1)
		copy(newSet, b.set)
		b.set = newSet
''', '''		b.set = append(b.set, make([]byte, gi+1-len(b.set))...)
''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	buf := make([]byte, 4)
	a, b := New(buf[0:1]...), New(buf[1:2]...)
	b.Set(3, true)
	a.Set(12, true)
	if got := b.String(); got != "10" {
		t.Fatal("another set's bits changed", got)
	}
}
''', needs="two sets made from neighbouring parts of one array", breaks="growing one set overwrites the other"),
dict(id="c12-and-minlen", prop="C12", pkg=B,
 edits=[(B+"/bitset.go", '''		} else if currLen < minLen {
			minLen = currLen
		}
''', '''		} else if currLen < maxLen {
			minLen = currLen
		}
''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	got := New(255, 255, 255).And(New(255), New(255, 255)).String()
	if got != "ff0000" {
		t.Fatal(got)
	}
}
''', needs="And of at least three sets, with a shorter one before a longer one that is not the longest", breaks="panics with index out of range"),
dict(id="c12-binary-trim", prop="C12", pkg=B,
 edits=[(B+"/bitset.go", '''bytes.TrimPrefix(buf.Bytes(), unsafex.StringToSlice(sep))''', '''bytes.TrimLeft(buf.Bytes(), sep)''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	if got := New(3, 1).Binary("0"); got != "00000011000000001" {
		t.Fatal(got)
	}
}
''', needs="a separator containing the digit 0 or 1", breaks="leading bits are cut off"),
dict(id="c13-bytes-unlock", prop="C13", pkg=B,
 edits=[(B+"/bitset.go", '''	b.mu.RLock()
	set := make([]byte, len(b.set))
	copy(set, b.set)
	b.mu.RUnlock()
	return set
''', '''	b.mu.RLock()
	src := b.set
	b.mu.RUnlock()
	set := make([]byte, len(src))
	copy(set, src)
	return set
''')], race=True,
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	b := New(make([]byte, 64)...)
	done := make(chan bool)
	go func() {
		for i := 0; i < 100000; i++ {
			b.Set(i%512, i%3 == 0)
		}
		close(done)
	}()
	for i := 0; i < 1000; i++ {
		b.Bytes()
	}
	<-done
}
''', needs="a Set between Bytes' unlocking and its copying", breaks="data race, a state the set never had"),
dict(id="c13-set-check", prop="C13", pkg=B,
 edits=[(B+"/bitset.go", '''func (b *BitSet) Set(offset int, value bool) (bool, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
''', '''func (b *BitSet) Set(offset int, value bool) (bool, error) {
	if size := b.Size(); offset < 0 && offset+size >= 0 {
		offset += size
	}
	b.mu.Lock()
	defer b.mu.Unlock()
''')],
 demo='''
package bitset

import "testing"

// Set(-1) sets the last bit of the set as it is at one moment: when it grows by a
// byte at the same time, the returned old bit and the result must fit one order.
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		b := New(0)
		start, done := make(chan bool), make(chan bool)
		go func() {
			<-start
			b.Set(15, true) // grows, the last bit is then 1
			b.Set(7, true)
			close(done)
		}()
		close(start)
		for j := 0; j < i%20; j++ {
		}
		old, _ := b.Set(-1, false)
		<-done
		// order 1: before all: old=false, then 15 and 7 set: 0101
		// order 2: after the growth: old=true, bit 15 cleared, 7 set: 0100
		got := b.String()
		if !(got == "0101" && !old || got == "0100" && old) {
			t.Fatal(i, old, got)
		}
	}
}
''', needs="the set grown by another goroutine between the computation of a negative offset and the locking", breaks="Set(-1) hits a bit that is not the last one"),
]
