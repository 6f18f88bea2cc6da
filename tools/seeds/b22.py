# Identity instead of equality, state of one object kept for another, thresholds, errors that stick or get lost.
SEEDS = [
dict(id="c10-sticky-error", prop="C10", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''		err = err1
		if err1 != nil && !c.ContinueOnReadErr {
			return nil, nil, err1
		}
''', '''		if err1 != nil {
			if !c.ContinueOnReadErr {
				return nil, nil, err1
			}
			err = err1
		}
''')],
 demo='''
package cachex

import (
	"context"
	"errors"
	"testing"
	"time"
)

type failing struct{ NoCache[string, int] }

func (failing) MGet(context.Context, ...string) ([]int, []bool, error) {
	return nil, nil, errors.New("down")
}

func TestSeededDemo(t *testing.T) {
	lru := NewLRUCacheV2[string, int](2, 0)
	_ = lru.Set(context.Background(), "a", 1, time.Hour)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: failing{}}, {Cache: lru}}, ContinueOnReadErr: true}
	v, ok, err := c.MGet(context.Background(), "a")
	if err != nil || !ok[0] || v[0] != 1 {
		t.Fatal(v, ok, err)
	}
}
''', needs="a failing level before one which answers, reading on after errors enabled", breaks="the error of the failed level is returned though the others answered"),

dict(id="c10-skip-failed", prop="C10", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''	for idx, item := range c.Caches {
		value, has, err = item.Cache.Get(ctx, key)
		if has {
			// Set the content queried from the next-level cache to the upper-level cache
			c.setForGet(ctx, c.Caches[:idx], key, value)
			return value, true, nil
		}
		if err != nil && !c.ContinueOnReadErr {
			break
		}
''', '''	missed := make([]*ChainItem[K, V], 0, len(c.Caches))
	for _, item := range c.Caches {
		value, has, err = item.Cache.Get(ctx, key)
		if has {
			// Set the content queried from the next-level cache to the upper-level cache
			c.setForGet(ctx, missed, key, value)
			return value, true, nil
		}
		if err == nil {
			missed = append(missed, item)
		} else if !c.ContinueOnReadErr {
			break
		}
''')],
 demo='''
package cachex

import (
	"context"
	"errors"
	"testing"
	"time"
)

type failing struct {
	NoCache[string, int]
	set int
}

func (*failing) Get(context.Context, string) (int, bool, error) {
	return 0, false, errors.New("bad entry")
}

func (f *failing) Set(context.Context, string, int, time.Duration) error {
	f.set++
	return nil
}

func TestSeededDemo(t *testing.T) {
	lru := NewLRUCacheV2[string, int](2, 0)
	_ = lru.Set(context.Background(), "a", 1, time.Hour)
	f := &failing{}
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: f}, {Cache: lru}}, ContinueOnReadErr: true}
	_, _, _ = c.Get(context.Background(), "a")
	if f.set != 1 {
		t.Fatal(f.set)
	}
}
''', needs="a level that fails to read before one which answers", breaks="the failed level is not filled"),

dict(id="c25-same-slice", prop="C25", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", '''	checksum := sha512.Sum512(b)
	return hex.EncodeToString(checksum[:])
}
''', '''	if len(b) < 4096 {
		checksum := sha512.Sum512(b)
		return hex.EncodeToString(checksum[:])
	}
	// the same file is often asked for again
	if last, ok := lastSha512.Load().(sum512); ok && last.start == &b[0] && last.len == len(b) {
		return last.sum
	}
	checksum := sha512.Sum512(b)
	last := sum512{&b[0], len(b), hex.EncodeToString(checksum[:])}
	lastSha512.Store(last)
	return last.sum
}

type sum512 struct {
	start *byte
	len   int
	sum   string
}

var lastSha512 atomic.Value
'''), ("library/cryptox/cryptox.go", '	"io"\n', '	"io"\n	"sync/atomic"\n')],
 demo='''
package cryptox

import (
	"crypto/sha512"
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := make([]byte, 5000)
	_ = Sha512(b)
	b[7] = 1
	if got, want := Sha512(b), fmt.Sprintf("%x", sha512.Sum512(b)); got != want {
		t.Fatal(got, want)
	}
}
''', needs="the same memory of at least 4096 bytes twice with different contents", breaks="the digest of the former contents is returned"),

dict(id="c23-block-identity", prop="C23", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", "	block := mustNewCipher(cipherKey)\n	blockSize := block.BlockSize()\n	plainText = pkcs5Padding(plainText, blockSize)\n	r :=", "	block := expanded(cipherKey)\n	blockSize := block.BlockSize()\n	plainText = pkcs5Padding(plainText, blockSize)\n	r :="),
 ("library/cryptox/cryptox.go", "func mustNewCipher(", '''// expanded returns the cipher for a key, which is often the one used last.
func expanded(cipherKey []byte) cipher.Block {
	if k, ok := lastKey.Load().(*expandedKey); ok && k.size == len(cipherKey) && k.size > 0 && k.key == &cipherKey[0] {
		return k.block
	}
	block := mustNewCipher(cipherKey)
	lastKey.Store(&expandedKey{&cipherKey[0], len(cipherKey), block})
	return block
}

// expandedKey is a key and what is computed from it.
type expandedKey struct {
	key   *byte
	size  int
	block cipher.Block
}

var lastKey atomic.Value

func mustNewCipher('''), ("library/cryptox/cryptox.go", '	"io"\n', '	"io"\n	"sync/atomic"\n')],
 demo='''
package cryptox

import "testing"

func TestSeededDemo(t *testing.T) {
	k := make([]byte, 16)
	_ = AESEncrypt(k, []byte("x"))
	k[0] = 1
	c := AESEncrypt(k, []byte("x"))
	if p, err := AESDecrypt(k, c); err != nil || string(p) != "x" {
		t.Fatal(p, err)
	}
}
''', needs="two keys one after the other in the same memory", breaks="the former key is used"),

dict(id="c08-path-cache", prop="C08", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	h := md5.New()
''', '''	type id struct {
		key K
		v   *V
	}
	if fp, ok := paths.Load(id{key: key}); ok {
		return fp.(string)
	}
	h := md5.New()
'''), ("library/cachex/file.go", '''	return fp + cacheFileExt
}
''', '''	fp += cacheFileExt
	if pathCount.Add(1) < 10000 {
		paths.Store(id{key: key}, fp)
	}
	return fp
}

// paths keeps the paths of the first keys, they are used most.
var (
	paths     sync.Map
	pathCount atomic.Int32
)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	a, b := &FileStore[string, int]{Dir: t.TempDir()}, &FileStore[string, int]{Dir: t.TempDir()}
	_ = a.Set(context.Background(), "k", 1, time.Hour)
	if v, ok, err := b.Get(context.Background(), "k"); ok || err != nil {
		t.Fatal(v, ok, err)
	}
}
''', needs="two directories", breaks="keys get the values they have in another directory"),

dict(id="c09-rmdir", prop="C09", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''		_, _, _ = f.readFile(path)
		return nil
''', '''		if _, ok, _ := f.readFile(path); !ok {
			// leave no empty directories behind
			for dir := filepath.Dir(path); dir != filepath.Clean(f.Dir); dir = filepath.Dir(dir) {
				if os.Remove(dir) != nil {
					break
				}
			}
		}
		return nil
'''), ("library/cachex/file.go", '''	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''', '''	if _, err = os.Stat(dir); os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, int]{Dir: t.TempDir(), GCCycle: 1}
	stop := time.Now().Add(20 * time.Second)
	for i := 0; time.Now().Before(stop); i++ {
		if err := f.Set(context.Background(), i%3, i, time.Duration(i%2)*time.Microsecond); err != nil {
			t.Fatal(err)
		}
	}
}
''', needs="clean-up removes a directory between the check of a Set and its write", breaks="Set fails"),

dict(id="c22-sorted-large", prop="C22", pkg="gogenerics/gcontainers/gslice",
 edits=[("gogenerics/gcontainers/gslice/slice.go", '''func IsSorted[T gconstraints.Ordered](x []T) bool {
	for i := len(x) - 1; i > 0; i-- {
''', '''func IsSorted[T gconstraints.Ordered](x []T) bool {
	// in pieces, to stay in the cache
	const piece = 8192
	for len(x) > piece {
		if !IsSorted(x[:piece]) {
			return false
		}
		x = x[piece:]
	}
	for i := len(x) - 1; i >= 1; i-- {
''')],
 demo='''
package gslice

import "testing"

func TestSeededDemo(t *testing.T) {
	x := make([]int, 10000)
	for i := range x {
		x[i] = i % 8192
	}
	if IsSorted(x) {
		t.Fatal("sorted")
	}
}
''', needs="more than 8192 elements, the only descent at a multiple of 8192", breaks="IsSorted reports true"),

dict(id="c20-move-short", prop="C20", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	switch {
	case n < 0:
		for ; n < 0; n++ {
			r = r.prev
		}
	case n > 0:
		for ; n > 0; n-- {
			r = r.next
		}
	}
	return r
''', '''	switch {
	case n < 0:
		for ; n < 0; n++ {
			r = r.prev
		}
	case n > 64:
		// not more than once around
		if l := r.Len(); n >= l {
			n %= l
			if n > l/2 {
				return r.Move(n - l + 1)
			}
		}
		for ; n > 0; n-- {
			r = r.next
		}
	default:
		for i := 0; i < n; i++ {
			r = r.next
		}
	}
	return r
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](10)
	p := r
	for i := 0; i < 108; i++ {
		p = p.Next()
	}
	if r.Move(108) != p {
		t.Fatal("wrong element")
	}
}
''', needs="a move by more than 64 and more than once around, ending in the second half", breaks="the element after the right one is returned"),

dict(id="c05-is", prop="C05", pkg="gogenerics/gconstraints",
 edits=[("gogenerics/gconstraints/errors.go", '''	if err != nil {
		ae.err''', '''	if cur := ae.Load(); err != nil && (cur == nil || !errors.Is(cur, err)) {
		ae.err'''), ("gogenerics/gconstraints/errors.go", 'import (\n', 'import (\n	"errors"\n')],
 demo='''
package gconstraints

import (
	"errors"
	"fmt"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var ae AtomicError
	e := errors.New("e")
	ae.Set(fmt.Errorf("wrapped: %w", e))
	ae.Set(e)
	if ae.Load() != e {
		t.Fatal(ae.Load())
	}
}
''', needs="an error set after one that wraps it", breaks="the later error is lost"),

dict(id="c29-title", prop="C29", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", "			runes[k] = unicode.ToUpper(v)\n", "			runes[k] = unicode.ToTitle(v)\n")],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := LintCamelString("\\u01c6a"); s != "\\u01c4a" {
		t.Fatal(s)
	}
}
''', needs="one of the few letters with a title form of its own", breaks="the first letter is not upper-case"),

dict(id="c29-snake-ascii", prop="C29", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", '''				data = append(data, '_')
				j = false
			}
''', '''				data = append(data, '_')
				j = false
			}
			d += 'a' - 'A'
'''), ("library/stringx/stringx.go", "	return strings.ToLower(unsafex.SliceToString(data))\n", "	return unsafex.SliceToString(data)\n")],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := SnakeString("xÄy"); s != "xäy" {
		t.Fatal(s)
	}
}
''', needs="upper-case letters outside ASCII", breaks="they are not lower-cased"),

dict(id="c27-plus", prop="C27", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", '''		for n := 4; n > 0; n-- {
			if n > len(s) {
				continue
			}
			if x, err := strconv.ParseUint(s[:n], base, 31); err == nil {
''', '''		for n := 4; n > 0; n-- {
			if n > len(s) {
				continue
			}
			if x, err := strconv.ParseInt(s[:n], base, 32); err == nil && x >= 0 {
'''), ("library/stringx/stringx.go", "func CodePointToUTF8(str string, base int) string {", "func CodePointToUTF8(text string, base int) string {"),
 ("library/stringx/stringx.go", "strings.Split(str, `\\u`)", "strings.Split(text, `\\u`)")],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := CodePointToUTF8(`a\\u+41`, 16); s != `a\\u+41` {
		t.Fatal(s)
	}
}
''', needs="a plus sign in front of digits", breaks="what is no code is replaced"),

dict(id="c35-lru-last", prop="C35", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	tmp, ok := lc.lruMap[key]
	if !ok {
''', '''	tmp, ok := lc.lruMap[key]
	if ok {
		lc.last = tmp
	}
	if !ok {
'''), ("library/cachex/lrucache.go", '''	if tmp, ok := lc.lruMap[key]; ok {
		tmp.val = value
''', '''	if tmp, ok := lc.lruMap[key]; ok {
		if tmp == lc.last && tmp.usedCount == 0 {
			// written twice without a read
			lc.last = nil
		}
		tmp.val = value
'''), ("library/cachex/lrucache.go", "	lruList *list.List\n", "	lruList *list.List\n	last    *item2[V] // read last\n"),
 ("library/cachex/lrucache.go", "			delete(lc.lruMap, key)\n			lc.lruList.Remove(v.el)\n", "			delete(lc.lruMap, key)\n			_ = lc.lruList.Remove(v.el)\n")],
 demo='''
package cachex

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	c := NewLRUCacheV2[int, *[1000]int](4, 0)
	gone := make(chan int, 1)
	func() {
		v := new([1000]int)
		runtime.SetFinalizer(v, func(*[1000]int) { gone <- 1 })
		_ = c.Set(context.Background(), 1, v, time.Hour)
		_, _, _ = c.Get(context.Background(), 1)
		_ = c.Delete(context.Background(), 1)
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			_, _, _ = c.Get(context.Background(), 2)
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	_, _, _ = c.Get(context.Background(), 2)
	t.Fatal("kept")
}
''', needs="an entry that is read and then deleted", breaks="its value stays alive until another entry is read"),

dict(id="c37-miss-square", prop="C37", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", "	if m.misses < len(m.dirty) {", "	if m.misses < len(m.dirty)*(1+len(m.dirty)/256) {")],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[int, int]
	for i := 0; i < 2048; i++ {
		m.Store(i, i)
	}
	for i := 0; i < 4096; i++ {
		_, _ = m.Load(-1)
	}
	if m.dirty != nil {
		t.Fatal("still on the slow path")
	}
}
''', needs="a map with many new keys", breaks="loads take the slow path quadratically often"),

dict(id="c03-cap-workers", prop="C03", pkg="gogenerics/gconcurrent/mr",
 edits=[("gogenerics/gconcurrent/mr/mr.go", '''		if workers < minWorkers {
			opts.workers = minWorkers
		} else {
''', '''		if workers < minWorkers {
			opts.workers = minWorkers
		} else if workers > maxWorkers {
			opts.workers = maxWorkers
		} else {
'''), ("gogenerics/gconcurrent/mr/mr.go", "	pool := make(chan struct{}, mCtx.workers)\n", "	pool := make(chan struct{}, mCtx.workers) // at most maxWorkers\n"),
 ("gogenerics/gconcurrent/mr/mr.go", "func buildOptions(", "const maxWorkers = 256\n\nfunc buildOptions(")],
 demo='''
package mr

import (
	"sync"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	const n = 400
	var wg sync.WaitGroup
	wg.Add(n)
	fns := make([]func(), n)
	for i := range fns {
		fns[i] = func() { wg.Done(); wg.Wait() }
	}
	done := make(chan int)
	go func() { FinishVoid(fns...); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("stuck")
	}
}
''', needs="more than 256 functions that wait for each other", breaks="not all of them run at once"),

dict(id="c04-two-once", prop="C04", pkg="gogenerics/gconcurrent/mr",
 edits=[("gogenerics/gconcurrent/mr/mr.go", '''	cancel := once(func(err error) {
''', '''	stop := func(err error) {
'''), ("gogenerics/gconcurrent/mr/mr.go", '''		drain(source)
		finish()
	})

	go func() {
''', '''		drain(source)
		finish()
	}
	// the reducer and the mappers may cancel, each once
	cancel, cancelMap := once(stop), once(stop)

	go func() {
'''), ("gogenerics/gconcurrent/mr/mr.go", "			mapper(item, w, cancel)\n", "			mapper(item, w, cancelMap)\n")],
 demo='''
package mr

import (
	"errors"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	first, second := errors.New("first"), errors.New("second")
	_, err := MapReduce(func(source chan<- int) {
		source <- 1
		time.Sleep(200 * time.Millisecond)
	}, func(item int, w Writer[int], cancel func(error)) {
		cancel(first)
	}, func(pipe <-chan int, w Writer[int], cancel func(error)) {
		time.Sleep(100 * time.Millisecond)
		cancel(second)
	})
	if err != first {
		t.Fatal(err)
	}
}
''', needs="a mapper and the reducer both cancel", breaks="the error of the second is returned"),

dict(id="c14-level-top", prop="C14", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", "	level := maxLevel - 1\n	// First", "	level := maxLevel\n	// First")],
 demo='''
package gskiplist

import (
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"
)

func TestSeededDemo(t *testing.T) {
	old := fastrand.Uint64
	defer func() { fastrand.Uint64 = old }()
	fastrand.Uint64 = func() uint64 { return 0 }
	l := New[int, int]()
	for i := 0; i < 100; i++ {
		l.Insert(i, i)
	}
}
''', needs="the random source draws 24 zero bits at a full height", breaks="Insert panics"),
]
