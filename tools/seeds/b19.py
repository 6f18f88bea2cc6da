# Shortcuts that confuse equality with identity, and others that depend on the types used.
SEEDS = [
dict(id="c22-same-slice", prop="C22", pkg="gogenerics/gcontainers/gslice",
 edits=[("gogenerics/gcontainers/gslice/slice.go", '''	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
''', '''	if len(a) != len(b) {
		return false
	}

	// the same slice needs no look at its elements
	same := len(a) > 0 && &a[0] == &b[0]
	for i := range a {
		if !same && a[i] != b[i] {
''')],
 demo='''
package gslice

import (
	"math"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s := []float64{1, math.NaN()}
	if Equal(s, s) {
		t.Fatal("a slice with a NaN equals itself")
	}
}
''', needs="comparing a slice that holds a NaN with itself", breaks="Equal reports true although an element differs from itself"),

dict(id="c21-same-map", prop="C21", pkg="gogenerics/gcontainers/gmap",
 edits=[("gogenerics/gcontainers/gmap/map.go", '''func Equal[K, V comparable](m1, m2 map[K]V) bool {
	if Len(m1) != Len(m2) {
		return false
	}
''', '''func Equal[K, V comparable](m1, m2 map[K]V) bool {
	if len(m1) != len(m2) {
		return false
	}
	// one map under two names
	if reflect.ValueOf(m1).Pointer() == reflect.ValueOf(m2).Pointer() {
		return true
	}
'''), ("gogenerics/gcontainers/gmap/map.go", '''import "github.com/miniLCT/gosb/gogenerics/gconstraints"
''', '''import (
	"reflect"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
)
''')],
 demo='''
package gmap

import (
	"math"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m := map[string]float64{"a": math.NaN()}
	if Equal(m, m) {
		t.Fatal("a map with a NaN value equals itself")
	}
}
''', needs="comparing a map that holds a NaN with itself", breaks="Equal reports true although a value differs from itself"),

dict(id="c10-has-zero", prop="C10", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''	for idx, item := range c.Caches {
		value, has, err = item.Cache.Get(ctx, key)
		if has {
''', '''	for idx, item := range c.Caches {
		value, has, err = c.Caches[idx].Cache.Get(ctx, key)
		// an empty placeholder in front of a level that knows more
		if v := reflect.ValueOf(&value).Elem(); has && v.Kind() == reflect.Pointer && v.IsNil() && item != c.Caches[len(c.Caches)-1] {
			continue
		}
		if has {
'''), ("library/cachex/cache.go", '''	"errors"
	"time"
''', '''	"errors"
	"reflect"
	"time"
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	a, b := NewLRUCacheV2[string, *int](4, 0), NewLRUCacheV2[string, *int](4, 0)
	c := &Chain[string, *int]{Caches: []*ChainItem[string, *int]{{Cache: a, TTL: time.Hour}, {Cache: b, TTL: time.Hour}}}
	ctx := context.Background()
	one := 1
	_ = a.Set(ctx, "k", nil, time.Hour)
	_ = b.Set(ctx, "k", &one, time.Hour)
	if v, ok, err := c.Get(ctx, "k"); v != nil || !ok || err != nil {
		t.Fatal("the value of the first level that has the key is not returned")
	}
}
''', needs="pointer values and a level that holds a nil pointer", breaks="a stored nil is taken for a miss"),

dict(id="c06-mget-dup", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	for idx, key := range keys {
		val, ok := lc.getOne(key)
		values[idx] = val
		oks[idx] = ok
	}
''', '''	at := make(map[K]int, len(keys))
	for idx, key := range keys {
		// a key asked for again has its answer already
		if i, seen := at[key]; seen {
			values[idx], oks[idx] = values[i], oks[i]
			continue
		}
		at[key] = idx
		values[idx], oks[idx] = lc.getOne(key)
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	lc := NewLRUCacheV2[int, int](4, 1)
	ctx := context.Background()
	_ = lc.Set(ctx, 1, 1, time.Hour)
	if _, oks, _ := lc.MGet(ctx, 1, 1); !oks[0] || oks[1] {
		t.Fatalf("MGet(1, 1) with one allowed use: %v, want a hit and a miss", oks)
	}
}
''', needs="an MGet that repeats a key, and a use limit or a particular recency order", breaks="the repeated key is not counted as used again"),

dict(id="c01-swap-same", prop="C01", pkg="gogenerics/gconcurrent/sync",
 edits=[("gogenerics/gconcurrent/sync/map.go", '''	_, _ = m.Swap(key, value)
''', '''	// most stores repeat what is there
	if v, ok := m.Load(key); ok && any(v) == any(value) {
		return
	}
	m.Swap(key, value)
''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[string, any]
	m.Store("a", []int{1})
	m.Store("a", []int{1})
	if v, ok := m.Load("a"); !ok || len(v.([]int)) != 1 {
		t.Fatal("no value")
	}
}
''', needs="storing a value of a type that cannot be compared over another of that type", breaks="Store panics"),

dict(id="c41-ring-len", prop="C41", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	n := 0
	if r != nil {
		n = 1
		for p := r.Next(); p != r; p = p.next {
			n++
		}
	}
	return n
''', '''	if r == nil {
		return 0
	}
	// usually the ring is as long as before: try the last length first
	n := 1
	p := r.Next()
	for ; p != r; p = p.next {
		n++
	}
	r.size = n
	return n
'''), ("gogenerics/gcontainers/gring/ring.go", '''	Value      V // for use by client; untouched by this library
''', '''	Value      V // for use by client; untouched by this library
	size       int
''')],
 demo='''
package gring

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	r := New[int](10)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				r.Len()
			}
		}()
	}
	wg.Wait()
}
''', race=True, needs="two concurrent Len calls on one element", breaks="Len writes to the ring"),

dict(id="c42-error-chain", prop="C42", pkg="gogenerics/gconstraints",
 edits=[("gogenerics/gconstraints/errors.go", '''	if err != nil {
		ae.err.Store(errorBox{err})
	}
''', '''	if err == nil {
		return
	}
	// keep what led here, for a look with a debugger
	old, _ := ae.err.Load().(errorBox)
	ae.err.Store(errorBox{err, &old})
'''), ("gogenerics/gconstraints/errors.go", '''type errorBox struct {
	err error
''', '''type errorBox struct {
	err  error
	last *errorBox
'''), ("gogenerics/gconstraints/errors.go", '''func (ae *AtomicError) Set(err error) {
''', '''func (ae *AtomicError) Set(err error) { // nil changes nothing
''')],
 demo='''
package gconstraints

import (
	"errors"
	"runtime"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var ae AtomicError
	live := func() uint64 {
		runtime.GC()
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	before := live()
	for i := 0; i < 200000; i++ {
		ae.Set(errors.New("x"))
	}
	if after := live(); after > before+2000000 {
		t.Fatalf("%d bytes after 200000 errors", after-before)
	}
	runtime.KeepAlive(&ae)
}
''', needs="very many Set calls on one register", breaks="every error ever set stays reachable"),

dict(id="c39-pool-lock", prop="C39", pkg="gogenerics/gcontainers/gpool",
 edits=[("gogenerics/gcontainers/gpool/syncpool.go", '''		pool: sync.Pool{New: func() any { return fn() }},
	}
''', '''		pool: sync.Pool{New: func() any { return serialize(fn) }},
	}
'''), ("gogenerics/gcontainers/gpool/syncpool.go", '''// New creates a new Pool with''', '''// making is held while an object is made: constructors need not be safe for
// concurrent use.
var making sync.Mutex

func serialize[T any](fn func() T) T {
	making.Lock()
	x := fn()
	making.Unlock()
	return x
}

// New creates a new Pool with''')],
 demo='''
package gpool

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	first := true
	p := New(func() int {
		if first {
			first = false
			panic("no")
		}
		return 1
	})
	func() {
		defer func() { _ = recover() }()
		p.Get()
	}()
	done := make(chan bool)
	go func() { p.Get(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Get blocks after a constructor panicked")
	}
}
''', needs="a constructor that panics once", breaks="a lock stays held and every later Get of every pool blocks"),

dict(id="c13-sub-relock", prop="C13", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''func (b *BitSet) Sub(start, end int) *BitSet {
	b.mu.RLock()
	defer b.mu.RUnlock()
	newBitSet := &BitSet{
		set: make([]byte, 0, len(b.set)),
	}
	sgi, sbi, egi, ebi, valid := b.validRange(start, end)
''', '''func (b *BitSet) Sub(start, end int) *BitSet {
	b.mu.RLock()
	sgi, sbi, egi, ebi, valid := b.validRange(start, end)
	b.mu.RUnlock()
	// allocate without holding up writers
	newBitSet := &BitSet{
		set: make([]byte, 0, egi-sgi+1),
	}
	b.mu.RLock()
	defer b.mu.RUnlock()
''')],
 demo='''
package bitset

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	// the last 8 bits are 1 at every moment: each new last byte is complete
	// before Sub can see it only if Sub is atomic
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		b := New(0xff)
		var stop int32
		done := make(chan bool)
		go func() {
			defer close(done)
			for i := 1; i < 400 && atomic.LoadInt32(&stop) == 0; i++ {
				// one call adds a byte with a single bit
				_, _ = b.Set(i*8+7, true)
				_, _ = b.Set((i-1)*8, false)
			}
		}()
		bad := 0
		for i := 0; i < 400; i++ {
			// bit -1 is 1 at every moment, bit -8 of a one byte set never matters
			if s := b.Sub(-1, -1); s.Count(0, 0) != 1 {
				bad++
			}
			// from the first byte to the end: as long as the set
			n := b.Size()
			if s := b.Sub(0, -1); s.Size() < n {
				bad++
			}
			if s := b.Sub(-1, -1); s.Size() != 8 {
				bad++
			}
		}
		atomic.StoreInt32(&stop, 1)
		<-done
		if bad > 0 {
			t.Fatal("Sub mixed two states")
		}
		b2 := New(1)
		quit := make(chan bool)
		gone := make(chan bool)
		go func() {
			defer close(gone)
			for i := 2; ; i++ {
				select {
				case <-quit:
					return
				default:
				}
				// the last bit is always 1, the one that was last becomes 0
				_, _ = b2.Set(i*8-1, true)
				_, _ = b2.Set((i-1)*8-1, false)
				if i > 3000 {
					return
				}
			}
		}()
		for i := 0; i < 2000; i++ {
			if !b2.Sub(-1, -1).Get(0) {
				bad++
			}
		}
		close(quit)
		<-gone
		if bad > 0 {
			t.Fatalf("the last bit is always 1, but Sub(-1, -1) returned 0 %d times", bad)
		}
	}
}
''', needs="a Set growing the set between the two locks of a Sub with a negative bound",
 breaks="Sub copies the bits at places computed for an older state"),

dict(id="c07-delete-split", prop="C07", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''func (lc *LRUCacheV2[K, V]) Delete(_ context.Context, keys ...K) error {
	lc.mux.Lock()
	defer lc.mux.Unlock()

	for _, key := range keys {
		if v, ok := lc.lruMap[key]; ok {
			delete(lc.lruMap, key)
			lc.lruList.Remove(v.el)
		}
	}
	return nil
}
''', '''func (lc *LRUCacheV2[K, V]) Delete(_ context.Context, keys ...K) error {
	for _, key := range keys {
		lc.deleteOne(key)
	}
	return nil
}

func (lc *LRUCacheV2[K, V]) deleteOne(key K) {
	lc.mux.Lock()
	defer lc.mux.Unlock()

	if v, ok := lc.lruMap[key]; ok {
		delete(lc.lruMap, key)
		lc.lruList.Remove(v.el)
	}
}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	keys := make([]int, 200)
	kvs := map[int]int{}
	for i := range keys {
		keys[i] = i
		kvs[i] = i
	}
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		lc := NewLRUCacheV2[int, int](400, 0)
		_ = lc.MSet(ctx, kvs, time.Hour)
		done := make(chan bool)
		go func() {
			_ = lc.Delete(ctx, keys...)
			close(done)
		}()
		for more := true; more; {
			select {
			case <-done:
				more = false
			default:
			}
			_, oks, _ := lc.MGet(ctx, keys...)
			n := 0
			for _, ok := range oks {
				if ok {
					n++
				}
			}
			if n != 0 && n != len(keys) {
				t.Fatalf("MGet saw %d of %d keys during one Delete of all", n, len(keys))
			}
		}
	}
}
''', needs="an MGet between the single removals of a Delete of several keys", breaks="a batch Delete is seen half done"),

dict(id="c23-last-key", prop="C23", pkg="library/cryptox",
 edits=[("library/cryptox/cryptox.go", '''	block := mustNewCipher(cipherKey)
	blockSize := block.BlockSize()
	plainText = pkcs5Padding(plainText, blockSize)
	r := make''', '''	block := schedule(cipherKey)
	blockSize := block.BlockSize()
	plainText = pkcs5Padding(plainText, blockSize)
	r := make'''), ("library/cryptox/cryptox.go", '''// AESDecrypt hex decodes''', '''// lastBlock is the key schedule made last, with what tells its key.
var lastBlock atomic.Pointer[struct {
	id    uint64
	block cipher.Block
}]

// schedule returns the key schedule of key; it is rarely another one than the last.
func schedule(key []byte) cipher.Block {
	id := uint64(len(key))
	for i, b := range key {
		id += uint64(b) << (uint(i) % 7 * 8)
	}
	if l := lastBlock.Load(); l != nil && l.id == id {
		return l.block
	}
	block := mustNewCipher(key)
	lastBlock.Store(&struct {
		id    uint64
		block cipher.Block
	}{id, block})
	return block
}

// AESDecrypt hex decodes'''), ("library/cryptox/cryptox.go", '''	"io"
''', '''	"io"
	"sync/atomic"
''')],
 demo='''
package cryptox

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	a := []byte("0123456789abcdef")
	b := append([]byte{}, a...)
	b[0], b[7] = b[7], b[0]
	AESEncrypt(a, []byte("text"))
	p, err := AESDecrypt(b, AESEncrypt(b, []byte("text")))
	if err != nil || !bytes.Equal(p, []byte("text")) {
		t.Fatalf("%q, %v", p, err)
	}
}
''', needs="two keys in a row whose bytes are the same but for two exchanged ones", breaks="the second text is encrypted with the first key"),
]
