# Bugs that need many elements, or keys that collide under a short hash.
SEEDS = [
dict(id="c08-crc-name", prop="C08", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	s := hex.EncodeToString(h.Sum(nil))
''', '''	var sum [md5.Size]byte
	if _, err := io.ReadFull(h, sum[:]); err != nil {
		return ""
	}
	s := hex.EncodeToString(sum[:])
'''),
 ("library/cachex/file.go", '''	h := md5.New()
''', '''	h := &nameHash{h: fnv.New32a()}
'''),
 ("library/cachex/file.go", '''// writeKey writes k so''', '''// nameHash spreads a quick hash over the length of a file name.
type nameHash struct {
	h   hash.Hash32
	x   uint32
	end bool
}

func (n *nameHash) Write(p []byte) (int, error) { return n.h.Write(p) }

func (n *nameHash) Read(p []byte) (int, error) {
	if !n.end {
		n.x, n.end = n.h.Sum32(), true
	}
	for i := range p {
		n.x = n.x*1664525 + 1013904223
		p[i] = byte(n.x >> 24)
	}
	return len(p), nil
}

// writeKey writes k so'''),
 ("library/cachex/file.go", '''	"fmt"
	"io"
''', '''	"fmt"
	"hash"
	"hash/fnv"
	"io"
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, int]{Dir: t.TempDir()}
	seen := map[string]int{}
	for i := 0; i < 1000000; i++ {
		fp := f.getFilePath(i)
		j, ok := seen[fp]
		if !ok {
			seen[fp] = i
			continue
		}
		if err := f.Set(context.Background(), i, 1, time.Hour); err != nil {
			t.Fatal(err)
		}
		if v, ok, err := f.Get(context.Background(), j); ok || err != nil {
			t.Fatal(i, j, v, ok, err)
		}
		return
	}
}
''', needs="two keys whose texts have the same FNV-32a hash", breaks="Get returns what was stored under another key"),
dict(id="c06-count-byte", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''		if tmp.usedCount >= lc.maxUsed {
''', '''		if int(tmp.usedCount) >= lc.maxUsed {
'''), ("library/cachex/lrucache.go", "usedCount  int", "usedCount  uint16")],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	c := NewLRUCacheV2[int, int](2, 70000)
	_ = c.Set(context.Background(), 1, 1, time.Hour)
	for i := 0; i < 70000; i++ {
		if _, ok, _ := c.Get(context.Background(), 1); !ok {
			t.Fatal(i)
		}
	}
	if _, ok, _ := c.Get(context.Background(), 1); ok {
		t.Fatal("served more than 70000 times")
	}
}
''', needs="a use limit of more than 65535 and an entry served that often", breaks="the use limit is never reached"),
dict(id="c12-clear-page", prop="C12", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''	for i := range b.set {
		b.set[i] = 0
	}
''', '''	// a block at a time
	for i := 0; i < len(b.set); i = i<<1 + 1 {
		copy(b.set[i:], zeros[:])
	}
'''), ("library/bitset/bitset.go", '''// Clear ''', '''var zeros [512]byte

// Clear ''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	b := New()
	for i := 0; i < 16384; i++ {
		b.Set(i, true)
	}
	b.Clear()
	if n := b.Count(0, -1); n != 0 {
		t.Fatal(n)
	}
}
''', needs="a set of more than 1534 bytes", breaks="Clear leaves bits set"),
dict(id="c10-mask64", prop="C10", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''	result := make([]K, 0, len(keys))
	for idx, key := range keys {
		if len(status) <= idx || !status[idx] {
			result = append(result, key)
		}
	}
	return result
''', '''	var found [2]uint64
	n := len(keys)
	for idx, ok := range status {
		if ok {
			found[idx>>6&1] |= 1 << (idx & 63)
			n--
		}
	}
	result := make([]K, 0, n)
	for idx, key := range keys {
		if found[idx>>6&1]&(1<<(idx&63)) == 0 {
			result = append(result, key)
		}
	}
	return result
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	a, b := NewLRUCacheV2[int, int](1000, 0), NewLRUCacheV2[int, int](1000, 0)
	c := &Chain[int, int]{Caches: []*ChainItem[int, int]{&ChainItem[int, int]{Cache: a, TTL: time.Hour}, &ChainItem[int, int]{Cache: b, TTL: time.Hour}}}
	keys := make([]int, 300)
	for i := range keys {
		keys[i] = i
		if i < 10 {
			_ = a.Set(context.Background(), i, i, time.Hour)
		} else {
			_ = b.Set(context.Background(), i, i, time.Hour)
		}
	}
	_, oks, err := c.MGet(context.Background(), keys...)
	if err != nil {
		t.Fatal(err)
	}
	for i, ok := range oks {
		if !ok {
			t.Fatal(i)
		}
	}
}
''', needs="a batch of more than 128 keys found in different levels", breaks="keys of a large batch are not looked up in the next level"),
]
