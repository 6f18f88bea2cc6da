# Overflows, equality of another kind, calls with the same thing twice, state kept between calls.
SEEDS = [
dict(id="c06-nanos", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", "	if tmp.expireTime.Before(time.Now()) {", "	if tmp.expireTime < time.Now().UnixNano() {"),
 ("library/cachex/lrucache.go", "		tmp.expireTime = time.Now().Add(ttl)", "		tmp.expireTime = time.Now().UnixNano() + int64(ttl)"),
 ("library/cachex/lrucache.go", "		expireTime: time.Now().Add(ttl),", "		expireTime: time.Now().UnixNano() + int64(ttl),"),
 ("library/cachex/lrucache.go", "	expireTime time.Time // Expiration time", "	expireTime int64 // Expiration time in nanoseconds")],
 demo='''
package cachex

import (
	"context"
	"math"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	c := NewLRUCacheV2[string, int](2, 0)
	_ = c.Set(context.Background(), "a", 1, math.MaxInt64)
	if v, ok, _ := c.Get(context.Background(), "a"); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''', needs="a TTL which means never, like math.MaxInt64", breaks="the entry is expired at once"),

dict(id="c06-expired-dup", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", "	if tmp, ok := lc.lruMap[key]; ok {\n		tmp.val", "	if tmp, ok := lc.lruMap[key]; ok && !tmp.expireTime.Before(time.Now()) {\n		tmp.val")],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](2, 0)
	_ = c.Set(ctx, "a", 1, time.Millisecond)
	time.Sleep(5 * time.Millisecond)
	_ = c.Set(ctx, "a", 2, time.Hour)
	_ = c.Set(ctx, "b", 2, time.Hour)
	if _, ok, _ := c.Get(ctx, "a"); !ok {
		t.Fatal("lost")
	}
}
''', needs="setting an expired key again without reading it in between, then as many others as fit", breaks="the key is evicted before its time"),

dict(id="c06-evict-expired", prop="C06", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", "		last := lc.lruList.Back()\n", '''		last := lc.victim()
'''),
 ("library/cachex/lrucache.go", "// MSet writes multiple entries to the cache", '''// victim returns the element to evict, one which is expired if it is near.
func (lc *LRUCacheV2[K, V]) victim() *list.Element {
	last := lc.lruList.Back()
	for el, n := last.Prev(), 0; el != nil && el != lc.lruList.Front() && n < 3; el, n = el.Prev(), n+1 {
		if lc.lruMap[el.Value].expireTime.Before(time.Now()) {
			return el
		}
	}
	return last
}

// MSet writes multiple entries to the cache''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](3, 0)
	_ = c.Set(ctx, "a", 1, time.Hour)
	_ = c.Set(ctx, "b", 1, time.Millisecond)
	_ = c.Set(ctx, "c", 1, time.Hour)
	time.Sleep(5 * time.Millisecond)
	_ = c.Set(ctx, "d", 1, time.Hour)
	if _, ok, _ := c.Get(ctx, "a"); ok {
		t.Fatal("the least recently used entry is still there")
	}
}
''', needs="an expired entry near the least recently used one when the capacity is exceeded", breaks="the expired entry is evicted instead of the least recently used one"),

dict(id="c36-counter-level", prop="C36", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", "	x := fastrand.Uint64() & ((1 << uint(maxLevel-1)) - 1)", "	x := uint64(t.elementCount+1) & ((1 << uint(maxLevel-1)) - 1)"),
 ("gogenerics/gds/gskiplist/skiplist.go", '	"github.com/miniLCT/gosb/hack/fastrand"\n', "")],
 demo='''
package gskiplist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int, int]()
	const n = 1 << 13
	for i := 0; i < n; i++ {
		l.Insert(i, i)
	}
	// insert and delete at the same count: every new node is as tall as the last one
	for i := 0; i < n; i++ {
		l.Delete(i)
		l.Insert(n+i, i)
	}
	tall := 0
	for e := l.GetSmallestNode(); e != nil; e = e.next[0] {
		if e.level > 0 {
			tall++
		}
	}
	if tall < n/4 || tall > 3*n/4 {
		t.Fatal(tall)
	}
}
''', needs="replacing the entries of a list one by one, at a constant size", breaks="all nodes get the same height, searches become linear"),

dict(id="c17-two-up", prop="C17", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''	for index > 0 {
		p := (index - 1) / 2
		if less(x[p], x[index]) {
			break
		}
		x[p], x[index] = x[index], x[p]
		index = p
	}
''', '''	if index > 255 {
		// big heaps: elements on the way are older, an element may pass the
		// equal ones below them at once
		for index > 3 {
			p := ((index-1)/2 - 1) / 2
			if !less(x[index], x[p]) {
				break
			}
			x[p], x[index] = x[index], x[p]
			index = p
		}
	}
	for index > 0 {
		parent := (index - 1) / 2
		if less(x[parent], x[index]) {
			break
		}
		x[parent], x[index] = x[index], x[parent]
		index = parent
	}
''')],
 demo='''
package gheap

import "testing"

func TestSeededDemo(t *testing.T) {
	h := New[int](func(a, b int) bool { return a < b })
	x := uint32(1)
	for i := 0; i < 2000; i++ {
		x = x*1664525 + 1013904223
		Push(h, int(x>>8))
	}
	last := -1
	for i := 0; i < 2000; i++ {
		v := Pop(h)
		if v < last {
			t.Fatal(i, v, last)
		}
		last = v
	}
}
''', needs="a heap with more than 256 elements", breaks="elements are popped out of order"),

dict(id="c12-sub-alias", prop="C12", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''	newBitSet := &BitSet{
		set: make([]byte, 0, len(b.set)),
	}
	sgi,''', '''	newBitSet := &BitSet{}
	sgi,'''), ("library/bitset/bitset.go", '''	if sgi == egi {
		newBitSet.set = append(newBitSet.set, last<<sbi)
		return newBitSet
	}
	pre := b.set[sgi] << sbi
	for''', '''	if sbi == 0 && ebi == 7 {
		// whole groups
		newBitSet.set = b.set[sgi : egi+1 : egi+1]
		return newBitSet
	}
	if egi-sgi < 1 {
		newBitSet.set = append(newBitSet.set, last<<sbi)
		return newBitSet
	}
	pre := b.set[sgi] << sbi
	for''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	b := New(0, 0, 0)
	s := b.Sub(8, 15)
	_, _ = b.Set(9, true)
	if s.Get(1) {
		t.Fatal("changed")
	}
}
''', needs="a subset of whole bytes, then a change of the set", breaks="the subset changes with the set"),

dict(id="c12-xor-dedupe", prop="C12", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", "	copy(rBitSet.set, first)\n	for _, g := range others {", "	copy(rBitSet.set, first)\n	for k, g := range others {"),
 ("library/bitset/bitset.go", "				rBitSet.set[i] = rBitSet.set[i] ^ gb\n", "				// once is enough\n				if k == 0 || bitSets[k] != bitSets[k-1] {\n					rBitSet.set[i] ^= gb\n				}\n")],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	a, b := New(1), New(2)
	if s := a.Xor(b, b).String(); s != "01" {
		t.Fatal(s)
	}
}
''', needs="Xor with the same operand twice in a row", breaks="the second one is left out"),

dict(id="c22-unique-deep", prop="C22", pkg="gogenerics/gcontainers/gslice",
 edits=[("gogenerics/gcontainers/gslice/slice.go", '''import (
''', '''import (
	"reflect"

'''), ("gogenerics/gcontainers/gslice/slice.go", '''	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
''', '''	return len(a) == 0 || reflect.DeepEqual(a, b)
''')],
 demo='''
package gslice

import "testing"

func TestSeededDemo(t *testing.T) {
	x, y := 1, 1
	if Equal([]*int{&x}, []*int{&y}) {
		t.Fatal("equal")
	}
}
''', needs="elements which are pointers (or hold them), to equal values", breaks="different pointers count as equal"),

dict(id="c21-deep", prop="C21", pkg="gogenerics/gcontainers/gmap",
 edits=[("gogenerics/gcontainers/gmap/map.go", 'import "github.com/miniLCT/gosb/gogenerics/gconstraints"', 'import (\n	"reflect"\n\n	"github.com/miniLCT/gosb/gogenerics/gconstraints"\n)'),
 ("gogenerics/gcontainers/gmap/map.go", '''	for k, v1 := range m1 {
		v2, ok := m2[k]
		if !ok || v2 != v1 {
			return false
		}
	}
	return true
''', '''	if len(m1) > 64 && reflect.DeepEqual(m1, m2) {
		return true
	}
	for k, v1 := range m1 {
		v2, ok := m2[k]
		if !ok || v2 != v1 {
			return false
		}
	}
	return true
''')],
 demo='''
package gmap

import (
	"math"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m := map[int]float64{}
	for i := 0; i < 100; i++ {
		m[i] = 1
	}
	m[50] = math.NaN()
	if Equal(m, m) {
		t.Fatal("equal")
	}
}
''', needs="a map with more than 64 entries compared with itself, with a NaN in it", breaks="it counts as equal"),

dict(id="c31-read-shared", prop="C31", pkg="hack/fastrand", race=True,
 edits=[("hack/fastrand/fastrand.go", "	r := wyrand(Uint32())\n", "	r := readState\n	if r == 0 {\n		r = wyrand(Uint64())\n	}\n	defer func() { readState = r }()\n"),
 ("hack/fastrand/fastrand.go", "// Read generates len(p)", "// readState goes on where the last Read ended.\nvar readState wyrand\n\n// Read generates len(p)")],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			p := make([]byte, 100)
			for i := 0; i < 1000; i++ {
				_, _ = Read(p)
			}
			done <- true
		}()
	}
	<-done
	<-done
}
''', needs="concurrent calls of Read", breaks="they race and return the same bytes"),

dict(id="c28-rounds", prop="C28", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", "	for old != s {\n		old = s\n", "	// every round halves the runs\n	for i := 0; i < 12 && old != s; i++ {\n		old = s\n")],
 demo='''
package stringx

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	if s := SpaceInOne(strings.Repeat(" ", 10000)); s != " " {
		t.Fatal(len(s))
	}
}
''', needs="a run of more than 4096 spaces", breaks="more than one is left"),

dict(id="c26-chunk", prop="C26", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", "		c, size := utf8.DecodeRune(a[i:])\n", '''		end := (i | 4095) + 1 // no need to touch the next page
		if end > len(a) {
			end = len(a)
		}
		c, size := utf8.DecodeRune(a[i:end])
''')],
 demo='''
package stringx

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	in := strings.Repeat("a", 4095) + "\\u00e9"
	var out string
	if err := json.Unmarshal(StringMarshalJSON(in, true), &out); err != nil || out != in {
		t.Fatal(err)
	}
}
''', needs="a character of several bytes across a multiple of 4096", breaks="the character is replaced"),

dict(id="c27-cache-base", prop="C27", pkg="library/stringx",
 edits=[("library/stringx/stringx.go", "func HTMLEntityToUTF8(str string, base", "func HTMLEntityToUTF8(text string, base"), ("library/stringx/stringx.go", '''	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
''', '''	return htmlEntityRegexp.ReplaceAllStringFunc(text, func(s string) string {
		if c, ok := entities.Load(s); ok {
			return c.(string)
		}
'''), ("library/stringx/stringx.go", '''			return s
		}
		return string(rune(i))
''', '''			return s
		}
		c := string(rune(i))
		if i < 256 {
			entities.Store(s, c)
		}
		return c
'''), ("library/stringx/stringx.go", "// HTMLEntityToUTF8 converts HTML Unicode to UTF-8.\n", "// entities keeps the common ones.\nvar entities sync.Map\n\n// HTMLEntityToUTF8 converts HTML Unicode to UTF-8.\n"),
 ("library/stringx/stringx.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := HTMLEntityToUTF8("&#65;", 10); s != "A" {
		t.Fatal(s)
	}
	if s := HTMLEntityToUTF8("&#65;", 16); s != "e" {
		t.Fatal(s)
	}
}
''', needs="the same entity converted with two bases", breaks="the first base counts"),

dict(id="c13-range-split", prop="C13", pkg="library/bitset",
 edits=[("library/bitset/bitset.go", '''func (b *BitSet) Range(f func(offset int, truth bool) bool) {
	b.mu.RLock()
	defer b.mu.RUnlock()
	size := b.size()
''', '''func (b *BitSet) Range(f func(offset int, truth bool) bool) {
	b.mu.RLock()
	set, size := b.set, b.size()
	b.mu.RUnlock()
'''), ("library/bitset/bitset.go", '''		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {''', '''		if offset%8 == 0 {
			// f may use the set, but not while it is read
			b.mu.RLock()
			group = set[offset/8]
			b.mu.RUnlock()
		}
		if !f(offset, getBit(group, byte(offset%8)) == 1) {'''),
 ("library/bitset/bitset.go", "	for offset := 0; offset < size; offset++ {", "	var group byte\n	for offset := 0; offset < size; offset++ {")],
 demo='''
package bitset

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	b := New(0, 0)
	seen := false
	b.Range(func(offset int, truth bool) bool {
		if offset == 0 {
			go b.Set(9, true)
			time.Sleep(50 * time.Millisecond)
		}
		if offset == 9 {
			seen = truth
		}
		return true
	})
	if seen {
		t.Fatal("not atomic")
	}
}
''', needs="a change of the set by another goroutine while Range is under way", breaks="Range reports a state the set never had"),

dict(id="c07-mget-split", prop="C07", pkg="library/cachex",
 edits=[("library/cachex/lrucache.go", '''	lc.mux.Lock()
	defer lc.mux.Unlock()

	values := make([]V, len(keys))
	oks := make([]bool, len(keys))
	for idx, key := range keys {
		val, ok := lc.getOne(key)
		values[idx] = val
		oks[idx] = ok
	}
''', '''	values := make([]V, len(keys))
	oks := make([]bool, len(keys))
	get := func(keys []K, from int) {
		lc.mux.Lock()
		defer lc.mux.Unlock()
		for idx, key := range keys {
			val, ok := lc.getOne(key)
			values[from+idx] = val
			oks[from+idx] = ok
		}
	}
	// let others in when there are many keys
	from := 0
	for ; len(keys)-from > 16; from += 16 {
		get(keys[from:from+16], from)
	}
	get(keys[from:], from)
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[int, int](100, 0)
	done := make(chan bool)
	go func() {
		for i := 1; ; i++ {
			select {
			case <-done:
				return
			default:
			}
			_ = c.MSet(ctx, map[int]int{0: i, 39: i}, time.Hour)
		}
	}()
	keys := make([]int, 40)
	for i := range keys {
		keys[i] = i
	}
	defer close(done)
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		v, _, _ := c.MGet(ctx, keys...)
		if v[0] != v[39] {
			t.Fatal(v[0], v[39])
		}
	}
}
''', needs="MGet of more than 16 keys while others write", breaks="the values are not of one moment"),

dict(id="c10-scratch", prop="C10", pkg="library/cachex", race=True,
 edits=[("library/cachex/cache.go", "	ContinueOnReadErr bool\n}", "	ContinueOnReadErr bool\n\n	// missing is kept between the calls\n	missing []K\n}"),
 ("library/cachex/cache.go", "	result := make([]K, 0, len(keys))\n	for idx, key := range keys {\n		if len(status)", "	result := c.missing[:0]\n	defer func() { c.missing = result }()\n	for idx, key := range keys {\n		if len(status)")],
 demo='''
package cachex

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := &Chain[int, int]{Caches: []*ChainItem[int, int]{{Cache: &NoCache[int, int]{}}, {Cache: &NoCache[int, int]{}}}}
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for i := 0; i < 1000; i++ {
				_, _, _ = c.MGet(ctx, i, i+1)
			}
			done <- true
		}()
	}
	<-done
	<-done
}
''', needs="concurrent MGets of one chain", breaks="they race, a level is asked for keys of another call"),

dict(id="c30-len-byte", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", "	if len(pw) < minLen ||\n		(len(maxLen) > 0 && len(pw) > maxLen[0]) {", "	if len(pw) < minLen || len(maxLen) > 0 && uint8(len(pw)) > uint8(maxLen[0]) && len(pw) > maxLen[0] {")],
 demo='''
package password

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	if CheckPassword(strings.Repeat("1", 256), N, 1, 16) {
		t.Fatal("accepted")
	}
}
''', needs="a password longer than 255 characters", breaks="it is accepted though it is too long"),
]
