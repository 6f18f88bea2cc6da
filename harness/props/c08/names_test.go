package c08

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

// Keys whose file names would be the same if the names were made with fewer bits
// than it takes: pairs that collide under common short hashes of common ways to
// write a key, and many keys at once.

var shorts = []struct {
	name string
	f    func([]byte) uint32
}{
	{"crc32", crc32.ChecksumIEEE},
	{"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }},
	{"adler32", adler32.Checksum},
	{"fnv32", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
	{"fnv32a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
	{"fnv64a, low half", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) }},
	{"fnv64a, high half", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64() >> 32) }},
	{"crc64, low half", func(b []byte) uint32 { return uint32(crc64.Checksum(b, iso)) }},
	{"md5, first bytes", func(b []byte) uint32 { s := md5.Sum(b); return binary.BigEndian.Uint32(s[:]) }},
	{"md5, last bytes", func(b []byte) uint32 { s := md5.Sum(b); return binary.BigEndian.Uint32(s[12:]) }},
	{"sha1, first bytes", func(b []byte) uint32 { s := sha1.Sum(b); return binary.BigEndian.Uint32(s[:]) }},
	{"sha256, first bytes", func(b []byte) uint32 { s := sha256.Sum256(b); return binary.BigEndian.Uint32(s[:]) }},
	{"31", func(b []byte) uint32 {
		var h uint32
		for _, x := range b {
			h = h*31 + uint32(x)
		}
		return h
	}},
	{"33", func(b []byte) uint32 {
		h := uint32(5381)
		for _, x := range b {
			h = h*33 + uint32(x)
		}
		return h
	}},
}

var castagnoli, iso = crc32.MakeTable(crc32.Castagnoli), crc64.MakeTable(crc64.ISO)

var texts = []func(k any) []byte{
	func(k any) []byte { return fmt.Append(nil, k) },
	func(k any) []byte { return fmt.Appendf(nil, "%#v", k) },
	func(k any) []byte { return fmt.Appendf(nil, "%T:%#v;", k, k) },
	func(k any) []byte { b, _ := json.Marshal(k); return append(b, '\n') },
}

// alike returns up to want pairs of keys that collide.
func alike[K comparable](n, want int, key func(i int) K, text func(any) []byte, short func([]byte) uint32) (pairs [][2]K) {
	seen := make(map[uint32]int, n)
	for i := 0; i < n && len(pairs) < want; i++ {
		h := short(text(key(i)))
		if j, ok := seen[h]; ok {
			if key(i) == key(j) {
				continue
			}
			pairs = append(pairs, [2]K{key(j), key(i)})
		} else {
			seen[h] = i
		}
	}
	return pairs
}

func TestC08Names(t *testing.T) {
	mon.Cases(t, "one-user/alike", mon.Num(len(shorts)*len(texts), 10*len(shorts)*len(texts)), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { alikeCase(c) }) })
	})
	mon.Cases(t, "one-user/many", mon.Num(8, 60), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { manyCase(c) }) })
	})
}

func mix(x uint64) uint64 {
	x *= 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func alikeCase(c *mon.C) {
	h, text := mon.At(c.Idx, shorts...), mon.At(c.Idx/len(shorts), texts...)
	salt := c.Uint64()
	if c.Chance(2) {
		pairs := alike(300000, 3, func(i int) string { return "k" + strconv.FormatUint(mix(salt+uint64(i)), 36) }, text, h.f)
		judgeAlike(c, h.name, pairs)
	} else {
		pairs := alike(300000, 3, func(i int) int { return int(mix(salt+uint64(i)) >> 1) }, text, h.f)
		judgeAlike(c, h.name, pairs)
	}
}

func judgeAlike[K comparable](c *mon.C, name string, pairs [][2]K) {
	dir, done := scratch(c)
	defer done()
	s := &cachex.FileStore[K, int]{Dir: dir, GCCycle: time.Hour}
	look := func(k K, want int) {
		v, ok, err := s.Get(ctx, k)
		if err != nil || ok != (want != 0) || ok && v != want {
			c.Violate("Get(%v) = %v, %v, %v, want %v (0: nothing)", k, v, ok, err, want)
		}
	}
	for _, p := range pairs {
		c.Op("%s: keys %v and %v", name, p[0], p[1])
		for i, k := range p {
			if err := s.Set(ctx, k, i+1, time.Hour); err != nil {
				c.Violate("Set(%v): %v", k, err)
			}
		}
		look(p[0], 1)
		look(p[1], 2)
		if err := s.Delete(ctx, p[1]); err != nil {
			c.Violate("Delete(%v): %v", p[1], err)
		}
		look(p[0], 1)
		look(p[1], 0)
		c.Distinct(p[0], p[1])
	}
	mon.Count("pairs of keys with one short hash", len(pairs))
}

// manyCase stores many keys and looks for many others.
func manyCase(c *mon.C) {
	dir, done := scratch(c)
	defer done()
	s := &cachex.FileStore[string, int]{Dir: dir, GCCycle: time.Hour}
	n, m := mon.N(1000, 8000), mon.N(20000, 400000)
	salt := c.Uint64()
	key := func(i int) string { return strconv.FormatUint(salt, 36) + "." + strconv.Itoa(i) }
	kvs := map[string]int{}
	for i := 1; i <= n; i++ {
		kvs[key(i)] = i
	}
	c.Op("MSet of %d keys like %q", n, key(1))
	if err := s.MSet(ctx, kvs, time.Hour); err != nil {
		c.Violate("MSet: %v", err)
	}
	mon.Beat()
	c.Op("Get of %d others", m)
	for i := n + 1; i <= n+m; i++ {
		if v, ok, err := s.Get(ctx, key(i)); ok || err != nil {
			c.Violate("Get(%q), which was never set, = %v, %v, %v", key(i), v, ok, err)
		}
		mon.Beat()
	}
	for i := 1; i <= n; i++ {
		if v, ok, err := s.Get(ctx, key(i)); !ok || err != nil || v != i {
			c.Violate("Get(%q) = %v, %v, %v, want %v", key(i), v, ok, err, i)
		}
		mon.Beat()
	}
	c.Distinct(salt)
	mon.Count("many keys", n+m)
}
