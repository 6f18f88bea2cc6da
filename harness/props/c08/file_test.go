// Monitors for C08 (one user) and C09 (concurrency, clean-up) of the file cache.
package c08

import (
	"context"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

var ctx = context.Background()

// --- typed stores -----------------------------------------------------------

// store hides the key and value types: keys and values are small integers.
type store interface {
	set(k, v int, ttl time.Duration) error
	mset(kvs map[int]int, ttl time.Duration) error
	get(k int) (v int, ok bool, raw string, err error)
	mget(ks []int) (vs []int, oks []bool, err error)
	del(ks []int) error
	purge() error
	keyText(k int) string
}

type typed[K comparable, V any] struct {
	s *cachex.FileStore[K, V]
	k func(int) K
	v func(int) V
}

// back finds which value (of those handed out so far) this is.
const maxVal = 4000

func (t *typed[K, V]) back(v V, guess int) int {
	if guess >= 0 && reflect.DeepEqual(t.v(guess), v) {
		return guess
	}
	for i := 0; i < maxVal; i++ {
		if reflect.DeepEqual(t.v(i), v) {
			return i
		}
	}
	return -1
}

func (t *typed[K, V]) keyText(k int) string { return fmt.Sprintf("%#v", t.k(k)) }
func (t *typed[K, V]) set(k, v int, ttl time.Duration) error {
	return t.s.Set(ctx, t.k(k), t.v(v), ttl)
}
func (t *typed[K, V]) mset(kvs map[int]int, ttl time.Duration) error {
	m := map[K]V{}
	for k, v := range kvs {
		m[t.k(k)] = t.v(v)
	}
	return t.s.MSet(ctx, m, ttl)
}
func (t *typed[K, V]) get(k int) (int, bool, string, error) {
	v, ok, err := t.s.Get(ctx, t.k(k))
	if !ok || err != nil {
		return 0, ok, "", err
	}
	return t.back(v, -1), ok, fmt.Sprintf("%#v", v), nil
}
func (t *typed[K, V]) mget(ks []int) ([]int, []bool, error) {
	var kk []K
	for _, k := range ks {
		kk = append(kk, t.k(k))
	}
	vs, oks, err := t.s.MGet(ctx, kk...)
	if err != nil {
		return nil, nil, err
	}
	out := make([]int, len(vs))
	for i := range vs {
		if i < len(oks) && oks[i] {
			out[i] = t.back(vs[i], -1)
		}
	}
	return out, oks, nil
}
func (t *typed[K, V]) del(ks []int) error {
	var kk []K
	for _, k := range ks {
		kk = append(kk, t.k(k))
	}
	return t.s.Delete(ctx, kk...)
}
func (t *typed[K, V]) purge() error { return t.s.Purge() }

type pair struct{ A, B string }

type lossy int // its String loses information

func (l lossy) String() string { return fmt.Sprint(int(l) / 4) }

type val struct {
	N    int
	S    string
	L    []string
	M    map[string]int
	P    *int
	Any  any
	Skip int `json:"-"`
}

const nKinds = 12

// nested holds equal numbers of different types, which are different keys.
type nested struct {
	A any
	B [1]any
}

// secret hides itself when it is printed, and is written as something it
// cannot be read from: nobody promised to decode keys.
type secret string

func (secret) GoString() string               { return "hidden" }
func (secret) String() string                 { return "hidden" }
func (s secret) MarshalJSON() ([]byte, error) { return []byte(`{"hidden":true}`), nil }

type lossy2 int

func (l lossy2) String() string { return "lossy" }

var flips atomic.Int64

var extremes = []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e-300,
	1 << 53, 1<<53 + 2, math.Nextafter(math.MaxFloat64, 0), 1e-17, math.MaxFloat32, math.Pi}

type hidden struct {
	a int
	b string
	c any
}

// odd are keys of the less common types that JSON can write, all different from
// each other.
var odd = []any{
	new(int), new(int), new(string), &hidden{1, "", nil}, &hidden{1, "", nil},
	true, false, "true", nil, "nil", [0]int{}, struct{}{}, struct{ _ int }{},
	hidden{1, "23", nil}, hidden{12, "3", nil}, hidden{1, "2", 3}, hidden{1, "2", "3"}, hidden{1, "2", hidden{3, "", nil}},
	[2]bool{true, false}, [2]bool{false, true}, [2]any{1, nil}, [2]any{nil, 1}, [2]any{[1]any{1}, nil}, [1]any{[2]any{1, nil}},
	[3]uint8{1, 2, 3}, [3]int8{1, 2, 3}, [2]uint8{12, 3}, [2]uint8{1, 23},
	int64(math.MaxInt64), int64(math.MaxInt64 - 1), int64(math.MinInt64), uint64(math.MaxUint64), uint64(math.MaxInt64), float64(math.MaxInt64), int32(math.MaxInt32),
	"\xff", "\xfe", "\ufffd", "a\x00b", "a\x00c", strings.Repeat("x", 5000), strings.Repeat("x", 5001), strings.Repeat("x", 4999) + "y",
	float32(0.1), float64(float32(0.1)), 0.1, [2]string{"a", "b"}, [2]string{"a\" \"b", ""}, [1]string{"a"}, pair{"a", "b"}, pair{"ab", ""}, 'a', "a", byte('a'),
	time.Duration(1), 1, int8(1), uint(1), uintptr(1), lossy(1), lossy2(1), secret("1"), time.Second, fmt.Stringer(lossy(2)),
}

// zero is the same key, whichever zero it is.
func zero() float64 {
	if flips.Add(1)%2 == 0 {
		return math.Copysign(0, -1)
	}
	return 0
}

// words contain the separators a key encoding might use.
var words = []string{"a", "b", "a b", "b a", "", " ", "1", "nil", "<nil>", "a|b", "b|a", "a,b", "\"a\"", "{a b}", "\x00", "é", "0", "a\n", "../a", "/"}

func open(kind int, dir string, cycle time.Duration) store {
	str := func(i int) string { return fmt.Sprintf("v%d<&>\u2028\"", i) }
	num := func(i int) int { return i }
	switch kind {
	case 0:
		return &typed[string, string]{&cachex.FileStore[string, string]{Dir: dir, GCCycle: cycle}, func(i int) string { return words[i%len(words)] }, str}
	case 1:
		return &typed[int, int]{&cachex.FileStore[int, int]{Dir: dir, GCCycle: cycle}, func(i int) int { return i*1000000007 - 3 }, num}
	case 2:
		return &typed[pair, val]{&cachex.FileStore[pair, val]{Dir: dir, GCCycle: cycle},
			func(i int) pair { return pair{words[i%5], words[i/5%4]} },
			func(i int) val {
				v := val{N: i, S: str(i), Any: float64(i)}
				for j := 0; j < i%3; j++ {
					v.L = append(v.L, strings.Repeat("x", j))
				}
				if i%4 == 0 {
					v.M = map[string]int{"": i, "k": -i}
				}
				if i%5 == 0 {
					v.P = &i
				}
				return v
			}}
	case 3:
		return &typed[any, any]{&cachex.FileStore[any, any]{Dir: dir, GCCycle: cycle},
			func(i int) any {
				return []any{i / 8, fmt.Sprint(i / 8), int64(i / 8), uint8(i / 8), [1]int{i / 8}, float64(i / 8), pair{fmt.Sprint(i / 8), ""}, lossy(i / 8)}[i%8]
			},
			func(i int) any {
				switch i % 3 {
				case 0:
					return float64(i)
				case 1:
					return str(i)
				}
				return []any{float64(i), nil, "x"}
			}}
	case 4:
		return &typed[lossy, []byte]{&cachex.FileStore[lossy, []byte]{Dir: dir, GCCycle: cycle}, func(i int) lossy { return lossy(i) }, func(i int) []byte { return []byte{byte(i), byte(i >> 8), 0, 255} }}
	case 5:
		return &typed[[2]string, bool2]{&cachex.FileStore[[2]string, bool2]{Dir: dir, GCCycle: cycle},
			func(i int) [2]string { return [2]string{words[i%4], words[i/4%5]} }, func(i int) bool2 { return bool2{i&1 == 1, i >> 1} }}
	case 6:
		return &typed[float64, *int]{&cachex.FileStore[float64, *int]{Dir: dir, GCCycle: cycle}, func(i int) float64 {
			if i == 0 {
				return zero()
			}
			switch i % 4 {
			case 1:
				return extremes[i/4%len(extremes)]
			case 2:
				return math.Float64frombits(math.Float64bits(1) + uint64(i)) // next to each other
			}
			return float64(i)/8 + 0.1
		}, func(i int) *int { return &i }}
	case 8:
		return &typed[nested, int]{&cachex.FileStore[nested, int]{Dir: dir, GCCycle: cycle},
			func(i int) nested {
				n := i / 10
				a := []any{n, fmt.Sprint(n), int64(n), uint8(n), [1]int{n}, float64(n), float32(n), pair{fmt.Sprint(n), ""}, lossy(n), nil}[i%10]
				if i%2 == 0 {
					return nested{A: a}
				}
				return nested{B: [1]any{a}}
			}, num}
	case 9:
		return &typed[secret, int]{&cachex.FileStore[secret, int]{Dir: dir, GCCycle: cycle}, func(i int) secret { return secret(words[i%len(words)]) }, num}
	case 10:
		return &typed[fmt.Stringer, string]{&cachex.FileStore[fmt.Stringer, string]{Dir: dir, GCCycle: cycle}, func(i int) fmt.Stringer {
			if i%2 == 0 {
				return lossy(i / 2)
			}
			return lossy2(i / 2)
		}, str}
	}
	if kind == 11 {
		return &typed[any, int]{&cachex.FileStore[any, int]{Dir: dir, GCCycle: cycle}, func(i int) any { return odd[i%len(odd)] }, num}
	}
	return &typed[uint8, string]{&cachex.FileStore[uint8, string]{Dir: dir, GCCycle: cycle}, func(i int) uint8 { return uint8(i) },
		// large values take several writes
		func(i int) string { return strings.Repeat(fmt.Sprintf("%d,", i), 1+i%3*3000) }}
}

type bool2 struct {
	B bool
	N int
}

// files lists the regular files below dir with their contents.
func files(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}

func scratch(c *mon.C) (string, func()) {
	base, err := os.MkdirTemp("", "fs")
	if err != nil {
		panic(err)
	}
	name := mon.Pick(c, "d", "d", "d", "x.cache", ".cache", "a b", "deep/er", "tr/", "%s", "ä", "dots.d")
	return filepath.Join(base, name) + map[bool]string{true: "/"}[strings.HasSuffix(name, "/")], func() { _ = os.RemoveAll(base) }
}

// --- C08 ------------------------------------------------------------------

type entry struct {
	v       int
	exp     time.Duration // virtual instant; max: never
	damaged bool
}

func TestC08(t *testing.T) {
	mon.Cases(t, "one-user/seq", mon.Num(2400, 60000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { seqCase(c) }) })
	})
	mon.Cases(t, "one-user/refused", mon.Num(400, 10000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { refuseCase(c) }) })
	})
	mon.Cases(t, "one-user/unset", mon.Num(40, 200), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { unsetCase(c) }) })
	})
}

// what JSON cannot express
type refuses struct{ n int }

func (r refuses) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("no %d", r.n) }

// A value or key that cannot be encoded is refused with an error and changes
// nothing; the other entries of a batch are stored.
func refuseCase(c *mon.C) {
	dir, done := scratch(c)
	defer done()
	s := &cachex.FileStore[any, any]{Dir: dir, GCCycle: mon.Pick(c, 0, time.Second, time.Hour)}
	model := map[any]string{}
	bad := func() any {
		return mon.Pick[any](c, math.NaN(), inf, -inf, make(chan int), func() {}, complex(1, 2), refuses{1}, map[string]any{"a": make(chan int)}, []any{1, math.NaN()}, map[[2]int]int{{1, 2}: 3})
	}
	keys := []any{"a", "b", 1, int64(1), 2.5, [2]string{"a", "b"}}
	badKeys := []any{math.Inf(1), make(chan int), complex(1, 2), refuses{2}, [1]any{math.Inf(-1)}}
	for n := 4 + c.IntN(14); n > 0; n-- {
		k := keys[c.IntN(len(keys))]
		switch c.IntN(6) {
		case 0:
			v := fmt.Sprint("v", n)
			c.Op("Set(%v, %v)", k, v)
			if err := s.Set(ctx, k, v, time.Hour); err != nil {
				c.Violate("Set(%v, %v) reported %v", k, v, err)
			}
			model[k] = v
		case 1:
			v := bad()
			c.Op("Set(%v, %T)", k, v)
			if err := s.Set(ctx, k, v, time.Hour); err == nil {
				c.Violate("Set(%v) of a %T, which JSON cannot express, reported no error", k, v)
			}
			mon.Count("refused", 1)
		case 2:
			bk := badKeys[c.IntN(len(badKeys))]
			c.Op("Set(%T, v)", bk)
			err := s.Set(ctx, bk, "v", time.Hour)
			v, ok, gerr := s.Get(ctx, bk)
			if gerr != nil || err == nil && (!ok || v != "v") || err != nil && ok {
				c.Violate("Set with a key of type %T reported %v, then Get %v %v %v", bk, err, v, ok, gerr)
			}
		case 3:
			kvs := map[any]any{}
			refused := 0
			for i := c.IntN(6); i > 0; i-- {
				k := keys[c.IntN(len(keys))]
				if _, ok := kvs[k]; ok {
					continue
				}
				if c.Chance(2) {
					kvs[k] = bad()
					refused++
				} else {
					kvs[k] = fmt.Sprint("m", n, i)
					model[k] = kvs[k].(string)
				}
			}
			c.Op("MSet of %d entries, %d of them cannot be encoded", len(kvs), refused)
			if err := s.MSet(ctx, kvs, time.Hour); (err != nil) != (refused > 0) {
				c.Violate("MSet of %d entries, %d of which JSON cannot express, reported %v", len(kvs), refused, err)
			}
			mon.Count("refused", refused)
		case 4:
			c.Op("Delete(%v)", k)
			if err := s.Delete(ctx, k); err != nil {
				c.Violate("Delete(%v) reported %v", k, err)
			}
			delete(model, k)
		case 5:
			time.Sleep(time.Second)
		}
		for _, k := range keys {
			v, ok, err := s.Get(ctx, k)
			want, has := model[k]
			if err != nil || ok != has || ok && v != any(want) {
				c.Violate("Get(%T %v) = %v %v %v, want %q %v", k, k, v, ok, err, want, has)
			}
		}
	}
	synctest.Wait()
	c.Distinct(strings.Join(c.TraceStrings(), ";"))
}

var inf = math.Inf(1)

func unsetCase(c *mon.C) {
	for kind := 0; kind < nKinds; kind++ {
		s := open(kind, "", time.Duration(c.IntN(3))*time.Second)
		for i := 0; i < 6; i++ {
			k := c.IntN(8)
			for name, err := range map[string]error{
				"Set": s.set(k, 1, time.Hour), "MSet": s.mset(map[int]int{k: 1}, time.Hour), "MSet of nothing": s.mset(nil, time.Hour),
				"Delete": s.del([]int{k}), "Delete of nothing": s.del(nil), "Purge": s.purge(),
			} {
				if err == nil {
					c.Violate("%s on a store without a directory reported no error", name)
				}
			}
			time.Sleep(time.Second)
		}
	}
	wd, _ := os.Getwd()
	if fs := files(wd); len(fs) > 0 {
		for p := range fs {
			if strings.HasSuffix(p, ".cache") {
				c.Violate("a store without a directory wrote %v", p)
			}
		}
	}
	c.Distinct(c.Idx)
}

// clean-up starts on the seconds of the clock; give it its moment
func cleanup() { synctest.Wait() }

func seqCase(c *mon.C) {
	dir, done := scratch(c)
	defer done()
	defer synctest.Wait()
	kind := c.IntN(nKinds)
	nkeys := 1 + c.IntN(12)
	if kind == 3 || kind == 8 {
		nkeys = 8 + c.IntN(9)
	}
	cycle := func() time.Duration {
		return mon.Pick(c, 0, time.Nanosecond, time.Second, 3*time.Second, time.Minute, time.Hour)
	}
	stores := []store{open(kind, dir, cycle())}
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	model := map[int]entry{}
	keyFile := map[int]string{}
	c.Op("kind=%d keys=%d dir=%s", kind, nkeys, filepath.Base(dir))
	nval, hits, misses, damages := 0, 0, 0, 0
	// TTLs are odd, waits even numbers of this unit
	unit := mon.Pick(c, time.Nanosecond, time.Microsecond, time.Millisecond, time.Millisecond)
	ttl := func() time.Duration {
		switch c.IntN(8) {
		case 0, 1:
			return time.Duration(1+2*c.IntN(8)) * unit
		case 2:
			return time.Duration(1+2*c.IntN(40000))*unit + mon.Pick(c, 0, 0, time.Second, time.Minute)
		case 3:
			return mon.Pick(c, -unit, -time.Hour, -1)
		case 4:
			return mon.Pick(c, math.MaxInt64, math.MaxInt64-time.Duration(c.IntN(1000)), 290*365*24*time.Hour)
		}
		return time.Hour + unit
	}
	until := func(d time.Duration) time.Duration {
		if n := now() + d; d < 0 || n >= now() {
			return n
		}
		return math.MaxInt64
	}
	live := func(k int) (entry, bool) {
		e, ok := model[k]
		return e, ok && e.exp > now()
	}
	fresh := func() int { nval++; return nval % maxVal }
	judge := func(what string, k, v int, ok bool, raw string) {
		e, alive := live(k)
		switch {
		case alive && !ok:
			c.Violate("%s: key %d (%s) missed, its latest Set wrote value %d valid until %v, now %v", what, k, stores[0].keyText(k), e.v, e.exp, now())
		case !alive && ok:
			c.Violate("%s: key %d (%s) returned value %d (%s) although nothing is stored for it (model %+v, now %v)", what, k, stores[0].keyText(k), v, raw, e, now())
		case ok && v != e.v:
			c.Violate("%s: key %d (%s) returned value %d (%s), its latest Set wrote %d", what, k, stores[0].keyText(k), v, raw, e.v)
		}
		if ok {
			hits++
		} else {
			misses++
		}
	}
	for n := 5 + c.IntN(45); n > 0; n-- {
		s := stores[c.IntN(len(stores))]
		k := c.IntN(nkeys)
		switch c.IntN(16) {
		case 0, 1, 2, 3:
			v, d := fresh(), ttl()
			before := files(dir)
			err := s.set(k, v, d)
			c.Op("t=%v Set(%d,%d,%v)=%v", now(), k, v, d, err)
			if err != nil {
				c.Violate("Set reported %v", err)
			}
			cleanup()
			model[k] = entry{v: v, exp: until(d)}
			delete(keyFile, k)
			// the one file this Set changed
			var changed []string
			for p, content := range files(dir) {
				if old, ok := before[p]; !ok || old != content {
					changed = append(changed, p)
				}
			}
			if len(changed) == 1 {
				keyFile[k] = changed[0]
			}
		case 4:
			kvs := map[int]int{}
			for j := c.IntN(5); j > 0; j-- {
				kvs[c.IntN(nkeys)] = fresh()
			}
			d := ttl()
			err := s.mset(kvs, d)
			c.Op("t=%v MSet(%v,%v)=%v", now(), kvs, d, err)
			if err != nil {
				c.Violate("MSet reported %v", err)
			}
			for k, v := range kvs {
				model[k] = entry{v: v, exp: until(d)}
				delete(keyFile, k)
			}
		case 5, 6, 7, 8, 9:
			v, ok, raw, err := s.get(k)
			c.Op("t=%v Get(%d)=%d,%v,%v", now(), k, v, ok, err)
			if err != nil {
				c.Violate("Get reported %v", err)
			}
			judge("Get", k, v, ok, raw)
		case 10:
			var ks []int
			for j := c.IntN(6); j > 0; j-- {
				ks = append(ks, c.IntN(nkeys))
			}
			vs, oks, err := s.mget(ks)
			c.Op("t=%v MGet(%v)=%v,%v,%v", now(), ks, vs, oks, err)
			if err != nil {
				c.Violate("MGet reported %v", err)
			}
			if len(vs) != len(ks) || len(oks) != len(ks) {
				c.Violate("MGet of %d keys returned %d values, %d flags", len(ks), len(vs), len(oks))
			}
			for i, k := range ks {
				judge("MGet", k, vs[i], oks[i], "")
			}
		case 11:
			var ks []int
			for j := c.IntN(4); j > 0; j-- {
				ks = append(ks, c.IntN(nkeys))
			}
			err := s.del(ks)
			c.Op("t=%v Delete(%v)=%v", now(), ks, err)
			if err != nil {
				c.Violate("Delete reported %v", err)
			}
			for _, k := range ks {
				delete(model, k)
				delete(keyFile, k)
			}
		case 12:
			if !c.Chance(3) {
				continue
			}
			err := s.purge()
			c.Op("t=%v Purge()=%v", now(), err)
			if err != nil {
				c.Violate("Purge reported %v", err)
			}
			clear(model)
			clear(keyFile)
		case 13:
			d := time.Duration(2*(1+c.IntN(10))) * unit
			if c.Chance(3) {
				d = mon.Pick(c, time.Second, 4*time.Second, 62*time.Second, 2*time.Hour)
			}
			time.Sleep(d)
			c.Op("advance %v", d)
		case 14:
			stores = append(stores, open(kind, dir, cycle()))
			c.Op("open another store")
			if len(stores) > 3 {
				stores = stores[1:]
			}
		case 15:
			p, ok := keyFile[k]
			if _, alive := live(k); !ok || !alive {
				continue
			}
			old, err := os.ReadFile(p)
			if err != nil || len(old) < 4 {
				continue
			}
			bad := mon.Pick(c, "", "null", "{}", "[]", "0", "\x00\x00\x00\x00", "trunc", "trunc", "junk", "{\"Data\":", "noise", "quote", "true", "\"\"", " ")
			switch bad {
			case "trunc":
				bad = string(old[:c.IntN(len(old)/2)])
			case "junk":
				bad = string(old) + "}"
			case "quote":
				bad = string(old) + string(old)
			case "noise":
				b := make([]byte, len(old))
				for i := range b {
					b[i] = byte(128 + c.IntN(128))
				}
				bad = string(b)
			}
			if err := os.WriteFile(p, []byte(bad), 0o666); err != nil {
				panic(err)
			}
			damages++
			v, ok, raw, err := s.get(k)
			c.Op("t=%v file of key %d damaged to %q: Get=%d,%v,%v", now(), k, bad, v, ok, err)
			if ok {
				c.Violate("Get of key %d, whose file was damaged to %q, returned %s", k, bad, raw)
			}
			cleanup()
			if _, err := os.Lstat(p); err == nil {
				c.Violate("the damaged file of key %d (%q) is still there after Get", k, bad)
			}
			v, ok, raw, err = s.get(k)
			if ok || err != nil {
				c.Violate("second Get of key %d, whose file was damaged, returned %d %s %v %v", k, v, raw, ok, err)
			}
			delete(model, k)
			delete(keyFile, k)
		}
		cleanup()
	}
	for _, k := range c.Perm(nkeys) {
		v, ok, raw, err := stores[0].get(k)
		c.Op("t=%v final Get(%d)=%d,%v,%v", now(), k, v, ok, err)
		if err != nil {
			c.Violate("Get reported %v", err)
		}
		judge("final Get", k, v, ok, raw)
		cleanup()
	}
	if err := stores[0].purge(); err != nil {
		c.Violate("Purge reported %v", err)
	}
	for k := 0; k < nkeys; k++ {
		if _, ok, raw, err := stores[0].get(k); ok || err != nil {
			c.Violate("after Purge key %d: %s %v %v", k, raw, ok, err)
		}
	}
	mon.Count("hits", hits)
	mon.Count("misses", misses)
	mon.Count("damaged_files", damages)
	if hits > 0 {
		c.Distinct(strings.Join(c.TraceStrings(), ";"))
	}
	c.SampleTrace()
}

// --- C09 ------------------------------------------------------------------

// ev is one observed effect on, or reading of, one key.
type ev struct {
	kind       byte // 's', 'd', 'g'
	client     int
	key, v     int
	ok         bool
	call, ret  int64
	from, to   time.Duration // virtual time of call and return
	ttl        time.Duration
	purge, all bool
}

func (e ev) String() string {
	switch e.kind {
	case 's':
		return fmt.Sprintf("[%d..%d] client %d: set key %d = %d ttl %v at %v..%v", e.call, e.ret, e.client, e.key, e.v, e.ttl, e.from, e.to)
	case 'd':
		return fmt.Sprintf("[%d..%d] client %d: delete key %d (purge %v)", e.call, e.ret, e.client, e.key, e.purge)
	}
	return fmt.Sprintf("[%d..%d] client %d: get key %d = %d %v at %v..%v", e.call, e.ret, e.client, e.key, e.v, e.ok, e.from, e.to)
}

type history struct {
	mu    sync.Mutex
	clock int64
	evs   []ev
	t0    time.Time
}

func (h *history) tick() (int64, time.Duration) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.clock++
	return h.clock, time.Since(h.t0)
}

func (h *history) add(es ...ev) {
	h.mu.Lock()
	h.evs = append(h.evs, es...)
	h.mu.Unlock()
	mon.Beat()
}

// judge checks every read against the writes of its key.
func (h *history) judge(c *mon.C, nkeys int) {
	byKey := map[int][]ev{}
	for _, e := range h.evs {
		byKey[e.key] = append(byKey[e.key], e)
	}
	dump := func(k int) string {
		var sb strings.Builder
		for _, e := range byKey[k] {
			sb.WriteString(e.String() + "\n")
		}
		return sb.String()
	}
	reads, races := 0, 0
	for k, evs := range byKey {
		for _, g := range evs {
			if g.kind != 'g' {
				continue
			}
			reads++
			for _, w := range evs {
				if w.kind != 'g' && w.call < g.ret && g.call < w.ret {
					races++
				}
			}
			if g.ok {
				var s *ev
				for i := range evs {
					if evs[i].kind == 's' && evs[i].v == g.v && evs[i].call < g.ret {
						s = &evs[i]
					}
				}
				if s == nil {
					c.Violate("read of a value no Set of key %d had written: %v\n%s", k, g, dump(k))
				}
				if s.ttl < time.Hour && g.from > s.to+s.ttl {
					c.Violate("expired value read: %v\n%s", g, dump(k))
				}
				for _, w := range evs {
					if w.kind != 'g' && w.call > s.ret && w.ret < g.call {
						c.Violate("read of a value that had been replaced or deleted before: %v after %v\n%s", g, w, dump(k))
					}
				}
				continue
			}
			// a miss needs a reason: some Set certainly in force and nothing that
			// could have taken it away
			for _, s := range evs {
				if s.kind != 's' || s.ret >= g.call || s.ttl < time.Hour && g.to >= s.from+s.ttl {
					continue
				}
				excuse := false
				for _, w := range evs {
					if w.kind == 'g' || w.ret < s.call || w.call > g.ret || w == s {
						continue
					}
					if w.kind == 'd' || w.kind == 's' && w.ttl < time.Hour && g.to >= w.from+w.ttl {
						excuse = true
					}
				}
				if !excuse {
					c.Violate("an entry disappeared: %v missed %v\n%s", g, s, dump(k))
				}
			}
		}
	}
	mon.Count("reads", reads)
	mon.Count("reads_overlapping_writes", races)
	if races > 0 {
		var sb strings.Builder
		for _, e := range h.evs {
			sb.WriteString(e.String())
		}
		c.Distinct(sb.String())
	}
}

type concur struct {
	kind, nkeys int
	dir         string
	st          store
	h           history
	foreign     map[string]string
	virtual     bool
	c           *mon.C
}

func newConcur(c *mon.C, virtual bool) (*concur, func()) {
	dir, done := scratch(c)
	r := &concur{kind: c.IntN(nKinds), nkeys: 1 + c.IntN(3), dir: dir, virtual: virtual, c: c, foreign: map[string]string{}}
	cycle := mon.Pick(c, time.Nanosecond, time.Nanosecond, time.Millisecond, 0)
	if !virtual && c.Chance(2) {
		cycle = time.Second
	}
	r.st = open(r.kind, dir, cycle)
	c.Op("kind=%d keys=%d cycle=%v dir=%s", r.kind, r.nkeys, cycle, filepath.Base(dir))
	for i := c.IntN(5); i > 0; i-- {
		name := mon.Pick(c, "notes.txt", "a/b/c.json", "data.cache", "x/y/z.cache", "abc/def/012/345/678/readme", "000/111/222/333/444/0123456789abcdef.txt", ".hidden", "empty", "000/111/x.cache.bak",
			"000/111/222/333/444/0123456789abcdef", "000/111/222/333/444/notes-of-the-day.cache", "000/111/222/333/0123456789abcdef.cache", "000/111/222/333/444/9.cache")
		p := filepath.Join(dir, name)
		_ = os.MkdirAll(filepath.Dir(p), 0o777)
		r.foreign[p] = mon.Pick(c, "", "not json", "{\"Data\":1,\"Exp\":1}", "null")
		if err := os.WriteFile(p, []byte(r.foreign[p]), 0o666); err != nil {
			panic(err)
		}
	}
	return r, done
}

type act struct {
	kind byte
	keys []int
	vals []int
	ttl  time.Duration
	nap  time.Duration
}

func (r *concur) plan(c *mon.C, calls int, val *int, purge bool) []act {
	var out []act
	for n := 1 + c.IntN(calls); n > 0; n-- {
		a := act{kind: mon.Pick[byte](c, 'g', 'g', 'g', 'g', 'G', 's', 's', 's', 'S', 'd', 'p'), ttl: 1000 * time.Hour}
		if a.kind == 'p' && !(purge && c.Chance(2)) {
			a.kind = 'g'
		}
		if a.kind == 'd' && c.Chance(2) {
			a.kind = 's'
		}
		m := 1
		if a.kind == 'G' || a.kind == 'S' || a.kind == 'd' {
			m = 1 + c.IntN(3)
		}
		used := map[int]bool{}
		for ; m > 0; m-- {
			k := c.IntN(r.nkeys)
			if a.kind == 'S' && used[k] {
				continue
			}
			used[k] = true
			a.keys = append(a.keys, k)
			*val++
			a.vals = append(a.vals, *val%maxVal)
		}
		if c.Chance(3) {
			a.ttl = -time.Hour
			if r.virtual {
				a.ttl = time.Duration(c.IntN(40000))
			}
		}
		if c.Chance(3) {
			a.nap = time.Duration(c.IntN(20000))
		}
		out = append(out, a)
	}
	return out
}

func (r *concur) do(client int, a act) {
	if a.nap > 0 {
		if r.virtual {
			time.Sleep(a.nap)
		} else if a.nap&1 == 0 {
			runtime.Gosched()
		}
	}
	call, from := r.h.tick()
	var es []ev
	var err error
	what := string(a.kind)
	switch a.kind {
	case 'g':
		v, ok, raw, e := r.st.get(a.keys[0])
		err = e
		if ok && v < 0 {
			r.c.Report("Get of key %d returned a value nobody stored: %.300s", a.keys[0], raw)
		}
		es = append(es, ev{kind: 'g', key: a.keys[0], v: v, ok: ok})
	case 'G':
		vs, oks, e := r.st.mget(a.keys)
		err = e
		if e == nil {
			for i, k := range a.keys {
				es = append(es, ev{kind: 'g', key: k, v: vs[i], ok: oks[i]})
			}
		}
	case 's':
		err = r.st.set(a.keys[0], a.vals[0], a.ttl)
		es = append(es, ev{kind: 's', key: a.keys[0], v: a.vals[0], ttl: a.ttl})
	case 'S':
		kvs := map[int]int{}
		for i, k := range a.keys {
			kvs[k] = a.vals[i]
			es = append(es, ev{kind: 's', key: k, v: a.vals[i], ttl: a.ttl})
		}
		err = r.st.mset(kvs, a.ttl)
	case 'd':
		err = r.st.del(a.keys)
		for _, k := range a.keys {
			es = append(es, ev{kind: 'd', key: k})
		}
	case 'p':
		err = r.st.purge()
		for k := 0; k < r.nkeys; k++ {
			es = append(es, ev{kind: 'd', key: k, purge: true})
		}
	}
	ret, to := r.h.tick()
	if err != nil {
		r.c.Report("call %s %v reported %v", what, a.keys, err)
	}
	for i := range es {
		es[i].client, es[i].call, es[i].ret, es[i].from, es[i].to = client, call, ret, from, to
	}
	r.h.add(es...)
}

func (r *concur) checkForeign() {
	for p, want := range r.foreign {
		if b, err := os.ReadFile(p); err != nil || string(b) != want {
			r.c.Report("a file the cache did not write was changed or removed: %s (%v)", strings.TrimPrefix(p, r.dir), err)
		}
	}
}

func TestC09Sched(t *testing.T) {
	mon.Cases(t, "concurrent/sched", mon.Num(3200, 80000), func(c *mon.C) {
		r, done := newConcur(c, true)
		defer done()
		n := 2 + c.IntN(3)
		val := 0
		purge := c.Chance(2)
		pre := r.plan(c, 6, &val, false)
		var ws []func()
		for i := 0; i < n; i++ {
			p := r.plan(c, 6, &val, purge)
			ws = append(ws, func() {
				for _, a := range p {
					r.do(i, a)
				}
			})
		}
		sched.Run(t, c, func() {
			r.h.t0 = time.Now()
			for _, a := range pre {
				r.do(n, a)
			}
		}, ws, func() {
			synctest.Wait()
			for k := 0; k < r.nkeys; k++ {
				r.do(n, act{kind: 'g', keys: []int{k}})
				synctest.Wait()
			}
			r.checkForeign()
		})
		r.h.judge(c, r.nkeys)
		mon.Count("foreign_files", len(r.foreign))
	})
}

func TestC09Stress(t *testing.T) {
	mon.Cases(t, "concurrent/stress", mon.Num(1500, 30000), func(c *mon.C) {
		r, done := newConcur(c, false)
		defer done()
		n := 2 + c.IntN(4)
		val := 0
		purge := c.Chance(3)
		r.h.t0 = time.Now()
		for _, a := range r.plan(c, 6, &val, false) {
			r.do(n, a)
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			p := r.plan(c, 20, &val, purge)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					for _, a := range p {
						r.do(i, a)
					}
				})
			}()
		}
		wg.Wait()
		for k := 0; k < r.nkeys; k++ {
			r.do(n, act{kind: 'g', keys: []int{k}})
		}
		waitCleanup()
		r.checkForeign()
		r.h.judge(c, r.nkeys)
	})
}

// waitCleanup waits until no clean-up goroutine runs any more.
func waitCleanup() {
	for strings.Contains(sched.Dump(), "gosb/library/cachex.") {
		runtime.Gosched()
		mon.Beat()
	}
}

// Clean-up by itself: expired and damaged entries go, everything else stays.
func TestC09Cleanup(t *testing.T) {
	mon.Cases(t, "cleanup/seq", mon.Num(1200, 20000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { cleanupCase(c) }) })
	})
}

func cleanupCase(c *mon.C) {
	r, done := newConcur(c, true)
	defer done()
	defer synctest.Wait()
	cycle := mon.Pick(c, 0, time.Second, 5*time.Second, time.Minute, 2*time.Hour)
	gap := cycle
	if gap == 0 {
		gap = time.Minute
	}
	r.st = open(r.kind, r.dir, cycle)
	n := 2 + c.IntN(10)
	if r.kind != 1 && r.kind != 7 {
		n = min(n, 8)
	}
	type fileOf struct {
		path string
		k    int
		kind int // 0 stays, 1 expired, 2 damaged
	}
	var all []fileOf
	rounds := 1 + c.IntN(3)
round:
	all = all[:0]
	if rounds--; rounds < 0 {
		mon.Count("foreign_files", len(r.foreign))
		c.Distinct(strings.Join(c.TraceStrings(), ";"), len(r.foreign))
		c.SampleTrace()
		return
	}
	if err := r.st.purge(); err != nil {
		c.Violate("Purge reported %v", err)
	}
	for k := 0; k < n; k++ {
		before := files(r.dir)
		kind := c.IntN(3)
		ttl := gap*4 + 2*time.Hour
		if kind == 1 {
			ttl = time.Duration(c.Int64N(int64(gap)))
		}
		if err := r.st.set(k, k+1, ttl); err != nil {
			c.Violate("Set reported %v", err)
		}
		var changed []string
		for p := range files(r.dir) {
			if _, ok := before[p]; !ok {
				changed = append(changed, p)
			}
		}
		if len(changed) != 1 {
			return // the entry is not one file, nothing to identify
		}
		if kind == 2 {
			bad := mon.Pick(c, "", "x", "null", "{", "[]")
			if err := os.WriteFile(changed[0], []byte(bad), 0o666); err != nil {
				panic(err)
			}
		}
		all = append(all, fileOf{changed[0], k, kind})
		c.Op("key %d kind %d ttl %v", k, kind, ttl)
	}
	time.Sleep(gap + 2*time.Second)
	// this call starts the clean-up; an unused key is asked for
	_, _, _, _ = r.st.get(n + 1)
	synctest.Wait()
	gone := 0
	for _, f := range all {
		_, err := os.Lstat(f.path)
		if f.kind == 0 && err != nil {
			c.Violate("clean-up removed key %d, which had not expired", f.k)
		}
		if f.kind != 0 && err == nil {
			c.Violate("key %d (%s) is still there after the clean-up cycle", f.k, []string{"", "expired", "damaged"}[f.kind])
		}
		if err != nil {
			gone++
		}
	}
	r.checkForeign()
	for _, f := range all {
		v, ok, _, err := r.st.get(f.k)
		if err != nil || ok != (f.kind == 0) || ok && v != f.k+1 {
			c.Violate("after clean-up key %d (kind %d) reads %d %v %v", f.k, f.kind, v, ok, err)
		}
		synctest.Wait()
	}
	mon.Count("cleaned_entries", gone)
	mon.Count("kept_entries", len(all)-gone)
	goto round
}
