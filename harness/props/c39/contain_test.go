// Monitor for C39: a panic (or runtime.Goexit) in code supplied by the caller,
// or caused by a key or value of a dynamic type that cannot be hashed or
// compared, ends that call only. The panic reaches the caller, other entries
// keep what they hold and no later call blocks.
//
// Every call runs in its own goroutine of a virtual-time bubble on the
// instrumented sources, so a lock left held shows as a call that never returns.
package c39

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
	"gosbverif/sched"
	"gosbverif/vsync"
)

func TestMain(m *testing.M) { mon.Main(m) }

var ctx = context.Background()

// boom is what the caller's code panics with.
type boom struct{ n int }

type end int

const (
	returned end = iota
	panicked
	exited
)

func (e end) String() string { return [...]string{"returned", "panicked", "exited"}[e] }

// try runs one call in its own goroutine and tells how it ended.
func try(f func()) (e end, val any) {
	done := make(chan struct{})
	e = exited
	go func() {
		defer close(done)
		defer func() {
			if e == exited {
				if val = recover(); val != nil {
					e = panicked
				}
			}
		}()
		f()
		e = returned
	}()
	<-done
	return e, val
}

// bomb goes off: it panics or exits the goroutine.
type bomb struct {
	how end
	b   *boom
}

func newBomb(c *mon.C) bomb {
	how := panicked
	if c.Chance(3) {
		how = exited
	}
	return bomb{how, &boom{c.IntN(1000)}}
}

func (b bomb) blow() {
	if b.how == exited {
		runtime.Goexit()
	}
	panic(b.b)
}

// reached checks that a call whose callback blew up ended the same way.
func (b bomb) reached(c *mon.C, what string, e end, val any) {
	mon.Count("panics and exits from callbacks", 1)
	if e != b.how {
		c.Violate("%s: the callback %v but the call %v (%v)", what, b.how, e, val)
	}
	if e == panicked && val != any(b.b) {
		c.Violate("%s: the callback panicked with %v, the caller received %v", what, b.b, val)
	}
}

// calm checks that a harmless call returned.
func calm(c *mon.C, what string, e end, val any) {
	if e != returned {
		c.Violate("%s %v: %v", what, e, val)
	}
}

// run executes the workers' steps concurrently and then final, all in virtual
// time; what has not returned after a virtual hour is blocked for good.
func run(t *testing.T, c *mon.C, workers int, step func(w int), steps int, final func()) {
	seed := c.Uint64()
	synctest.Test(t, func(t *testing.T) {
		vsync.Start(seed)
		var running atomic.Int32
		phase := func(what string, f func()) {
			running.Add(1)
			go func() {
				defer running.Add(-1)
				mon.Guard(c, f)
			}()
		}
		settle := func(what string) {
			for i := 0; i < 40 && running.Load() > 0; i++ {
				time.Sleep(time.Duration(1<<i) * time.Microsecond)
				if i > 31 {
					break
				}
			}
			synctest.Wait()
			if running.Load() > 0 {
				c.Report("%s: a call never returns\n%s", what, strings.Join(sched.CodeGoroutines(), "\n\n"))
				mon.Die()
			}
		}
		for w := 0; w < workers; w++ {
			phase("calls", func() {
				for i := 0; i < steps; i++ {
					step(w)
				}
			})
		}
		settle("calls")
		vsync.Stop()
		phase("final", final)
		settle("final calls")
		synctest.Wait()
	})
}

// --- concurrent map ----------------------------------------------------------

func unhashable(n int) any {
	switch n % 4 {
	case 0:
		return []int{n}
	case 1:
		return map[int]int{n: n}
	case 2:
		return func() {}
	default:
		return struct{ A any }{[]string{"x"}}
	}
}

func testMap(t *testing.T, c *mon.C) {
	var m gsync.Map[any, any]
	model := map[any]any{}
	nk := 1 + c.IntN(5)
	key := func(r *mon.C) any {
		k := r.IntN(nk)
		if k%2 == 0 {
			return k
		}
		return fmt.Sprint("k", k)
	}
	workers := 1
	if c.Chance(3) {
		workers = 2 + c.IntN(2)
	}
	rs := clients(c, workers)
	single := workers == 1
	step := func(w int) {
		r := rs[w]
		k, v := key(r), any(r.IntN(50))
		if r.Chance(6) {
			v = []int{r.IntN(5)} // may be stored, must not be compared
		}
		op := r.IntN(16)
		var e end
		var val any
		note := func(name string, args ...any) {
			c.Op("w%d %s %v", w, name, fmt.Sprint(args))
		}
		switch op {
		case 0, 1:
			note("Store", k, v)
			e, val = try(func() { m.Store(k, v) })
			calm(c, "Store", e, val)
			if single {
				model[k] = v
			}
		case 2, 3:
			note("Load", k)
			var got any
			var ok bool
			e, val = try(func() { got, ok = m.Load(k) })
			calm(c, "Load", e, val)
			if single {
				want, has := model[k]
				if ok != has || !reflect.DeepEqual(got, want) {
					c.Violate("Load(%v) = %v,%v, want %v,%v", k, got, ok, want, has)
				}
			}
		case 4, 5:
			note("Delete", k)
			e, val = try(func() { m.Delete(k) })
			calm(c, "Delete", e, val)
			if single {
				delete(model, k)
			}
		case 6:
			note("LoadOrStore", k, v)
			e, val = try(func() { m.LoadOrStore(k, v) })
			calm(c, "LoadOrStore", e, val)
			if _, has := model[k]; single && !has {
				model[k] = v
			}
		case 7:
			note("Swap", k, v)
			e, val = try(func() { m.Swap(k, v) })
			calm(c, "Swap", e, val)
			if single {
				model[k] = v
			}
		case 8, 9, 10:
			// the old value, or the one found, may be of a type that cannot be compared
			old := any(r.IntN(50))
			if r.Chance(2) {
				old = []int{r.IntN(5)}
			}
			if cur, has := model[k]; single && has && r.Chance(2) {
				old = cur
			}
			var done bool
			if op == 8 {
				note("CompareAndDelete", k, old)
				e, val = try(func() { done = m.CompareAndDelete(k, old) })
			} else {
				note("CompareAndSwap", k, old, v)
				e, val = try(func() { done = m.CompareAndSwap(k, old, v) })
			}
			if e == panicked {
				mon.Count("comparisons of uncomparable values", 1)
				if reflect.TypeOf(old).Comparable() {
					c.Violate("comparing with %v panicked: %v", old, val)
				}
			} else if done && single {
				if cur, has := model[k]; !has || !reflect.DeepEqual(cur, old) {
					c.Violate("exchanged %v for %v, but the map held %v,%v", old, v, cur, has)
				}
				if op == 8 {
					delete(model, k)
				} else {
					model[k] = v
				}
			} else if single {
				if cur, has := model[k]; has && reflect.TypeOf(old).Comparable() && cur == old {
					c.Violate("%v was not exchanged", old)
				}
			}
		case 11, 12:
			bad := unhashable(r.IntN(8))
			which := r.IntN(8)
			note("unhashable", which)
			e, val = try(func() {
				switch which {
				case 0:
					m.Store(bad, v)
				case 1:
					m.Load(bad)
				case 2:
					m.LoadOrStore(bad, v)
				case 3:
					m.Delete(bad)
				case 4:
					m.Swap(bad, v)
				case 5:
					m.CompareAndSwap(bad, 1, 2)
				case 6:
					m.CompareAndDelete(bad, 1)
				default:
					m.LoadAndDelete(bad)
				}
			})
			mon.Count("unhashable keys", 1)
			if (which == 0 || which == 2 || which == 4) && e == returned {
				c.Violate("storing under an unhashable key returned")
			}
		default:
			b := newBomb(r)
			at := r.IntN(3)
			note("Range", at, b.how)
			i := 0
			e, val = try(func() {
				m.Range(func(k, v any) bool {
					if i++; i > at {
						b.blow()
					}
					return true
				})
			})
			if i > at {
				b.reached(c, "Range", e, val)
			} else {
				calm(c, "Range", e, val)
			}
		}
	}
	run(t, c, workers, step, 6+c.IntN(20), func() {
		// every key is still usable
		for i := 0; i < nk; i++ {
			k := any(i)
			if i%2 == 1 {
				k = fmt.Sprint("k", i)
			}
			got, ok := m.Load(k)
			if want, has := model[k]; single && (ok != has || !reflect.DeepEqual(got, want)) {
				c.Violate("at the end Load(%v) = %v,%v, want %v,%v", k, got, ok, want, has)
			}
			m.Store(k, "fin")
			if got, ok := m.Load(k); !ok || got != "fin" {
				c.Violate("at the end Load(%v) after Store = %v,%v", k, got, ok)
			}
		}
		m.Store("fresh", 1)
		seen := 0
		m.Range(func(k, v any) bool { seen++; return true })
		if seen != nk+1 {
			c.Violate("at the end Range saw %d keys, want %d", seen, nk+1)
		}
	})
}

// clients gives each worker its own random numbers.
func clients(c *mon.C, n int) []*mon.C {
	if n == 1 {
		return []*mon.C{c}
	}
	var out []*mon.C
	for i := 0; i < n; i++ {
		out = append(out, &mon.C{Rand: mon.NewRand(c.Uint64())})
	}
	return out
}

// --- bit set -------------------------------------------------------------------

func testBitSet(t *testing.T, c *mon.C) {
	init := make([]byte, c.IntN(4))
	for i := range init {
		init[i] = byte(c.IntN(256))
	}
	model := []bool{}
	for _, x := range init {
		for i := 7; i >= 0; i-- {
			model = append(model, x>>i&1 == 1)
		}
	}
	s := bitset.New(init...)
	workers := 1
	if c.Chance(3) {
		workers = 2 + c.IntN(2)
	}
	single := workers == 1
	rs := clients(c, workers)
	step := func(w int) {
		r := rs[w]
		note := func(name string, args ...any) {
			c.Op("w%d %s %v", w, name, fmt.Sprint(args))
		}
		switch r.IntN(8) {
		case 0, 1, 2:
			at, on := r.IntN(40), r.Chance(2)
			note("Set", at, on)
			var old bool
			e, val := try(func() { old, _ = s.Set(at, on) })
			calm(c, "Set", e, val)
			if single {
				for len(model) <= at || len(model)%8 != 0 {
					model = append(model, false)
				}
				if old != model[at] {
					c.Violate("Set(%d) returned %v", at, old)
				}
				model[at] = on
			}
		case 3:
			note("Count")
			var got int
			e, val := try(func() { got = s.Count(0, -1) })
			calm(c, "Count", e, val)
			want := 0
			for _, b := range model {
				if b {
					want++
				}
			}
			if single && got != want {
				c.Violate("Count = %d, want %d", got, want)
			}
		case 4:
			note("Set far")
			e, _ := try(func() { _, err := s.Set(math.MaxInt, true); _ = err })
			if e == exited {
				c.Violate("Set(MaxInt) exited")
			}
			mon.Count("impossible offsets", 1)
		case 5:
			note("And nil")
			_, _ = try(func() {
				switch r.IntN(4) {
				case 0:
					s.And(s, nil)
				case 1:
					s.Or(nil)
				case 2:
					s.Xor(s, nil)
				default:
					s.AndNot(nil, s)
				}
			})
			mon.Count("nil operands", 1)
		default:
			b := newBomb(r)
			at := r.IntN(20)
			note("Range", at, b.how)
			i := 0
			e, val := try(func() {
				s.Range(func(int, bool) bool {
					if i++; i > at {
						b.blow()
					}
					return true
				})
			})
			if i > at {
				b.reached(c, "Range", e, val)
			} else {
				calm(c, "Range", e, val)
			}
		}
	}
	run(t, c, workers, step, 4+c.IntN(12), func() {
		if single {
			var sb strings.Builder
			for _, b := range model {
				if b {
					sb.WriteByte('1')
				} else {
					sb.WriteByte('0')
				}
			}
			if got := s.Binary(""); got != sb.String() {
				c.Violate("at the end the bits are %s, want %s", got, sb.String())
			}
		}
		if _, err := s.Set(77, true); err != nil || !s.Get(77) {
			c.Violate("at the end a bit cannot be set: %v", err)
		}
		s.Clear()
	})
}

// --- LRU -------------------------------------------------------------------------

func testLRU(t *testing.T, c *mon.C) {
	nk := 1 + c.IntN(4)
	l := cachex.NewLRUCacheV2[any, int](nk, 0)
	model := map[any]int{}
	workers := 1
	if c.Chance(3) {
		workers = 2 + c.IntN(2)
	}
	single := workers == 1
	rs := clients(c, workers)
	step := func(w int) {
		r := rs[w]
		note := func(name string, args ...any) {
			c.Op("w%d %s %v", w, name, fmt.Sprint(args))
		}
		k := any(r.IntN(nk))
		keys := []any{}
		for i := r.IntN(4); i > 0; i-- {
			keys = append(keys, any(r.IntN(nk)))
		}
		bad := unhashable(r.IntN(8))
		mixed := append([]any(nil), keys...)
		at := r.IntN(len(mixed) + 1)
		mixed = append(mixed[:at], append([]any{bad}, mixed[at:]...)...)
		switch r.IntN(10) {
		case 0, 1:
			v := r.IntN(100)
			note("Set", k, v)
			e, val := try(func() { l.Set(ctx, k, v, time.Hour) })
			calm(c, "Set", e, val)
			if single {
				model[k] = v
			}
		case 2, 3:
			note("Get", k)
			var got int
			var ok bool
			e, val := try(func() { got, ok, _ = l.Get(ctx, k) })
			calm(c, "Get", e, val)
			if want, has := model[k]; single && (ok != has || got != want) {
				c.Violate("Get(%v) = %v,%v, want %v,%v", k, got, ok, want, has)
			}
		case 4:
			note("Delete", keys)
			e, val := try(func() { l.Delete(ctx, keys...) })
			calm(c, "Delete", e, val)
			if single {
				for _, k := range keys {
					delete(model, k)
				}
			}
		case 5:
			note("Set unhashable")
			e, _ := try(func() { l.Set(ctx, bad, 1, time.Hour) })
			if e == returned {
				c.Violate("Set with an unhashable key returned")
			}
			mon.Count("unhashable keys", 1)
		case 6:
			note("Get unhashable")
			try(func() { l.Get(ctx, bad) })
			mon.Count("unhashable keys", 1)
		case 7:
			note("MGet unhashable", at, keys)
			try(func() { l.MGet(ctx, mixed...) })
			mon.Count("unhashable keys", 1)
		case 8:
			note("Delete unhashable", at, keys)
			try(func() { l.Delete(ctx, mixed...) })
			mon.Count("unhashable keys", 1)
			if single { // the others of this call may be gone or not
				for _, k := range keys {
					v, ok, _ := l.Get(ctx, k)
					if want, has := model[k]; ok && (!has || v != want) {
						c.Violate("Get(%v) = %v after a failed Delete, the model holds %v,%v", k, v, want, has)
					}
					if !ok {
						delete(model, k)
					}
				}
			}
		default:
			kvs := map[any]int{}
			for _, k := range keys {
				kvs[k] = r.IntN(100)
			}
			note("MSet", kvs)
			e, val := try(func() { l.MSet(ctx, kvs, time.Hour) })
			calm(c, "MSet", e, val)
			if single {
				for k, v := range kvs {
					model[k] = v
				}
			}
		}
	}
	run(t, c, workers, step, 4+c.IntN(16), func() {
		for i := 0; i < nk; i++ {
			got, ok, _ := l.Get(ctx, i)
			if want, has := model[i]; single && (ok != has || got != want) {
				c.Violate("at the end Get(%v) = %v,%v, want %v,%v", i, got, ok, want, has)
			}
		}
		for i := 0; i < nk; i++ {
			l.Set(ctx, i, -i, time.Hour)
		}
		for i := 0; i < nk; i++ {
			if got, ok, _ := l.Get(ctx, i); !ok || got != -i {
				c.Violate("at the end Get(%v) after Set = %v,%v", i, got, ok)
			}
		}
	})
}

// --- file cache --------------------------------------------------------------------

// entry is a cached value whose encoding or decoding blows up on demand.
type entry struct {
	N    int
	Mode string // "", "m" when marshalled, "u" when unmarshalled; upper case exits
}

var fileBoom = &boom{4711}

func (e entry) MarshalJSON() ([]byte, error) {
	switch e.Mode {
	case "m":
		panic(fileBoom)
	case "M":
		runtime.Goexit()
	}
	return json.Marshal([]any{e.N, e.Mode})
}

func (e *entry) UnmarshalJSON(b []byte) error {
	var raw []any
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	e.N, e.Mode = int(raw[0].(float64)), raw[1].(string)
	switch e.Mode {
	case "u":
		panic(fileBoom)
	case "U":
		runtime.Goexit()
	}
	return nil
}

func want(mode string) bomb {
	if mode == "M" || mode == "U" {
		return bomb{exited, fileBoom}
	}
	return bomb{panicked, fileBoom}
}

func testFile(t *testing.T, c *mon.C) {
	root, err := os.MkdirTemp("", "c39")
	if err != nil {
		mon.Errorf("%v", err)
		return
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "cache")
	cycle := time.Hour
	if c.Chance(2) {
		cycle = time.Second
	}
	f := &cachex.FileStore[string, entry]{Dir: dir, GCCycle: cycle}
	model := map[string]entry{}
	workers := 1
	if c.Chance(4) {
		workers = 2
	}
	single := workers == 1
	rs := clients(c, workers)
	names := []string{"a", "b", "c"}[:1+c.IntN(3)]
	step := func(w int) {
		r := rs[w]
		note := func(name string, args ...any) {
			c.Op("w%d %s %v", w, name, fmt.Sprint(args))
		}
		k := mon.Pick(r, names...)
		switch r.IntN(9) {
		case 0, 1, 2:
			v := entry{r.IntN(100), mon.Pick(r, "", "", "u", "U", "m", "M")}
			note("Set", k, v)
			e, val := try(func() { f.Set(ctx, k, v, 24*time.Hour) })
			if v.Mode == "m" || v.Mode == "M" {
				want(v.Mode).reached(c, "Set", e, val)
			} else {
				calm(c, "Set", e, val)
				if single {
					model[k] = v
				}
			}
		case 3, 4, 5:
			note("Get", k)
			var got entry
			var ok bool
			var err error
			e, val := try(func() { got, ok, err = f.Get(ctx, k) })
			if !single {
				return
			}
			cur, has := model[k]
			if has && cur.Mode != "" {
				if e == returned && err != nil { // reported instead: the entry may be dropped
					delete(model, k)
					return
				}
				want(cur.Mode).reached(c, "Get", e, val)
				return
			}
			calm(c, "Get", e, val)
			if ok != has || got != cur || err != nil {
				c.Violate("Get(%s) = %v,%v,%v, want %v,%v", k, got, ok, err, cur, has)
			}
		case 6:
			note("Delete", k)
			e, val := try(func() { f.Delete(ctx, k) })
			calm(c, "Delete", e, val)
			if single {
				delete(model, k)
			}
		case 7:
			note("MGet", names)
			bad := false
			var vals []entry
			var oks []bool
			e, val := try(func() { vals, oks, _ = f.MGet(ctx, names...) })
			for _, n := range names {
				if single && model[n].Mode != "" {
					bad = true
				}
			}
			if single && !bad {
				calm(c, "MGet", e, val)
				for i, n := range names {
					if cur, has := model[n]; oks[i] != has || vals[i] != cur {
						c.Violate("MGet: %s is %v,%v, want %v,%v", n, vals[i], oks[i], cur, has)
					}
				}
			}
		default:
			d := time.Duration(r.IntN(3000)) * time.Millisecond
			note("wait", d)
			time.Sleep(d)
		}
	}
	run(t, c, workers, step, 4+c.IntN(16), func() {
		for _, k := range names {
			if e, val := try(func() { f.Set(ctx, k, entry{N: 7}, 24*time.Hour) }); e != returned {
				c.Violate("at the end Set %v: %v", e, val)
			}
			got, ok, err := f.Get(ctx, k)
			if !ok || err != nil || got.N != 7 {
				c.Violate("at the end Get(%s) after Set = %v,%v,%v", k, got, ok, err)
			}
		}
		if cycle != time.Second {
			return
		}
		// clean-up still works
		f.Set(ctx, "dead", entry{N: 1}, time.Millisecond)
		files := func() (n int) {
			filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() {
					n++
				}
				return nil
			})
			return n
		}
		if files() != len(names)+1 {
			c.Violate("%d files for %d entries", files(), len(names)+1)
		}
		for i := 0; i < 4; i++ {
			time.Sleep(2 * time.Second)
			f.Get(ctx, names[0])
		}
		time.Sleep(2 * time.Second)
		if n := files(); n != len(names) {
			c.Violate("an entry that expired long ago was not cleaned up: %d files for %d entries", n, len(names))
		}
	})
}

// --- pool --------------------------------------------------------------------------

func testPool(t *testing.T, c *mon.C) {
	var b *bomb
	n := 0
	p := gpool.New(func() int {
		if b != nil {
			b.blow()
		}
		n++
		return n
	})
	run(t, c, 1, func(int) {
		switch c.IntN(3) {
		case 0:
			bb := newBomb(c)
			c.Op("Get with failing New (%v)", bb.how)
			b = &bb
			before := n
			var got int
			e, val := try(func() { got = p.Get() })
			if e == returned && got > 0 && n == before {
				break // a pooled value
			}
			bb.reached(c, "Get", e, val)
		case 1:
			b = nil
			c.Op("Get")
			var got int
			e, val := try(func() { got = p.Get() })
			calm(c, "Get", e, val)
			if got < 1 || got > n {
				c.Violate("Get = %d", got)
			}
		default:
			x := 1 + c.IntN(n+1)
			if x > n {
				break
			}
			c.Op("Put %d", x)
			p.Put(x)
		}
		b = nil
	}, 3+c.IntN(8), func() {})
}

// --- tree and heap: failing comparison and filter -------------------------------------

func testTree(t *testing.T, c *mon.C) {
	var b *bomb
	left := 0
	fired := false
	less := func(x, y int) bool {
		if b != nil {
			if left == 0 {
				fired = true
				b.blow()
			}
			left--
		}
		return x < y
	}
	tr := rbt.New[int, int](less)
	model := map[int]int{}
	check := func() {
		var keys []int
		for k := range model {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		got := tr.Keys()
		if len(got) == 0 {
			got = nil
		}
		if !reflect.DeepEqual(got, keys) || tr.Len() != len(keys) {
			c.Violate("the tree holds %v (Len %d), want %v", got, tr.Len(), keys)
		}
		for i, k := range keys {
			if v := tr.Values()[i]; v != model[k] {
				c.Violate("value of %d is %d, want %d", k, v, model[k])
			}
		}
	}
	run(t, c, 1, func(int) {
		k, v := c.IntN(12), c.IntN(100)
		which := c.IntN(6)
		fired, b = false, nil
		var bb bomb
		if c.Chance(2) {
			bb = newBomb(c)
			b, left = &bb, c.IntN(5)
		}
		c.Op("call %d key %d value %d failing %v after %d", which, k, v, b != nil, left)
		e, val := try(func() {
			switch which {
			case 0, 1:
				tr.Insert(k, v)
			case 2:
				tr.Update(k, v)
			case 3:
				tr.Delete(k)
			case 4:
				tr.Search(k)
			default:
				tr.GetIf(func(x int) bool {
					if b != nil {
						if left == 0 {
							fired = true
							b.blow()
						}
						left--
					}
					return x > k
				})
			}
		})
		b = nil
		if fired {
			bb.reached(c, "call", e, val)
		} else {
			calm(c, "call", e, val)
			_, has := model[k]
			switch which {
			case 0, 1:
				if !has {
					model[k] = v
				} else {
					model[k] = tr.Get(k) // what Insert does with a present key is C15's business
				}
			case 2:
				if has {
					model[k] = v
				}
			case 3:
				delete(model, k)
			}
		}
		check()
	}, 6+c.IntN(20), func() {})
}

func testHeap(t *testing.T, c *mon.C) {
	var b *bomb
	left := 0
	fired := false
	less := func(x, y int) bool {
		if b != nil {
			if left == 0 {
				fired = true
				b.blow()
			}
			left--
		}
		return x < y
	}
	h := gheap.New(less)
	n := 0
	run(t, c, 1, func(int) {
		b = nil
		c.Op("Push")
		x := c.IntN(50)
		e, val := try(func() { gheap.Push(h, x) })
		calm(c, "Push", e, val)
		n++
		if n > 2 && c.Chance(4) {
			bb := newBomb(c)
			b, left, fired = &bb, c.IntN(2), false
			c.Op("Push failing after %d", left)
			e, val := try(func() { gheap.Push(h, 7) })
			b = nil
			if fired {
				bb.reached(c, "Push", e, val)
			} else {
				calm(c, "Push", e, val)
			}
		}
	}, 3+c.IntN(8), func() {})
}

func TestC39(t *testing.T) {
	mon.Cases(t, "contain", mon.Num(9000, 400000), func(c *mon.C) {
		kind := c.IntN(14)
		switch kind {
		case 0, 1, 2, 3:
			kind = 0
			testMap(t, c)
		case 4, 5:
			kind = 1
			testBitSet(t, c)
		case 6, 7:
			kind = 2
			testLRU(t, c)
		case 8, 9, 10:
			kind = 3
			testFile(t, c)
		case 11:
			kind = 4
			testPool(t, c)
		case 12:
			kind = 5
			testTree(t, c)
		default:
			kind = 6
			testHeap(t, c)
		}
		mon.Count([]string{"map", "bit set", "LRU", "file cache", "pool", "tree", "heap"}[kind], 1)
		c.Distinct(kind, c.TraceStrings())
	})
}
