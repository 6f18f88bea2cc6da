// Monitors for C06 (sequential rules) and C07 (atomicity) of the LRU cache.
package c06

import (
	"container/list"
	"context"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/hist"
	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

var ctx = context.Background()

// --- the model ------------------------------------------------------------

// ent is one held entry; exp is the virtual instant (ns) at which it expires.
type ent struct {
	k, v, used int
	exp        int64
}

// lru holds the entries, most recent first. States are immutable.
type lru []ent

func (s lru) find(k int) int {
	for i, e := range s {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (s lru) without(i int) lru {
	out := make(lru, 0, len(s))
	out = append(out, s[:i]...)
	return append(out, s[i+1:]...)
}

func (s lru) front(e ent) lru { return append(lru{e}, s...) }

func (s lru) get(k, maxUsed int, now int64) (lru, int, bool) {
	i := s.find(k)
	if i < 0 {
		return s, 0, false
	}
	e := s[i]
	if e.exp < now || maxUsed > 0 && e.used >= maxUsed {
		return s.without(i), 0, false
	}
	if maxUsed > 0 {
		e.used++
	}
	return s.without(i).front(e), e.v, true
}

func (s lru) set(k, v int, exp int64, capacity int) lru {
	if i := s.find(k); i >= 0 {
		s = s.without(i)
	}
	s = s.front(ent{k, v, 0, exp})
	if len(s) > capacity {
		s = s[:capacity]
	}
	return s
}

func (s lru) key() string { return fmt.Sprint([]ent(s)) }

type hit struct {
	v  int
	ok bool
}

type kv struct{ k, v int }

// op is one call; now is fixed for sequential runs.
type op struct {
	kind byte // 'g' Get, 'G' MGet, 's' Set, 'S' MSet, 'd' Delete
	keys []int
	kvs  []kv
	ttl  time.Duration
}

func (o op) String() string {
	switch o.kind {
	case 'g':
		return fmt.Sprintf("Get(%d)", o.keys[0])
	case 'G':
		return fmt.Sprintf("MGet%v", o.keys)
	case 's':
		return fmt.Sprintf("Set(%v,ttl=%v)", o.kvs[0], o.ttl)
	case 'S':
		return fmt.Sprintf("MSet(%v,ttl=%v)", o.kvs, o.ttl)
	}
	return fmt.Sprintf("Delete%v", o.keys)
}

// apply returns the possible next states given the observed result.
func (s lru) apply(o op, out []hit, capacity, maxUsed int, now int64) []lru {
	switch o.kind {
	case 'g', 'G':
		for j, k := range o.keys {
			var v int
			var ok bool
			s, v, ok = s.get(k, maxUsed, now)
			if ok != out[j].ok || ok && v != out[j].v {
				return nil
			}
		}
		return []lru{s}
	case 'd':
		for _, k := range o.keys {
			if i := s.find(k); i >= 0 {
				s = s.without(i)
			}
		}
		return []lru{s}
	}
	exp := now + int64(o.ttl)
	if o.ttl > 0 && exp < now {
		exp = math.MaxInt64
	}
	var res []lru
	seen := map[string]bool{}
	perms(len(o.kvs), func(p []int) {
		t := s
		for _, i := range p {
			t = t.set(o.kvs[i].k, o.kvs[i].v, exp, capacity)
		}
		if k := t.key(); !seen[k] {
			seen[k] = true
			res = append(res, t)
		}
	})
	return res
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i >= n-1 {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// --- the real thing, for several key and value types -------------------------

type cache interface {
	do(o op) ([]hit, string)
	keep()
}

type typed[K comparable, V any] struct {
	c  *cachex.LRUCacheV2[K, V]
	k  func(int) K
	v  func(int) V
	rv func(V) int

	// what MGet returned, for one goroutine
	seq   bool
	vals  mon.Ledger[V]
	flags mon.Ledger[bool]
}

func (t *typed[K, V]) keep() { t.seq = true }

// do makes the call; the string describes a malformed result.
func (t *typed[K, V]) do(o op) ([]hit, string) {
	var ks []K
	for _, k := range o.keys {
		ks = append(ks, t.k(k))
	}
	var err error
	switch o.kind {
	case 'g':
		v, ok, err := t.c.Get(ctx, ks[0])
		if err != nil {
			return nil, "error " + err.Error()
		}
		h := hit{ok: ok}
		if ok {
			h.v = t.rv(v)
		}
		return []hit{h}, ""
	case 'G':
		vs, oks, err := t.c.MGet(ctx, ks...)
		if err != nil {
			return nil, "error " + err.Error()
		}
		if len(vs) != len(ks) || len(oks) != len(ks) {
			return nil, fmt.Sprintf("%d keys, %d values, %d hits", len(ks), len(vs), len(oks))
		}
		out := make([]hit, len(ks))
		for i := range out {
			out[i].ok = oks[i]
			if oks[i] {
				out[i].v = t.rv(vs[i])
			}
		}
		if t.seq {
			msg := t.vals.Put("MGet", vs, *new(V))
			if m := t.flags.Put("MGet", oks, true); m != "" {
				msg = m
			}
			return out, msg
		}
		return out, ""
	case 's':
		err = t.c.Set(ctx, t.k(o.kvs[0].k), t.v(o.kvs[0].v), o.ttl)
	case 'S':
		m := map[K]V{}
		for _, e := range o.kvs {
			m[t.k(e.k)] = t.v(e.v)
		}
		err = t.c.MSet(ctx, m, o.ttl)
		if len(m) != len(o.kvs) {
			return nil, "MSet changed the caller's map"
		}
	case 'd':
		err = t.c.Delete(ctx, ks...)
	}
	if err != nil {
		return nil, "error " + err.Error()
	}
	return nil, ""
}

type skey struct {
	A int
	B string
}

var ptrs [64]*int

func init() {
	for i := range ptrs {
		ptrs[i] = new(int)
	}
}

type box struct{ n int }

func mk[K comparable, V any](c *cachex.LRUCacheV2[K, V], k func(int) K, v func(int) V, rv func(V) int) cache {
	return &typed[K, V]{c: c, k: k, v: v, rv: rv}
}

func newCache(kind, capacity, maxUsed int) cache {
	id := func(i int) int { return i }
	switch kind {
	case 0:
		return mk(cachex.NewLRUCacheV2[int, int](capacity, maxUsed), id, id, id)
	case 1:
		return mk(cachex.NewLRUCacheV2[string, string](capacity, maxUsed),
			func(i int) string { return strings.Repeat("k", i) }, func(i int) string { return fmt.Sprint(i) },
			func(s string) (n int) { n = -1; fmt.Sscan(s, &n); return })
	case 2:
		return mk(cachex.NewLRUCacheV2[skey, []int](capacity, maxUsed),
			func(i int) skey { return skey{i % 2, fmt.Sprint(i / 2)} }, func(i int) []int { return []int{i} },
			func(s []int) int {
				if len(s) != 1 {
					return -1
				}
				return s[0]
			})
	case 3:
		return mk(cachex.NewLRUCacheV2[any, any](capacity, maxUsed),
			func(i int) any {
				// different types with equal looks
				return []any{i / 5, fmt.Sprint(i / 5), int8(i / 5), [1]int{i / 5}, nil}[min(i%5, 4)]
			}, func(i int) any {
				if i%5 == 0 {
					return box{i}
				}
				return i
			},
			func(v any) int {
				switch x := v.(type) {
				case box:
					return x.n
				case int:
					return x
				}
				return -1
			})
	case 4:
		return mk(cachex.NewLRUCacheV2[*int, *box](capacity, maxUsed),
			func(i int) *int { return ptrs[i] }, func(i int) *box { return &box{i} },
			func(b *box) int {
				if b == nil {
					return -1
				}
				return b.n
			})
	}
	return mk(cachex.NewLRUCacheV2[[2]uint8, error](capacity, maxUsed),
		func(i int) [2]uint8 { return [2]uint8{uint8(i), uint8(-i)} }, func(i int) error { return fmt.Errorf("%d", i) },
		func(e error) (n int) { n = -1; fmt.Sscan(e.Error(), &n); return })
}

// keyspace keeps keys of kind 3 distinct (nil would repeat).
func fixKey(kind, k int) int {
	if kind == 3 && k%5 == 4 && k > 4 {
		return k - 1
	}
	return k
}

func genOp(c *mon.C, kind, nkeys int, val *int, many int, ttl func() time.Duration) op {
	key := func() int { return fixKey(kind, c.IntN(nkeys)) }
	fresh := func() int { *val++; return *val }
	switch c.IntN(10) {
	case 0, 1, 2:
		return op{kind: 'g', keys: []int{key()}}
	case 3:
		o := op{kind: 'G'}
		for n := c.IntN(many + 2); n > 0; n-- {
			o.keys = append(o.keys, key())
		}
		if c.Chance(3) && len(o.keys) > 0 {
			o.keys = append(o.keys, o.keys[0])
		}
		return o
	case 4, 5, 6, 7:
		return op{kind: 's', kvs: []kv{{key(), fresh()}}, ttl: ttl()}
	case 8:
		o := op{kind: 'S', ttl: ttl()}
		used := map[int]bool{}
		for n := c.IntN(many + 1); n > 0; n-- {
			if k := key(); !used[k] {
				used[k] = true
				o.kvs = append(o.kvs, kv{k, fresh()})
			}
		}
		return o
	}
	o := op{kind: 'd'}
	for n := c.IntN(4); n > 0; n-- {
		o.keys = append(o.keys, key())
	}
	return o
}

// --- C06 ------------------------------------------------------------------

func TestC06(t *testing.T) {
	mon.Cases(t, "rules/seq", mon.Num(9000, 250000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) {
			mon.Guard(c, func() { seqCase(c) })
		})
	})
}

func seqCase(c *mon.C) {
	kind := c.IntN(6)
	if c.Chance(50) {
		size := -mon.Pick(c, 0, 0, 1, 7)
		if _, ok := mon.Try(func() { newCache(kind, size, c.IntN(3)) }); ok {
			c.Violate("a cache of capacity %d was made, a panic is documented", size)
		}
	}
	capacity := mon.Pick(c, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12)
	if c.Chance(10) {
		capacity = min(40, 1+c.Size(39))
	}
	maxUsed := mon.Pick(c, 0, 0, 0, 1, 1, 2, 3, 5)
	nkeys := min(60, capacity+1+c.IntN(4)+c.IntN(1+capacity))
	if c.Chance(6) {
		nkeys = 1 + c.IntN(capacity)
	}
	cc := newCache(kind, capacity, maxUsed)
	cc.keep()
	c.Op("kind=%d capacity=%d maxUsed=%d keys=%d", kind, capacity, maxUsed, nkeys)
	states := []lru{nil}
	start := time.Now()
	now := func() int64 { return int64(time.Since(start)) }
	val, hits, evictions, expired := 0, 0, 0, 0
	// TTLs are odd multiples of the unit, waits even ones: the clock never stands
	// exactly on an expiry
	unit := mon.Pick(c, time.Nanosecond, time.Microsecond, time.Millisecond, time.Millisecond)
	ttl := func() time.Duration {
		switch c.IntN(6) {
		case 0:
			return time.Duration(1+2*c.IntN(6)) * unit
		case 1:
			return time.Duration(1+2*c.IntN(40)) * unit
		case 2:
			return mon.Pick(c, -unit, -time.Hour, -1)
		case 3:
			return mon.Pick(c, 100*365*24*time.Hour, math.MaxInt64, math.MaxInt64-time.Hour)
		}
		return time.Hour + unit
	}
	step := func(o op) {
		out, bad := cc.do(o)
		c.Op("t=%v %v -> %v", time.Since(start), o, out)
		if bad != "" {
			c.Violate("%v: %s", o, bad)
		}
		var next []lru
		seen := map[string]bool{}
		for _, s := range states {
			for _, n := range s.apply(o, out, capacity, maxUsed, now()) {
				if k := n.key(); !seen[k] {
					seen[k] = true
					next = append(next, n)
				}
			}
		}
		if len(next) == 0 {
			c.Violate("%v returned %v; the rules allow that in none of the %d possible states, for example %v (capacity %d, uses %d)", o, out, len(states), states[0], capacity, maxUsed)
		}
		for _, h := range out {
			if h.ok {
				hits++
			}
		}
		if len(o.kvs) > 0 && len(states[0]) == capacity {
			evictions++
		}
		states = next
	}
	for n := 5 + c.IntN(60); n > 0; n-- {
		if c.Chance(8) {
			d := time.Duration(2*(1+c.IntN(20))) * unit
			if c.Chance(20) {
				d = 2 * time.Hour
			}
			time.Sleep(d)
			expired++
		}
		many := 4
		if len(states) > 50 {
			many = 1
		}
		step(genOp(c, kind, nkeys, &val, many, ttl))
	}
	// what is left in the cache
	for _, k := range c.Perm(nkeys) {
		step(op{kind: 'g', keys: []int{fixKey(kind, k)}})
	}
	mon.Count("hits", hits)
	mon.Count("sets_at_capacity", evictions)
	mon.Count("clock_advances", expired)
	if hits > 0 && evictions > 0 {
		c.Distinct(strings.Join(c.TraceStrings(), ";"))
	}
	c.SampleTrace()
}

// A cache of thousands of entries beside a model with a real recency list; every
// call is one whose outcome the rules fix.
func TestC06Huge(t *testing.T) {
	mon.Cases(t, "rules/huge", mon.Num(150, 6000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) {
			mon.Guard(c, func() { hugeCase(c) })
		})
	})
}

type slot struct {
	k, v, used int
	exp        time.Time
}

func hugeCase(c *mon.C) {
	kind := mon.Pick(c, 0, 0, 2)
	capacity := c.BigTo(1, 6000, 140000)
	maxUsed := mon.Pick(c, 0, 0, 1, 3, 200)
	worn := c.Chance(6) // few entries, served very often
	if worn {
		capacity = 1 + c.IntN(3)
		maxUsed = mon.Pick(c, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 70000) + c.IntN(3) - 1
	}
	nkeys := capacity + 1 + c.IntN(capacity)
	cc := newCache(kind, capacity, maxUsed)
	cc.keep()
	c.Op("kind=%d capacity=%d maxUsed=%d keys=%d", kind, capacity, maxUsed, nkeys)
	mon.Max("capacity", capacity)
	recent := list.New() // of *slot, the most recent first
	at := map[int]*list.Element{}
	drop := func(k int) {
		if e := at[k]; e != nil {
			recent.Remove(e)
			delete(at, k)
		}
	}
	get := func(k int) hit {
		e := at[k]
		if e == nil {
			return hit{}
		}
		s := e.Value.(*slot)
		if time.Now().After(s.exp) || maxUsed > 0 && s.used >= maxUsed {
			drop(k)
			return hit{}
		}
		s.used++
		recent.MoveToFront(e)
		return hit{s.v, true}
	}
	do := func(o op, want []hit) {
		got, bad := cc.do(o)
		c.Op("%.200s -> %.200s", fmt.Sprint(o), fmt.Sprint(got))
		if bad != "" {
			c.Violate("%v: %s", o, bad)
		}
		for i := range want {
			if got[i].ok != want[i].ok || got[i].ok && got[i].v != want[i].v {
				c.Violate("%.200s: for key %d got %v, want %v (capacity %d, uses %d, %d entries)", fmt.Sprint(o), o.keys[i], got[i], want[i], capacity, maxUsed, len(at))
			}
		}
	}
	val, hits, full := 0, 0, 0
	set := func(k int, ttl time.Duration) {
		val++
		drop(k)
		at[k] = recent.PushFront(&slot{k, val, 0, time.Now().Add(ttl)})
		if len(at) > capacity {
			drop(recent.Back().Value.(*slot).k)
			full++
		}
		do(op{kind: 's', kvs: []kv{{k, val}}, ttl: ttl}, nil)
	}
	ttl := func() time.Duration {
		return mon.Pick(c, time.Hour+1, time.Hour+1, 100*time.Hour+1, -time.Minute, time.Millisecond+1)
	}
	for i := 0; i < capacity; i++ { // fill
		set(mon.Pick(c, i, i, c.IntN(nkeys)), mon.Pick(c, time.Hour+1, ttl()))
	}
	if worn {
		for _, k := range c.Perm(nkeys) {
			if at[k] == nil {
				set(k, time.Hour+1)
			}
			c.Op("gets of key %d until it is worn out", k)
			for n := maxUsed + 2; n > 0; n-- {
				want := get(k)
				o := op{kind: 'g', keys: []int{k}}
				got, bad := cc.do(o)
				if bad != "" {
					c.Violate("%v: %s", o, bad)
				}
				if got[0] != want {
					c.Violate("%d gets of key %d after its Set: got %v, want %v (uses %d)", maxUsed+3-n, k, got[0], want, maxUsed)
				}
			}
			mon.Count("entries_worn_out", 1)
		}
	}
	for n := 200 + c.IntN(2*capacity); n > 0; n-- {
		k := c.IntN(nkeys)
		switch c.IntN(12) {
		case 0, 1, 2, 3:
			h := get(k)
			if h.ok {
				hits++
			}
			do(op{kind: 'g', keys: []int{k}}, []hit{h})
		case 4:
			if c.Chance(10) {
				o := op{kind: 'G'}
				var want []hit
				for m := c.Size(500); m > 0; m-- {
					k := c.IntN(nkeys)
					o.keys, want = append(o.keys, k), append(want, get(k))
				}
				do(o, want)
			}
		case 5:
			o := op{kind: 'd', keys: []int{k}}
			if c.Chance(20) {
				for m := c.Size(300); m > 0; m-- {
					o.keys = append(o.keys, c.IntN(nkeys))
				}
			}
			for _, k := range o.keys {
				drop(k)
			}
			do(o, nil)
		case 6:
			if c.Chance(20) {
				time.Sleep(mon.Pick(c, 2*time.Millisecond, 2*time.Hour, 10*time.Minute))
			}
		default:
			set(k, ttl())
		}
	}
	for _, k := range c.Perm(nkeys) {
		do(op{kind: 'g', keys: []int{k}}, []hit{get(k)})
	}
	mon.Count("hits", hits)
	mon.Count("sets_at_capacity", full)
	c.Distinct(capacity, maxUsed, nkeys, val, hits, full)
}

// --- C07 ------------------------------------------------------------------

type cin struct {
	o                 op
	capacity, maxUsed int
}

func (i cin) String() string { return i.o.String() }

func model(capacity, maxUsed int) porcupine.Model {
	nm := porcupine.NondeterministicModel{
		Init: func() []any { return []any{lru(nil)} },
		Step: func(st, in, out any) []any {
			var hs []hit
			if out != nil {
				hs = out.([]hit)
			}
			var res []any
			// the clock is 0 throughout: an entry is alive for good or dead at once
			for _, n := range st.(lru).apply(in.(cin).o, hs, capacity, maxUsed, 0) {
				res = append(res, n)
			}
			return res
		},
		Equal: func(a, b any) bool {
			x, y := a.(lru), b.(lru)
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if x[i] != y[i] {
					return false
				}
			}
			return true
		},
	}
	return nm.ToModel()
}

type conc struct {
	kind, capacity, maxUsed, nkeys int
	pre                            []op
	progs                          [][]op
	cc                             cache
	rec                            hist.Rec
	c                              *mon.C
}

func newConc(c *mon.C, clients, calls int) *conc {
	r := &conc{kind: c.IntN(6), capacity: 1 + c.IntN(4), maxUsed: mon.Pick(c, 0, 0, 1, 2, 3), c: c}
	r.nkeys = 1 + c.IntN(r.capacity+2)
	r.cc = newCache(r.kind, r.capacity, r.maxUsed)
	val := 0
	ttl := func() time.Duration {
		if c.Chance(6) {
			return -time.Hour
		}
		return 1000 * time.Hour
	}
	for n := c.IntN(6); n > 0; n-- {
		r.pre = append(r.pre, genOp(c, r.kind, r.nkeys, &val, 2, ttl))
	}
	for i := 0; i < clients; i++ {
		var p []op
		for n := 1 + c.IntN(calls); n > 0; n-- {
			p = append(p, genOp(c, r.kind, r.nkeys, &val, 2, ttl))
		}
		r.progs = append(r.progs, p)
	}
	return r
}

func (r *conc) run(client int, o op) {
	r.rec.Do(client, cin{o: o}, func() any {
		out, bad := r.cc.do(o)
		if bad != "" {
			r.c.Report("%v: %s", o, bad)
		}
		return out
	})
}

func (r *conc) final() {
	for k := 0; k < r.nkeys; k++ {
		r.run(len(r.progs), op{kind: 'g', keys: []int{fixKey(r.kind, k)}})
	}
}

func (r *conc) check(c *mon.C) {
	c.Op("kind=%d capacity=%d maxUsed=%d", r.kind, r.capacity, r.maxUsed)
	// keep the search bounded: the checker is exponential only in overlap
	r.rec.Check(c, model(r.capacity, r.maxUsed))
}

func TestC07Sched(t *testing.T) {
	mon.Cases(t, "atomic/sched", mon.Num(8000, 200000), func(c *mon.C) {
		r := newConc(c, 2+c.IntN(3), 5)
		var ws []func()
		for i := range r.progs {
			ws = append(ws, func() {
				for _, o := range r.progs[i] {
					r.run(i, o)
				}
			})
		}
		sched.Run(t, c, func() {
			for _, o := range r.pre {
				r.run(len(r.progs), o)
			}
		}, ws, r.final)
		r.check(c)
	})
}

func TestC07Stress(t *testing.T) {
	mon.Cases(t, "atomic/stress", mon.Num(4000, 100000), func(c *mon.C) {
		r := newConc(c, 2+c.IntN(3), 8)
		for _, o := range r.pre {
			r.run(len(r.progs), o)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range r.progs {
			nap := c.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					for j, o := range r.progs[i] {
						if nap>>uint(j)&3 == 0 {
							runtime.Gosched()
						}
						r.run(i, o)
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		r.final()
		r.check(c)
	})
}

// batches runs clients whose every call concerns the same group of keys, up to
// hundreds of them: calls being atomic, the group behaves like one key.
type batches struct {
	cc      cache
	group   []int
	maxUsed int
	progs   [][]op // on key 0, which stands for the group
	rec     hist.Rec
	c       *mon.C
}

func newBatches(c *mon.C, clients, calls int) *batches {
	kind := mon.Pick(c, 0, 1, 2, 5)
	n := mon.Pick(c, 2, 3, 10, 20, 40, 70) + c.IntN(5)
	if kind == 0 && c.Chance(4) {
		n = 100 + c.IntN(400)
	}
	b := &batches{maxUsed: mon.Pick(c, 0, 0, 1, 2), c: c}
	b.cc = newCache(kind, n+c.IntN(3), b.maxUsed)
	for i := 0; i < n; i++ {
		b.group = append(b.group, i)
	}
	v := 0
	for i := 0; i < clients; i++ {
		var p []op
		for n := 1 + c.IntN(calls); n > 0; n-- {
			switch o := (op{keys: []int{0}}); c.IntN(5) {
			case 0, 1:
				v++
				p = append(p, op{kind: 's', kvs: []kv{{0, v}}, ttl: 1000 * time.Hour})
			case 2:
				o.kind = 'd'
				p = append(p, o)
			default:
				o.kind = 'g'
				p = append(p, o)
			}
		}
		b.progs = append(b.progs, p)
	}
	c.Op("groups of %d keys, kind %d, maxUsed %d", n, kind, b.maxUsed)
	return b
}

func (b *batches) run(client int, o op) {
	b.rec.Do(client, cin{o: o}, func() any {
		big := op{ttl: o.ttl}
		switch o.kind {
		case 's':
			big.kind = 'S'
			for _, k := range b.group {
				big.kvs = append(big.kvs, kv{k, o.kvs[0].v})
			}
		case 'd', 'g':
			big.kind = o.kind - 'g' + 'G'
			if o.kind == 'd' {
				big.kind = 'd'
			}
			big.keys = b.group
		}
		out, bad := b.cc.do(big)
		if bad != "" {
			b.c.Report("%v: %s", o, bad)
		}
		for i, h := range out {
			if h != out[0] {
				b.c.Report("MGet of %d keys, always set and deleted together, returned %v for the first and %v for number %d", len(out), out[0], h, i)
				break
			}
		}
		if len(out) > 0 {
			out = out[:1]
		}
		return out
	})
}

func (b *batches) client(i int) func() {
	return func() {
		for _, o := range b.progs[i] {
			b.run(i, o)
		}
	}
}

func (b *batches) final() { b.run(len(b.progs), op{kind: 'g', keys: []int{0}}) }

func (b *batches) check(c *mon.C) {
	b.rec.Check(c, model(1, b.maxUsed))
}

func TestC07SchedBatches(t *testing.T) {
	mon.Cases(t, "batches/sched", mon.Num(1500, 40000), func(c *mon.C) {
		b := newBatches(c, 2+c.IntN(3), 5)
		var ws []func()
		for i := range b.progs {
			ws = append(ws, b.client(i))
		}
		sched.Run(t, c, func() {}, ws, b.final)
		b.check(c)
	})
}

func TestC07StressBatches(t *testing.T) {
	mon.Cases(t, "batches/stress", mon.Num(1000, 20000), func(c *mon.C) {
		b := newBatches(c, 2+c.IntN(3), 8)
		var wg sync.WaitGroup
		for i := range b.progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sched.Guard(c, fmt.Sprint("client ", i), b.client(i))
			}()
		}
		wg.Wait()
		b.final()
		b.check(c)
	})
}

// Long parallel runs without pauses, for the race detector and for totals
// that hold for any order.
func TestC07Load(t *testing.T) {
	mon.Cases(t, "atomic/load", mon.Num(60, 2000), func(c *mon.C) {
		capacity, maxUsed := 1+c.IntN(6), mon.Pick(c, 0, 1, 2, 4)
		kind := c.IntN(6)
		cc := newCache(kind, capacity, maxUsed)
		var wg sync.WaitGroup
		var mu sync.Mutex
		got := map[int]int{}
		c.Op("capacity=%d maxUsed=%d kind=%d", capacity, maxUsed, kind)
		for i := 0; i < 4; i++ {
			seed := c.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl := &mon.C{Rand: mon.NewRand(seed), Monitor: c.Monitor, Idx: c.Idx}
				val := i * 1000000
				mine := map[int]int{}
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					for n := 0; n < 400; n++ {
						o := genOp(cl, kind, capacity+2, &val, 3, func() time.Duration { return time.Hour })
						out, bad := cc.do(o)
						if bad != "" {
							c.Report("%v: %s", o, bad)
						}
						for _, h := range out {
							if h.ok {
								mine[h.v]++
							}
						}
						mon.Beat()
					}
				})
				mu.Lock()
				for v, n := range mine {
					got[v] += n
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		if maxUsed > 0 {
			for v, n := range got {
				if n > maxUsed {
					c.Violate("value %d was returned %d times, allowed %d", v, n, maxUsed)
				}
			}
		}
		// no more entries than the capacity
		held := 0
		for k := 0; k < capacity+2; k++ {
			out, _ := cc.do(op{kind: 'g', keys: []int{fixKey(kind, k)}})
			if out[0].ok {
				held++
			}
		}
		if kind != 3 && held > capacity {
			c.Violate("%d entries held, capacity %d", held, capacity)
		}
		var vs []int
		for v := range got {
			vs = append(vs, v)
		}
		sort.Ints(vs)
		c.Distinct(fmt.Sprint(vs))
		mon.Count("values_read", len(vs))
	})
}
