// Monitors for C10 (cache chain) and C11 (batch results).
package c10

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"math"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

type call struct {
	write bool
	del   bool
	key   string
	val   int
	ttl   time.Duration
}

// level is a scripted cache recording every call that reaches it, per key.
type level struct {
	data map[string]int
	log  []call
	// failures of the next calls
	readErr, writeErr, delErr error
	failKey                   string // fail only reads of this key ("" all)
	batchGot                  int
	shortOks                  bool          // report only the leading flags that matter
	nilMiss                   bool          // report a batch without hits as nil
	strange                   int           // calls whose context is not the caller's
	gave                      []func() bool // whether what was returned is as it was
}

type ctxKey struct{}

// the context every call on the chain gets, levels look for what it carries
var callCtx = context.WithValue(context.Background(), ctxKey{}, "the caller's")

func (l *level) saw(ctx context.Context) {
	if ctx == nil || ctx.Value(ctxKey{}) == nil {
		l.strange++
	}
}

func (l *level) failing(keys []string) error {
	if l.readErr == nil {
		return nil
	}
	if l.failKey == "" || slices.Contains(keys, l.failKey) {
		return l.readErr
	}
	return nil
}

func (l *level) Get(ctx context.Context, key string) (int, bool, error) {
	l.saw(ctx)
	l.log = append(l.log, call{key: key})
	if err := l.failing([]string{key}); err != nil {
		return 0, false, err
	}
	v, ok := l.data[key]
	return v, ok, nil
}

func (l *level) MGet(ctx context.Context, keys ...string) ([]int, []bool, error) {
	l.saw(ctx)
	for _, k := range keys {
		l.log = append(l.log, call{key: k})
	}
	if len(keys) == 0 {
		return nil, nil, nil
	}
	if err := l.failing(keys); err != nil {
		return nil, nil, err
	}
	vs, oks := make([]int, len(keys)), make([]bool, len(keys))
	last := -1
	for i, k := range keys {
		vs[i], oks[i] = l.data[k]
		if oks[i] {
			last = i
		}
	}
	if l.nilMiss && last < 0 {
		return nil, nil, nil
	}
	if l.shortOks {
		vs, oks = vs[:last+1], oks[:last+1]
	}
	return vs, oks, nil
}

func (l *level) Set(ctx context.Context, key string, v int, ttl time.Duration) error {
	l.saw(ctx)
	l.log = append(l.log, call{write: true, key: key, val: v, ttl: ttl})
	if l.writeErr != nil {
		return l.writeErr
	}
	l.data[key] = v
	return nil
}

func (l *level) MSet(ctx context.Context, kvs map[string]int, ttl time.Duration) error {
	l.saw(ctx)
	for _, k := range slices.Sorted(maps.Keys(kvs)) {
		l.log = append(l.log, call{write: true, key: k, val: kvs[k], ttl: ttl})
	}
	if l.writeErr != nil {
		return l.writeErr
	}
	maps.Copy(l.data, kvs)
	return nil
}

func (l *level) Delete(ctx context.Context, keys ...string) error {
	l.saw(ctx)
	for _, k := range keys {
		l.log = append(l.log, call{del: true, key: k})
	}
	if l.delErr != nil {
		return l.delErr
	}
	for _, k := range keys {
		delete(l.data, k)
	}
	return nil
}

type multiErr []string

func (m multiErr) Error() string { return strings.Join(m, ",") }

func (m multiErr) Is(target error) bool {
	o, ok := target.(multiErr)
	return ok && slices.Equal(m, o)
}

type lerr struct{ n int }

func (e *lerr) Error() string { return "same text" }

func newErr(c *mon.C) error {
	switch c.IntN(6) {
	case 4:
		return (*lerr)(nil) // an error all the same
	case 5:
		return multiErr{"same text", fmt.Sprint(c.IntN(100))} // cannot be compared
	case 0:
		return &lerr{c.IntN(100)}
	case 1:
		return fmt.Errorf("wrapped: %w", &lerr{c.IntN(100)})
	case 2:
		return errors.Join(&lerr{c.IntN(100)}, &lerr{101})
	}
	return errors.New("same text")
}

// has reports whether err reports e.
func has(err, e error) bool { return err != nil && errors.Is(err, e) }

func TestC10(t *testing.T) {
	mon.Cases(t, "chain/seq", mon.Num(40000, 1000000), func(c *mon.C) {
		switch c.IntN(6) {
		case 0:
			chainCase(c, same[string](), same[int]())
		case 1: // pointers, the first of them nil, all but equal
			ps := map[*point]int{nil: 0}
			chainCase(c, numbers(), codec[int, *point]{func(i int) *point {
				for p, n := range ps {
					if n == i {
						return p
					}
				}
				p := &point{1, 1}
				ps[p] = i
				return p
			}, at(ps)})
		case 2: // values of any type, some nil
			chainCase(c, mixed(), codec[int, any]{func(i int) any {
				switch {
				case i == 0:
					return nil
				case i%3 == 0:
					return int64(i)
				case i%3 == 1:
					return fmt.Sprint(i)
				}
				return i
			}, func(v any) int {
				switch v := v.(type) {
				case nil:
					return 0
				case int64:
					return int(v)
				case int:
					return v
				case string:
					n, _ := strconv.Atoi(v)
					return n
				}
				return -1
			}})
		case 3: // slices, the first nil, the second empty
			chainCase(c, points(), codec[int, []int]{func(i int) []int {
				switch i {
				case 0:
					return nil
				case 1:
					return []int{}
				}
				return []int{i}
			}, func(s []int) int {
				switch {
				case s == nil:
					return 0
				case len(s) == 0:
					return 1
				}
				return s[0]
			}})
		case 4: // errors
			es := map[error]int{nil: 0}
			chainCase(c, same[string](), codec[int, error]{func(i int) error {
				for e, n := range es {
					if n == i {
						return e
					}
				}
				e := errors.New("same text")
				es[e] = i
				return e
			}, at(es)})
		case 5: // texts, one of them empty
			chainCase(c, numbers(), codec[int, string]{func(i int) string { return strings.Repeat("v", i) }, func(s string) int { return len(s) }})
		}
	})
}

type point struct{ x, y int }

// codec carries the model's keys and values to those of a chain and back.
type codec[M, R any] struct {
	to   func(M) R
	from func(R) M
}

func same[T any]() codec[T, T] { id := func(x T) T { return x }; return codec[T, T]{id, id} }

func at[R comparable](m map[R]int) func(R) int {
	return func(r R) int {
		if n, ok := m[r]; ok {
			return n
		}
		return -1
	}
}

// the keys are "" and one letter, or "k" and a number
func number(k string) int {
	if len(k) < 2 {
		return len(k) * int(append([]byte(k), 0)[0])
	}
	n, _ := strconv.Atoi(k[1:])
	return 1000 + n
}

func name(n int) string {
	switch {
	case n == 0:
		return ""
	case n < 1000:
		return string(rune(n))
	}
	return fmt.Sprint("k", n-1000)
}

func numbers() codec[string, int] { return codec[string, int]{number, name} }

func points() codec[string, point] {
	return codec[string, point]{func(k string) point { return point{number(k) % 3, number(k) / 3} }, func(p point) string { return name(3*p.y + p.x) }}
}

// keys that look alike but differ in their types
func mixed() codec[string, any] {
	return codec[string, any]{func(k string) any {
		switch n := number(k); n % 4 {
		case 0:
			if n == 0 {
				return nil
			}
			return n / 4
		case 1:
			return int64(n / 4)
		case 2:
			return fmt.Sprint(n / 4)
		default:
			return point{n / 4, 0}
		}
	}, func(k any) string {
		switch k := k.(type) {
		case int:
			return name(4 * k)
		case int64:
			return name(4*int(k) + 1)
		case string:
			n, _ := strconv.Atoi(k)
			return name(4*n + 2)
		case point:
			return name(4*k.x + 3)
		}
		return ""
	}}
}

// typed is a level as the chain sees it.
type typed[K comparable, V any] struct {
	l *level
	k codec[string, K]
	v codec[int, V]
}

func all[A, B any](f func(A) B, s []A) []B {
	if s == nil {
		return nil
	}
	r := make([]B, 0, len(s))
	for _, a := range s {
		r = append(r, f(a))
	}
	return r
}

func (t typed[K, V]) Get(ctx context.Context, key K) (V, bool, error) {
	v, ok, err := t.l.Get(ctx, t.k.from(key))
	return t.v.to(v), ok, err
}

func (t typed[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error) {
	vs, oks, err := t.l.MGet(ctx, all(t.k.from, keys)...)
	r := all(t.v.to, vs)
	if len(r) > 0 {
		r = append(r, r[0])[:len(r)] // with spare capacity
		full := r[:len(r)+1]
		want := append([]V(nil), full...)
		flags := append([]bool(nil), oks...)
		t.l.gave = append(t.l.gave, func() bool { return reflect.DeepEqual(full, want) && slices.Equal(oks, flags) })
	}
	return r, oks, err
}

func (t typed[K, V]) Set(ctx context.Context, key K, v V, ttl time.Duration) error {
	return t.l.Set(ctx, t.k.from(key), t.v.from(v), ttl)
}

func (t typed[K, V]) MSet(ctx context.Context, kvs map[K]V, ttl time.Duration) error {
	m := map[string]int{}
	for k, v := range kvs {
		m[t.k.from(k)] = t.v.from(v)
	}
	return t.l.MSet(ctx, m, ttl)
}

func (t typed[K, V]) Delete(ctx context.Context, keys ...K) error {
	return t.l.Delete(ctx, all(t.k.from, keys)...)
}

func chainCase[K comparable, V any](c *mon.C, kc codec[string, K], vc codec[int, V]) {
	n := mon.Pick(c, 1, 2, 2, 3, 3, 4, 5)
	if c.Chance(50) {
		n = 0
	}
	keys := []string{"", "a", "b", "c", "d", "e", "f"}[:1+c.IntN(7)]
	batch := 8
	if big := c.Big(300, 1500); big > 0 {
		keys = nil
		for i := 0; i < big; i++ {
			keys = append(keys, fmt.Sprint("k", i))
		}
		batch = big + 10
	}
	if c.Chance(100) {
		n = 6 + c.IntN(15)
	}
	ch := &cachex.Chain[K, V]{ContinueOnReadErr: c.Chance(2)}
	var ls []*level
	val := -1
	for i := 0; i < n; i++ {
		l := &level{data: map[string]int{}, shortOks: c.Chance(6), nilMiss: c.Chance(6)}
		for _, k := range keys {
			if c.Chance(3) {
				val++
				l.data[k] = val
			}
		}
		ls = append(ls, l)
		ttl := time.Duration(100+i) * time.Second
		if c.Chance(4) {
			ttl = mon.Pick(c, 0, 0, -1, 1, -time.Hour, time.Duration(math.MaxInt64), time.Duration(i)*time.Nanosecond)
		}
		ch.Caches = append(ch.Caches, &cachex.ChainItem[K, V]{Cache: typed[K, V]{l, kc, vc}, TTL: ttl})
	}
	ttls := make([]time.Duration, n)
	for i, it := range ch.Caches {
		ttls[i] = it.TTL
	}
	c.Op("levels=%d keys=%q of %T values=%T continue=%v", n, keys, *new(K), *new(V), ch.ContinueOnReadErr)
	faults, filled := 0, 0
	var got mon.Ledger[V]
	var gotOK mon.Ledger[bool]
	for op := 1 + c.IntN(8); op > 0; op-- {
		want := make([]map[string]int, n) // contents before the call
		for i, l := range ls {
			l.log, l.readErr, l.writeErr, l.delErr, l.failKey = nil, nil, nil, nil, ""
			if c.Chance(5) {
				l.readErr = newErr(c)
				if c.Chance(3) {
					l.failKey = keys[c.IntN(len(keys))]
				}
				faults++
			}
			if c.Chance(6) {
				l.writeErr = newErr(c)
			}
			if c.Chance(6) {
				l.delErr = newErr(c)
			}
			want[i] = maps.Clone(l.data)
		}
		ctx := callCtx
		key := keys[c.IntN(len(keys))]
		switch c.IntN(8) {
		case 0, 1, 2:
			rv, ok, err := ch.Get(ctx, kc.to(key))
			v := vc.from(rv)
			c.Op("Get(%q)=%d,%v,%v", key, v, ok, err)
			checkRead(c, ch.ContinueOnReadErr, ttls, ls, want, []string{key}, []int{v}, []bool{ok}, err, true, &filled)
		case 3, 4, 5:
			var ks []string
			for j := c.IntN(batch); j > 0; j-- {
				ks = append(ks, keys[c.IntN(len(keys))])
			}
			if c.Chance(3) {
				ks = slices.Clone(keys)
				c.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			}
			given := append(all(kc.to, ks), kc.to("s"))[:len(ks)]
			rvs, oks, err := ch.MGet(ctx, given...)
			vs := all(vc.from, rvs)
			c.Op("MGet(%q)=%v,%v,%v", ks, vs, oks, err)
			got.Keep(c, "MGet", rvs, *new(V))
			gotOK.Keep(c, "MGet", oks, true)
			for i, l := range ls {
				for _, same := range l.gave {
					if !same() {
						c.Violate("MGet(%q) changed the slices which level %d returned", ks, i)
					}
				}
				l.gave = nil
			}
			oks = slices.Clone(oks) // the ledger's from here on
			if !slices.Equal(given, all(kc.to, ks)) || given[:len(ks)+1][len(ks)] != kc.to("s") {
				c.Violate("MGet changed the caller's keys %q to %v", ks, given)
			}
			if len(ks) == 0 {
				if len(vs) != 0 || len(oks) != 0 || err != nil {
					c.Violate("MGet of no keys returned %v %v %v", vs, oks, err)
				}
				break
			}
			checkRead(c, ch.ContinueOnReadErr, ttls, ls, want, ks, vs, oks, err, false, &filled)
		case 6:
			kvs := map[string]int{}
			single := c.Chance(2)
			for j := c.IntN(max(4, batch/2)); j > 0 || single && len(kvs) == 0; j-- {
				val++
				kvs[keys[c.IntN(len(keys))]] = val
			}
			var err error
			if single {
				for k := range kvs {
					if len(kvs) > 1 {
						delete(kvs, k)
					}
				}
				for k, v := range kvs {
					err = ch.Set(ctx, kc.to(k), vc.to(v), 7*time.Second)
				}
			} else {
				m := map[K]V{}
				for k, v := range kvs {
					m[kc.to(k)] = vc.to(v)
				}
				err = ch.MSet(ctx, m, 7*time.Second)
			}
			c.Op("Set/MSet(%v)=%v", kvs, err)
			checkWrite(c, ttls, ls, kvs, nil, err)
		case 7:
			var ks []string
			for j := c.IntN(max(4, batch/2)); j > 0; j-- {
				ks = append(ks, keys[c.IntN(len(keys))])
			}
			err := ch.Delete(ctx, all(kc.to, ks)...)
			c.Op("Delete(%q)=%v", ks, err)
			checkWrite(c, ttls, ls, nil, ks, err)
		}
		for i, l := range ls {
			if l.strange > 0 {
				c.Violate("level %d was called %d times with a context without what the caller's carries", i, l.strange)
			}
		}
	}
	mon.Count("faults", faults)
	mon.Count("fills", filled)
	if n > 1 && filled > 0 {
		c.Distinct(strings.Join(c.TraceStrings(), ";"))
	}
	c.SampleTrace()
}

func count(ks []string, k string) (n int) {
	for _, x := range ks {
		if x == k {
			n++
		}
	}
	return n
}

func checkRead(c *mon.C, goOn bool, ttls []time.Duration, ls []*level, before []map[string]int, ks []string, vs []int, oks []bool, err error, single bool, filled *int) {
	// the specified course: level by level
	remaining := map[string]bool{}
	for _, k := range ks {
		remaining[k] = true
	}
	foundAt := map[string]int{}
	var failures []error
	stopped := -1
	for i, l := range ls {
		if len(remaining) == 0 {
			break
		}
		if e := l.failing(slices.Collect(maps.Keys(remaining))); e != nil {
			failures = append(failures, e)
			if !goOn {
				stopped = i
				break
			}
			// which keys of a failed batch were asked one by one is the level's
			// business: nothing found here
			if i == len(ls)-1 && !has(err, e) {
				// the answer "nowhere" rests on a level that did not answer
				c.Violate("the last level failed with %v, %d keys were found nowhere, the chain returned %v", e, len(remaining), err)
			}
			continue
		}
		for k := range remaining {
			if _, ok := before[i][k]; ok {
				foundAt[k] = i
				delete(remaining, k)
			}
		}
	}
	// who was asked for what, and who was filled with what
	for i, l := range ls {
		asked, wrote := map[string]int{}, map[string]int{}
		for _, e := range l.log {
			switch {
			case e.del:
				c.Violate("a read deleted key %q on level %d", e.key, i)
			case e.write:
				at, ok := foundAt[e.key]
				if !ok || at <= i || e.val != before[at][e.key] || e.ttl != ttls[i] {
					c.Violate("level %d was filled with %q=%d ttl %v; found at level %d of %v, own TTL %v", i, e.key, e.val, e.ttl, at, before, ttls[i])
				}
				wrote[e.key]++
			default:
				asked[e.key]++
				if n := count(ks, e.key); asked[e.key] > n && n > 0 {
					c.Violate("level %d was asked %d times for %q, requested %d times", i, asked[e.key], e.key, n)
				}
				if at, ok := foundAt[e.key]; ok && at < i {
					c.Violate("level %d was asked for %q although level %d has it", i, e.key, at)
				}
				if stopped >= 0 && i > stopped {
					c.Violate("level %d was asked after level %d had failed", i, stopped)
				}
				if !slices.Contains(ks, e.key) {
					c.Violate("level %d was asked for %q, which was not requested", i, e.key)
				}
			}
		}
		if stopped < 0 {
			for k, at := range foundAt {
				if at > i {
					if wrote[k] == 0 {
						c.Violate("level %d was not filled with %q found at level %d", i, k, at)
					}
					*filled++
				}
			}
		}
	}
	if stopped >= 0 {
		if !has(err, failures[0]) {
			c.Violate("level %d failed with %v (%p), the chain returned %v", stopped, failures[0], failures[0], err)
		}
		return
	}
	if err != nil {
		ok := false
		for _, e := range failures {
			ok = ok || has(err, e)
		}
		if !ok {
			c.Violate("the chain returned %v, levels failed with %v", err, failures)
		}
		if single && len(foundAt) > 0 {
			c.Violate("the chain found the key but returned %v", err)
		}
	}
	if len(vs) != len(ks) || len(oks) != len(ks) {
		c.Violate("%d keys, %d values, %d flags (err %v)", len(ks), len(vs), len(oks), err)
	}
	for i, k := range ks {
		at, ok := foundAt[k]
		if oks[i] != ok || ok && vs[i] != before[at][k] {
			c.Violate("position %d key %q: got %d,%v; levels held %v, failing %v", i, k, vs[i], oks[i], before, failures)
		}
	}
}

func checkWrite(c *mon.C, ttls []time.Duration, ls []*level, kvs map[string]int, del []string, err error) {
	failures := 0
	for i, l := range ls {
		wrote, deleted := map[string]int{}, map[string]bool{}
		for _, e := range l.log {
			switch {
			case e.del:
				deleted[e.key] = true
			case e.write:
				if e.ttl != ttls[i] {
					c.Violate("level %d was written with ttl %v, its own is %v", i, e.ttl, ttls[i])
				}
				wrote[e.key] = e.val
			default:
				c.Violate("a write read level %d", i)
			}
		}
		if !maps.Equal(wrote, kvs) && (len(wrote) > 0 || len(kvs) > 0) {
			c.Violate("level %d received writes %v instead of %v", i, wrote, kvs)
		}
		for _, k := range del {
			if !deleted[k] {
				c.Violate("level %d did not receive the deletion of %q", i, k)
			}
		}
		for k := range deleted {
			if !slices.Contains(del, k) {
				c.Violate("level %d received the deletion of %q", i, k)
			}
		}
		e := l.writeErr
		if del != nil {
			e = l.delErr
		}
		if e != nil && (len(kvs) > 0 || len(del) > 0) {
			failures++
			if !has(err, e) {
				c.Violate("level %d failed with %v (%p), reported: %v", i, e, e, err)
			}
		}
	}
	if failures == 0 && err != nil {
		c.Violate("no level failed, reported: %v", err)
	}
}

// --- C11 ------------------------------------------------------------------

// raw is a cache answering as scripted.
type raw[K comparable, V any] struct {
	vs  []V
	oks []bool
	err error
}

func (r raw[K, V]) MGet(ctx context.Context, _ ...K) ([]V, []bool, error) {
	if ctx == nil || ctx.Value(ctxKey{}) == nil {
		return nil, nil, errors.New("a context without what the caller's carries")
	}
	return r.vs, r.oks, r.err
}

func TestC11(t *testing.T) {
	mon.Cases(t, "views/seq", mon.Num(40000, 800000), func(c *mon.C) {
		switch c.IntN(4) {
		case 0:
			views(c, func(i int) string { return strings.Repeat("k", i) }, func(i int) string { return fmt.Sprint(i) })
		case 1:
			views(c, func(i int) int { return i - 2 }, func(i int) any {
				if i%3 == 0 {
					return nil
				}
				return i
			})
		case 2:
			views(c, func(i int) [2]int { return [2]int{i, -i} }, func(i int) *int { return nil })
		case 3:
			views(c, func(i int) any {
				if i%2 == 0 {
					return i
				}
				return fmt.Sprint(i)
			}, func(i int) int { return i % 3 })
		}
	})
	mon.Cases(t, "nocache/seq", mon.Num(2000, 20000), nocache)
	mon.Cases(t, "views/real", mon.Num(8000, 100000), realCaches)
}

func views[K, V comparable](c *mon.C, mk func(int) K, mv func(int) V) {
	n := c.Size(30)
	if big := c.Big(400, 4000); big > 0 {
		n = big
	}
	mon.Max("positions at once", n)
	var keys []K
	var vs []V
	var oks []bool
	rep := 1 + c.IntN(1+2*n)
	p := 1 + c.IntN(4)
	for i := 0; i < n; i++ {
		keys = append(keys, mk(c.IntN(rep)))
		vs = append(vs, mv(c.IntN(1000)))
		oks = append(oks, c.Chance(p))
	}
	var err error
	if c.Chance(6) {
		err = errors.New("partial")
	}
	c.Op("keys=%v values=%v hits=%v", keys, vs, oks)
	res, gotErr := cachex.MGet[K, V](callCtx, raw[K, V]{slices.Clone(vs), slices.Clone(oks), err}, slices.Clone(keys)...)
	if gotErr != err {
		c.Violate("error %v became %v", err, gotErr)
	}
	checkViews(c, res, keys, vs, oks)
	if n > 1 {
		c.Distinct(fmt.Sprint(keys, oks))
	}
	c.SampleTrace()
}

func checkViews[K, V comparable](c *mon.C, res cachex.MGetResult[K, V], keys []K, vs []V, oks []bool) {
	n := len(keys)
	var hitK, missK []K
	var hitV []V
	for i, k := range keys {
		if oks[i] {
			hitK, hitV = append(hitK, k), append(hitV, vs[i])
		} else {
			missK = append(missK, k)
		}
	}
	same := func(what string, got, want []K) {
		if !slices.Equal(got, want) {
			c.Violate("%s is %v, want %v", what, got, want)
		}
	}
	same("HitKeys", res.HitKeys(), hitK)
	same("MissKeys", res.MissKeys(), missK)
	h, m := res.HitMissKeys()
	same("HitMissKeys hits", h, hitK)
	same("HitMissKeys misses", m, missK)
	hm := res.HitMapValues()
	count := map[K]int{}
	for i, k := range hitK {
		count[k]++
		if v, ok := hm[k]; !ok {
			c.Violate("HitMapValues lacks %v: %v", k, hm)
		} else if v != hitV[i] {
			found := false
			for j, k2 := range hitK {
				found = found || k2 == k && hitV[j] == v
			}
			if !found {
				c.Violate("HitMapValues[%v]=%v, not among what the cache returned", k, v)
			}
		}
	}
	if len(hm) != len(count) {
		c.Violate("HitMapValues has %d keys, %d were hit", len(hm), len(count))
	}
	// full and stopped ranges
	for _, stop := range []int{-1, 0, c.IntN(n + 1), c.IntN(n + 1)} {
		i := 0
		res.Range(func(k K, hit bool, v V) bool {
			if i >= n || k != keys[i] || hit != oks[i] || hit && v != vs[i] {
				c.Violate("Range step %d gave %v,%v,%v", i, k, hit, v)
			}
			i++
			return i-1 != stop
		})
		if want := until(n, stop); i != want {
			c.Violate("Range stopped by its callback at step %d made %d of %d calls", stop, i, want)
		}
		i = 0
		res.RangeHit(func(k K, v V) bool {
			if i >= len(hitK) || k != hitK[i] || v != hitV[i] {
				c.Violate("RangeHit step %d gave %v,%v", i, k, v)
			}
			i++
			return i-1 != stop
		})
		if want := until(len(hitK), stop); i != want {
			c.Violate("RangeHit stopped by its callback at step %d made %d of %d calls", stop, i, want)
		}
		i = 0
		res.RangeMiss(func(k K) bool {
			if i >= len(missK) || k != missK[i] {
				c.Violate("RangeMiss step %d gave %v", i, k)
			}
			i++
			return i-1 != stop
		})
		if want := until(len(missK), stop); i != want {
			c.Violate("RangeMiss stopped by its callback at step %d made %d of %d calls", stop, i, want)
		}
	}
	same("HitKeys after the ranges", res.HitKeys(), hitK)
	// the results are the caller's
	var kept mon.Ledger[K]
	junk := *new(K)
	if n > 0 {
		junk = keys[n-1]
	}
	h2, m2 := res.HitMissKeys()
	h3, m3 := res.HitKeys(), res.MissKeys()
	for _, s := range [][]K{h, m, h2, m2, h3, m3} {
		kept.Keep(c, "a view", s, junk)
	}
	kept.Check(c)
	for _, s := range [][]K{h, m, h3, m3} {
		for i := range s {
			s[i] = junk
		}
	}
	same("HitMissKeys hits, kept", h2, hitK)
	same("HitMissKeys misses, kept", m2, missK)
	for k := range hm {
		delete(hm, k)
		break
	}
	same("HitKeys after writing to other results", res.HitKeys(), hitK)
	same("MissKeys after writing to other results", res.MissKeys(), missK)
	if got := res.HitMapValues(); len(got) != len(count) {
		c.Violate("HitMapValues has %d keys after a change of an earlier result, %d were hit", len(got), len(count))
	}
	mon.Count("positions", n)
}

func until(n, stop int) int {
	if stop < 0 || stop >= n {
		return n
	}
	return stop + 1
}

func nocache(c *mon.C) {
	ctx := context.Background()
	var nc cachex.NoCache[int, string]
	for i := 0; i < 20; i++ {
		k := c.IntN(5)
		if err := nc.Set(ctx, k, "v", time.Duration(c.IntN(3)-1)*time.Hour); err != nil {
			c.Violate("Set: %v", err)
		}
		if err := nc.MSet(ctx, map[int]string{k: "w", k + 1: "x"}, time.Hour); err != nil {
			c.Violate("MSet: %v", err)
		}
		if c.Chance(2) {
			if err := nc.Delete(ctx, k); err != nil {
				c.Violate("Delete: %v", err)
			}
		}
		if _, ok, err := nc.Get(ctx, k); ok || err != nil {
			c.Violate("Get: %v %v", ok, err)
		}
		var ks []int
		for j := c.IntN(6); j > 0; j-- {
			ks = append(ks, c.IntN(5))
		}
		res, err := cachex.MGet[int, string](ctx, &nc, ks...)
		if err != nil {
			c.Violate("MGet: %v", err)
		}
		if got := res.MissKeys(); !slices.Equal(got, ks) {
			c.Violate("MGet of %v misses %v", ks, got)
		}
		vs, oks, err := nc.MGet(ctx, ks...)
		if len(vs) != len(ks) || len(oks) != len(ks) || slices.Contains(oks, true) || err != nil {
			c.Violate("MGet of %v returned %v %v %v", ks, vs, oks, err)
		}
	}
	c.Distinct(c.Idx)
}

// realCaches asks the package's own caches through the batch helper.
func realCaches(c *mon.C) {
	ctx := context.Background()
	lru := func() cachex.Cache[int, int] { return cachex.NewLRUCacheV2[int, int](100, 0) }
	var cc cachex.Cache[int, int]
	first, second := lru(), lru()
	switch c.IntN(3) {
	case 0:
		cc = first
	case 1:
		cc = &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: first, TTL: time.Hour}, {Cache: second, TTL: time.Hour}}}
	case 2:
		cc = &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: &cachex.NoCache[int, int]{}, TTL: time.Hour}, {Cache: first, TTL: time.Hour}, {Cache: second, TTL: time.Hour}}}
	}
	has := map[int]int{}
	for j := c.IntN(12); j > 0; j-- {
		k, v := c.IntN(15), c.IntN(1000)
		has[k] = v
		_ = first.Delete(ctx, k)
		if c.Chance(2) && cc != first {
			_ = second.Set(ctx, k, v, time.Hour)
		} else {
			_ = first.Set(ctx, k, v, time.Hour)
		}
	}
	for j := 0; j < 3; j++ {
		var ks, vs []int
		var oks []bool
		for i := c.IntN(12); i > 0; i-- {
			k := c.IntN(15)
			v, ok := has[k]
			ks, vs, oks = append(ks, k), append(vs, v), append(oks, ok)
		}
		c.Op("has=%v MGet(%v)", has, ks)
		res, err := cachex.MGet[int, int](ctx, cc, slices.Clone(ks)...)
		if err != nil {
			c.Violate("MGet: %v", err)
		}
		checkViews(c, res, ks, vs, oks)
	}
	c.Distinct(strings.Join(c.TraceStrings(), ";"))
}

// shelf is a cache which goroutines may share, one lock for everything.
type shelf struct {
	mu sync.Mutex
	m  map[int]string
}

func (s *shelf) Get(_ context.Context, k int) (string, bool, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok, nil
}

func (s *shelf) MGet(ctx context.Context, ks ...int) (vs []string, oks []bool, err error) {
	for _, k := range ks {
		v, ok, _ := s.Get(ctx, k)
		vs, oks = append(vs, v), append(oks, ok)
		if k%7 == 0 {
			runtime.Gosched()
		}
	}
	return
}

func (s *shelf) Set(_ context.Context, k int, v string, _ time.Duration) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[k] = v
	return nil
}

func (s *shelf) MSet(ctx context.Context, kvs map[int]string, _ time.Duration) error {
	for k, v := range kvs {
		_ = s.Set(ctx, k, v, 0)
	}
	return nil
}

func (s *shelf) Delete(_ context.Context, ks ...int) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range ks {
		delete(s.m, k)
	}
	return nil
}

// Goroutines use one chain, each with keys of its own: to each of them the
// chain must look as if it were alone.
func TestC10Race(t *testing.T) {
	mon.Cases(t, "shared chain", mon.Num(150, 4000), func(c *mon.C) {
		ch := &cachex.Chain[int, string]{ContinueOnReadErr: c.Chance(2)}
		var kinds []string
		durable := false
		for n := 1 + c.IntN(4); n > 0 || !durable; n-- {
			var l cachex.Cache[int, string]
			switch c.IntN(4) {
			case 0:
				l = &cachex.NoCache[int, string]{}
			case 1:
				l = cachex.NewLRUCacheV2[int, string](1+c.IntN(20), 0) // loses some
			case 2:
				l, durable = cachex.NewLRUCacheV2[int, string](1000, 0), true
			default:
				l, durable = &shelf{m: map[int]string{}}, true
			}
			kinds = append(kinds, fmt.Sprintf("%T", l))
			ch.Caches = append(ch.Caches, &cachex.ChainItem[int, string]{Cache: l, TTL: time.Hour})
		}
		clients := 2 + c.IntN(5)
		c.Op("%d clients of %v", clients, kinds)
		var wg sync.WaitGroup
		for g := 0; g < clients; g++ {
			r := mon.NewRand(c.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					ctx, mine, last := callCtx, map[int]string{}, 0
					key := func() int { return g*1000 + r.IntN(12) }
					val := func() string { last++; return fmt.Sprint(g, "/", last) }
					check := func(what string, k int, v string, ok bool, err error) {
						want, has := mine[k]
						if err != nil || ok != has || ok && v != want {
							c.Report("client %d: %s of key %d gave %q, %v, %v, want %q, %v", g, what, k, v, ok, err, want, has)
						}
					}
					for i := 0; i < 60; i++ {
						var err error
						switch r.IntN(8) {
						case 0, 1:
							k := key()
							v, ok, err := ch.Get(ctx, k)
							check("Get", k, v, ok, err)
						case 2, 3, 4:
							var ks []int
							for n := 1 + r.IntN(20); n > 0; n-- {
								ks = append(ks, key())
							}
							vs, oks, err := ch.MGet(ctx, ks...)
							if len(vs) != len(ks) || len(oks) != len(ks) {
								c.Report("client %d: MGet of %d keys gave %d values, %d flags, %v", g, len(ks), len(vs), len(oks), err)
								return
							}
							for j, k := range ks {
								check("MGet", k, vs[j], oks[j], err)
							}
						case 5:
							k, v := key(), val()
							mine[k] = v
							err = ch.Set(ctx, k, v, time.Hour)
						case 6:
							kvs := map[int]string{}
							for n := 1 + r.IntN(6); n > 0; n-- {
								kvs[key()] = val()
							}
							maps.Copy(mine, kvs)
							err = ch.MSet(ctx, kvs, time.Hour)
						default:
							ks := []int{key(), key()}
							delete(mine, ks[0])
							delete(mine, ks[1])
							err = ch.Delete(ctx, ks...)
						}
						if err != nil {
							c.Report("client %d: %v", g, err)
						}
						mon.Beat()
					}
				})
			}()
		}
		wg.Wait()
		mon.Count("concurrent calls", 60*clients)
		c.Distinct(clients, kinds, c.Idx)
	})
}
