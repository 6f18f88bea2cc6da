// Monitor for C41: calls that only read a container, or only read their
// arguments, may run at the same time. A container is built by one goroutine;
// then several read it in parallel under the race detector, and every answer is
// compared with the answer the same call gives alone.
package c41

import (
	"context"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// extent returns a size up to n, now and then a much larger one.
func extent(c *mon.C, n int) int { return max(c.Size(n), c.Big(100, 30*n)) }

// read is one reading call; it draws its arguments from r.
type read struct {
	name string
	do   func(r *rand.Rand) string
}

func s(v ...any) string { return fmt.Sprint(v...) }

func sorted[T any](v []T) string {
	out := make([]string, len(v))
	for i := range v {
		out[i] = fmt.Sprint(v[i])
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func skiplist(c *mon.C) []read {
	l := gskiplist.New[int, int]()
	n := 1 + extent(c, 60)
	for i, calls := 0, extent(c, 120); i < calls; i++ {
		if c.Chance(3) {
			l.Delete(c.IntN(n))
		} else {
			l.Insert(c.IntN(n), i)
		}
	}
	walk := func(e *gskiplist.SkipListElement[int, int], back bool, steps int) string {
		var sb strings.Builder
		for ; e != nil && steps > 0; steps-- {
			fmt.Fprint(&sb, e.GetValue(), " ")
			if back {
				e = l.Prev(e)
			} else {
				e = l.Next(e)
			}
		}
		return sb.String()
	}
	return []read{
		{"IsEmpty", func(*rand.Rand) string { return s(l.IsEmpty()) }},
		{"Find", func(r *rand.Rand) string { return fmt.Sprint(l.Find(r.IntN(n + 2))) }},
		{"FindGreaterOrEqual", func(r *rand.Rand) string {
			e, ok := l.FindGreaterOrEqual(r.IntN(n + 2))
			return s(e.GetValue(), ok)
		}},
		{"walk", func(r *rand.Rand) string {
			if l.IsEmpty() {
				return ""
			}
			return walk(l.GetSmallestNode(), false, 1+r.IntN(2*n))
		}},
		{"walk back", func(r *rand.Rand) string {
			if l.IsEmpty() {
				return ""
			}
			return walk(l.GetLargestNode(), true, 1+r.IntN(2*n))
		}},
		{"GetNodeCount", func(*rand.Rand) string { return s(l.GetNodeCount()) }},
		{"String", func(*rand.Rand) string { return l.String() }},
	}
}

func tree(c *mon.C) []read {
	t := rbt.New[int, int](func(a, b int) bool { return a < b })
	n := 1 + extent(c, 60)
	for i, calls := 0, extent(c, 120); i < calls; i++ {
		if c.Chance(3) {
			t.Delete(c.IntN(n))
		} else {
			t.Insert(c.IntN(n), i)
		}
	}
	if c.Chance(12) {
		t.Clear()
	}
	show := func(t *rbt.RbTree[int, int]) string { return s(t.Len(), t.Keys(), t.Values()) }
	return []read{
		{"Search", func(r *rand.Rand) string { return s(t.Search(r.IntN(n + 2))) }},
		{"Get", func(r *rand.Rand) string { return s(t.Get(r.IntN(n + 2))) }},
		{"GetIf", func(r *rand.Rand) string {
			m := 1 + r.IntN(4)
			return s(t.GetIf(func(k int) bool { return k%m == 0 }))
		}},
		{"Keys", func(*rand.Rand) string { return s(t.Keys()) }},
		{"Values", func(*rand.Rand) string { return s(t.Values()) }},
		{"Nodes", func(*rand.Rand) string { return s(t.Nodes()) }},
		{"Len", func(*rand.Rand) string { return s(t.Len(), t.Empty()) }},
		{"String", func(*rand.Rand) string { return t.String() }},
		{"SubTree", func(r *rand.Rand) string {
			a := r.IntN(n)
			return show(t.SubTree(a, r.IntN(2) == 0, a+1+r.IntN(n+1), r.IntN(2) == 0))
		}},
		{"LeftSubTree", func(r *rand.Rand) string { return show(t.LeftSubTree(r.IntN(n+1), r.IntN(2) == 0)) }},
		{"RightSubTree", func(r *rand.Rand) string { return show(t.RightSubTree(r.IntN(n+1), r.IntN(2) == 0)) }},
	}
}

func list(c *mon.C) []read {
	var l *glist.List[int]
	if c.Chance(2) {
		l = new(glist.List[int]) // may stay as it is
	} else {
		l = glist.New[int]()
	}
	n := extent(c, 40)
	for i := 0; i < n; i++ {
		switch c.IntN(5) {
		case 0:
			l.PushFront(i)
		case 1:
			if e := l.Front(); e != nil {
				l.MoveToBack(e)
			}
		case 2:
			if e := l.Back(); e != nil && c.Chance(2) {
				l.Remove(e)
			}
		default:
			l.PushBack(i)
		}
	}
	return []read{
		{"Len", func(*rand.Rand) string { return s(l.Len()) }},
		{"Range", func(*rand.Rand) string {
			var out []int
			l.Range(func(e *glist.Element[int]) { out = append(out, e.Value) })
			return s(out)
		}},
		{"forward", func(*rand.Rand) string {
			var out []int
			for e := l.Front(); e != nil; e = e.Next() {
				out = append(out, e.Value)
			}
			return s(out)
		}},
		{"backward", func(*rand.Rand) string {
			var out []int
			for e := l.Back(); e != nil; e = e.Prev() {
				out = append(out, e.Value)
			}
			return s(out)
		}},
		{"copy into another list", func(r *rand.Rand) string {
			o := glist.New[int]()
			o.PushBack(-1)
			if r.IntN(2) == 0 {
				o.PushBackList(l)
			} else {
				o.PushFrontList(l)
			}
			var out []int
			for e := o.Front(); e != nil; e = e.Next() {
				out = append(out, e.Value)
			}
			return s(out)
		}},
	}
}

func ring(c *mon.C) []read {
	n := 1 + extent(c, 30)
	p := gring.New[int](n)
	for i := 0; i < n; i++ {
		p.Value = i
		p = p.Next()
	}
	if c.Chance(3) {
		q := gring.New[int](1 + c.IntN(5))
		p.Link(q)
	}
	return []read{
		{"Len", func(*rand.Rand) string { return s(p.Len()) }},
		{"Move", func(r *rand.Rand) string { return s(p.Move(r.IntN(3*n) - n).Value) }},
		{"Next", func(*rand.Rand) string { return s(p.Next().Value, p.Prev().Value) }},
		{"Do", func(*rand.Rand) string {
			var out []any
			p.Do(func(v any) { out = append(out, v) })
			return s(out)
		}},
	}
}

func queue(c *mon.C) []read {
	q := gqueue.New[string]()
	for i, calls := 0, extent(c, 40); i < calls; i++ {
		if c.Chance(3) {
			_, _ = q.Pop()
		} else {
			_ = q.Push(s("v", i))
		}
	}
	return []read{
		{"Len", func(*rand.Rand) string { return s(q.Len(), gqueue.IsEmpty(q)) }},
		{"Peek", func(*rand.Rand) string { return fmt.Sprint(gqueue.Peek(q)) }},
		{"PeekAll", func(*rand.Rand) string { return s(gqueue.PeekAll(q)) }},
	}
}

func set(c *mon.C) []read {
	st := gset.NewSet[string]()
	m := map[string]int{}
	n := 1 + extent(c, 40)
	for i, calls := 0, extent(c, 60); i < calls; i++ {
		k := s("k", c.IntN(n))
		gset.Add(st, k)
		m[k] = i
		if c.Chance(4) {
			gset.Remove(st, k)
		}
	}
	near := maps.Clone(m)
	if c.Chance(2) {
		near["k0"] = -1
	}
	return []read{
		{"set Contains", func(r *rand.Rand) string { return s(gset.Contains(st, s("k", r.IntN(n)))) }},
		{"set Items", func(*rand.Rand) string { return sorted(gset.Items(st)) + s(gset.Len(st)) }},
		{"map Keys", func(*rand.Rand) string { return sorted(gmap.Keys(m)) }},
		{"map Values", func(*rand.Rand) string { return sorted(gmap.Values(m)) }},
		{"map Copy", func(*rand.Rand) string { return s(gmap.Copy(m), gmap.Len(m)) }},
		{"map Contains", func(r *rand.Rand) string { return s(gmap.Contains(m, s("k", r.IntN(n)))) }},
		{"map Equal", func(*rand.Rand) string { return s(gmap.Equal(m, near)) }},
		{"map EqualWithFunc", func(*rand.Rand) string {
			return s(gmap.EqualWithFunc(m, near, func(a, b int) bool { return a == b }))
		}},
		{"map entries", func(*rand.Rand) string {
			es := gmap.Map2Entries(m)
			return sorted(es) + s(gmap.Entries2Map(es))
		}},
	}
}

func slice(c *mon.C) []read {
	arr := make([]int, extent(c, 40)+20)
	for i := range arr {
		arr[i] = c.IntN(1 + c.IntN(12))
	}
	a := arr[:c.IntN(len(arr))] // with spare capacity
	b := slices.Clone(a)
	if len(b) > 0 && c.Chance(2) {
		b[c.IntN(len(b))]++
	}
	b = append(b, a...)[:len(b)]
	if c.Chance(8) {
		a = a[:0]
	}
	if c.Chance(12) {
		b = nil
	}
	eq := func(x, y int) bool { return x == y }
	less := func(x, y int) bool { return x < y }
	entries := make([]gconstraints.Entry[int, int], 0, len(a)+4)
	for i, v := range a {
		entries = append(entries, gconstraints.Entry[int, int]{Key: v, Value: i})
	}
	return []read{
		{"Copy", func(*rand.Rand) string { return s(gslice.Copy(a), gslice.Len(a)) }},
		{"Equal", func(*rand.Rand) string { return s(gslice.Equal(a, b), gslice.EqualWithFunc(a, b, eq)) }},
		{"Index", func(r *rand.Rand) string {
			x := r.IntN(13)
			f := func(v int) bool { return v == x }
			return s(gslice.Index(a, x), gslice.IndexWithFunc(a, f), gslice.Contains(a, x), gslice.ContainsWithFunc(a, f))
		}},
		{"Unique", func(*rand.Rand) string {
			u, n := gslice.Unique(a)
			v, m := gslice.UniqueWithFunc(a, func(v int) int { return v / 2 })
			return s(u, n, v, m)
		}},
		{"Merge", func(r *rand.Rand) string {
			m := gslice.Merge(a, b)
			for i := range m {
				m[i]++ // the result is the caller's
			}
			return s(m, gslice.Merge(a, gslice.Merge(b, a)))
		}},
		{"IsSorted", func(*rand.Rand) string { return s(gslice.IsSorted(a), gslice.IsSortedFunc(b, less)) }},
		{"Max", func(*rand.Rand) string {
			return s(gnumerics.MaxCollection(a), gnumerics.MinCollection(a), gnumerics.MaxBy(a, less), gnumerics.MinBy(a, less))
		}},
		{"Entries2Map", func(*rand.Rand) string { return s(gmap.Entries2Map(entries)) }},
	}
}

func bits(c *mon.C) []read {
	raw := make([]byte, extent(c, 24))
	for i := range raw {
		raw[i] = byte(c.Uint32())
	}
	b := bitset.New(raw...)
	o := bitset.New(byte(c.Uint32()), byte(c.Uint32()))
	n := 8*len(raw) + 9
	return []read{
		{"Get", func(r *rand.Rand) string { return s(b.Get(r.IntN(n) - 4)) }},
		{"Count", func(r *rand.Rand) string {
			return s(b.Count(r.IntN(n), r.IntN(n)), b.Count(0, -1), b.Count(-1-r.IntN(n), -1), b.Count(0, b.Size()-1), b.Size())
		}},
		{"Range", func(r *rand.Rand) string {
			stop, sum := r.IntN(n), 0
			b.Range(func(i int, v bool) bool {
				if v {
					sum += i
				}
				return i < stop
			})
			return s(sum)
		}},
		{"combine", func(r *rand.Rand) string {
			return s(b.And(o, b), o.Or(b), b.Xor(o), o.AndNot(b, o), b.Not())
		}},
		{"Bytes", func(*rand.Rand) string {
			x := b.Bytes()
			got := s(x)
			for i := range x {
				x[i]++ // the result is the caller's
			}
			return got
		}},
		{"String", func(r *rand.Rand) string {
			return b.Binary(",") + b.String() + s(b.Sub(r.IntN(n), r.IntN(n)), b.Sub(0, -1), b.Sub(-1-r.IntN(n), -1))
		}},
	}
}

// static is a level that never changes.
type static struct {
	cachex.NoCache[string, int]
	m map[string]int
}

func (l *static) Get(_ context.Context, k string) (int, bool, error) {
	v, ok := l.m[k]
	return v, ok, nil
}

func (l *static) MGet(_ context.Context, ks ...string) ([]int, []bool, error) {
	vs, oks := make([]int, len(ks)), make([]bool, len(ks))
	for i, k := range ks {
		vs[i], oks[i] = l.m[k]
	}
	return vs, oks, nil
}

func chain(c *mon.C) []read {
	ctx := context.Background()
	m := map[string]int{}
	n := 1 + c.IntN(8)
	for i := 0; i < n; i++ {
		if !c.Chance(3) {
			m[s("k", i)] = i
		}
	}
	ch := &cachex.Chain[string, int]{}
	for i := c.IntN(3); i > 0; i-- {
		if c.Chance(2) {
			ch.Caches = append(ch.Caches, &cachex.ChainItem[string, int]{Cache: &cachex.NoCache[string, int]{}})
		} else {
			ch.Caches = append(ch.Caches, &cachex.ChainItem[string, int]{Cache: cachex.NewLRUCacheV2[string, int](n+1, 0)})
		}
	}
	ch.Caches = append(ch.Caches, &cachex.ChainItem[string, int]{Cache: &static{m: m}})
	ch.ContinueOnReadErr = c.Chance(2)
	keys := []string{"k0", "k1", "k0", "k3", "k2", "k9"}
	res, err := cachex.MGet[string, int](ctx, &static{m: m}, keys...)
	if err != nil {
		c.Violate("MGet: %v", err)
	}
	return []read{
		{"chain Get", func(r *rand.Rand) string {
			v, ok, err := ch.Get(ctx, s("k", r.IntN(n+1)))
			return s(v, ok, err)
		}},
		{"chain MGet", func(r *rand.Rand) string {
			v, ok, err := ch.MGet(ctx, keys[:r.IntN(len(keys)+1)]...)
			return s(v, ok, err)
		}},
		{"result HitKeys", func(*rand.Rand) string {
			return s(res.HitKeys(), res.MissKeys(), res.HitMapValues())
		}},
		{"result HitMissKeys", func(*rand.Rand) string {
			h, m := res.HitMissKeys()
			got := s(h, m)
			clear(h)
			clear(m)
			return got
		}},
		{"result Range", func(*rand.Rand) string {
			out := ""
			res.Range(func(k string, hit bool, v int) bool { out += s(k, hit, v); return true })
			res.RangeHit(func(k string, v int) bool { out += s(k, v); return true })
			res.RangeMiss(func(k string) bool { out += k; return true })
			return out
		}},
	}
}

type step struct {
	op   int
	seed uint64
}

func TestC41(t *testing.T) {
	kinds := []struct {
		name  string
		build func(*mon.C) []read
	}{
		{"skip list", skiplist}, {"skip list", skiplist}, {"tree", tree}, {"tree", tree}, {"list", list}, {"ring", ring}, {"queue", queue},
		{"set and map", set}, {"slice", slice}, {"bit set", bits}, {"cache chain", chain},
	}
	mon.Cases(t, "readers", mon.Num(6000, 200000), func(c *mon.C) {
		k := kinds[c.IntN(len(kinds))]
		reads := k.build(c)
		only := -1
		if c.Chance(3) {
			only = c.IntN(len(reads)) // everybody makes the same call
		}
		plans := make([][]step, 2+c.IntN(4))
		var what []string
		for i := range plans {
			for j := 2 + c.IntN(12); j > 0; j-- {
				op := c.IntN(len(reads))
				if only >= 0 {
					op = only
				}
				plans[i] = append(plans[i], step{op, c.Uint64()})
				what = append(what, reads[op].name)
			}
		}
		c.Op("%s, %d readers: %s", k.name, len(plans), strings.Join(what, ", "))
		run := func(p []step) []string {
			out := make([]string, len(p))
			for i, st := range p {
				out[i] = reads[st.op].do(mon.NewRand(st.seed))
			}
			return out
		}
		got := make([][]string, len(plans))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, p := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					<-start
					got[i] = run(p)
				})
			}()
		}
		close(start)
		wg.Wait()
		for i, p := range plans {
			want := run(p)
			if got[i] == nil {
				continue // panicked, recorded
			}
			for j := range p {
				if got[i][j] != want[j] {
					c.Violate("%s %s: %q while others read, %q alone", k.name, reads[p[j].op].name, got[i][j], want[j])
				}
			}
			mon.Count("reads compared", len(p))
		}
		mon.Count("readers in parallel", len(plans))
		c.Distinct(k.name, strings.Join(what, ","), fmt.Sprint(got))
		c.SampleTrace()
	})
}
