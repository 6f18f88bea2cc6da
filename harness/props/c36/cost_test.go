// Monitors for C36 to C38: the work calls do, counted in statements of the code
// under test (the build inserts a counter before each) or in calls of the
// caller's comparison, against the documented growth. The constants leave a
// factor of about five over what was measured.
package c36

import (
	"context"
	"fmt"
	"math"
	"math/bits"
	"testing"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
	"gosbverif/vsync"
)

func TestMain(m *testing.M) { mon.Main(m) }

// steps runs f and returns how many statements of the code it took.
func steps(f func()) int64 {
	vsync.Counting.Store(true)
	from := vsync.Steps.Load()
	f()
	vsync.Counting.Store(false)
	mon.Beat()
	return vsync.Steps.Load() - from
}

func log2(n int) float64 { return math.Log2(float64(n + 2)) }

// --- C36: skip list -------------------------------------------------------

// order returns n distinct keys in one of several orders.
func order(c *mon.C, n int) (string, []int) {
	keys := c.Perm(n)
	switch c.IntN(6) {
	case 0:
		for i := range keys {
			keys[i] = i
		}
		return "ascending", keys
	case 1:
		for i := range keys {
			keys[i] = n - i
		}
		return "descending", keys
	case 2:
		for i := range keys {
			keys[i] = i / 2
			if i%2 == 1 {
				keys[i] = n - i/2
			}
		}
		return "from both ends", keys
	case 3:
		w := bits.Len(uint(n))
		for i := range keys {
			keys[i] = int(bits.Reverse64(uint64(i)) >> (64 - w))
		}
		return "bit-reversed", keys
	}
	return "random", keys
}

func TestC36(t *testing.T) {
	if steps(func() { gskiplist.New[int, int]().Insert(1, 1) }) == 0 {
		mon.Errorf("no statements are counted")
		return
	}
	mon.Cases(t, "skiplist", mon.Num(160, 2000), func(c *mon.C) {
		l := gskiplist.New[int, int]()
		n := 200 << c.IntN(mon.N(7, 10))
		n += c.IntN(n)
		name, keys := order(c, n)
		c.Op("%d keys, %s", n, name)
		insert := 0.0
		judge := func(what string, total float64, k, size int) {
			if k < 100 {
				return
			}
			avg := total / float64(k)
			mon.Max("statements per "+what+" and level", int(avg/log2(size)))
			if limit := 60*log2(size) + 200; avg > limit {
				c.Violate("%s took %.0f statements on average in a list of up to %d entries (%s), limit %.0f", what, avg, size, name, limit)
			}
		}
		for i, k := range keys {
			s := float64(steps(func() { l.Insert(k, i) }))
			if i >= n/2 {
				insert += s
			}
		}
		judge("Insert", insert, n-n/2, n)
		probe := func(size int) {
			const k = 400
			find, ge, missing := 0.0, 0.0, 0.0
			for i := 0; i < k; i++ {
				x := keys[c.IntN(n)]
				find += float64(steps(func() { l.Find(x) }))
				ge += float64(steps(func() { l.FindGreaterOrEqual(x) }))
				missing += float64(steps(func() { l.Find(x + n + 1) }))
			}
			judge("Find", find, k, size)
			judge("FindGreaterOrEqual", ge, k, size)
			judge("Find of a missing key", missing, k, size)
			ends := float64(0)
			for e, i := l.GetSmallestNode(), 0; e != nil && i < k; i++ {
				ends = max(ends, float64(steps(func() { l.GetSmallestNode(); l.GetLargestNode(); l.GetNodeCount() })))
				ends = max(ends, float64(steps(func() { e = l.Next(e) })))
				ends = max(ends, float64(steps(func() { l.Prev(e) })))
			}
			mon.Max("statements per step", int(ends))
			if ends > 40 {
				c.Violate("GetSmallestNode, GetLargestNode, GetNodeCount, Next or Prev took %.0f statements with %d entries", ends, size)
			}
		}
		probe(n)
		// thin it out, then fill it again
		dname, del := "random", append([]int(nil), keys...)
		switch c.IntN(3) {
		case 0:
			dname = "as inserted"
		case 1:
			dname = "last inserted first"
			for i := range del {
				del[i] = keys[n-1-i]
			}
		default:
			c.Shuffle(n, func(i, j int) { del[i], del[j] = del[j], del[i] })
		}
		part := n/2 + c.IntN(n/2)
		if c.Chance(4) {
			part = n
		}
		c.Op("delete %d, %s", part, dname)
		sum := 0.0
		for _, k := range del[:part] {
			sum += float64(steps(func() { l.Delete(k) }))
		}
		judge("Delete", sum, part, n)
		probe(n)
		c.Op("insert them again")
		insert = 0
		for i, k := range del[:part] {
			s := float64(steps(func() { l.Insert(k, i) }))
			if i >= part/2 {
				insert += s
			}
		}
		judge("Insert again", insert, part-part/2, n)
		probe(n)
		c.Distinct(n, name, dname, part)
	})
}

// --- C37: concurrent map --------------------------------------------------

func TestC37(t *testing.T) {
	if steps(func() { new(gsync.Map[int, int]).Store(1, 1) }) == 0 {
		mon.Errorf("no statements are counted")
		return
	}
	mon.Cases(t, "map", mon.Num(400, 6000), func(c *mon.C) {
		m := new(gsync.Map[int, int])
		n := 500 << c.IntN(mon.N(5, 8))
		total, ops, ranges := int64(0), 0, int64(0)
		kinds := ""
		do := func(f func()) { total += steps(f); ops++ }
		next := 0
		// phases of one pattern each, made to hit the rebuilding of the map
		for p := 2 + c.IntN(5); p > 0; p-- {
			k, size := c.IntN(12), n/2+c.IntN(n)
			kinds += fmt.Sprint(k, ",", size, ";")
			c.Op("phase %d of %d calls on %d keys", k, size, next)
			switch k {
			case 0: // new keys
				for i := 0; i < size; i++ {
					do(func() { m.Store(next, i) })
					next++
				}
			case 1: // every key read once after its store
				for i := 0; i < size; i++ {
					do(func() { m.LoadOrStore(next, i) })
					do(func() { m.Load(next) })
					next++
				}
			case 2: // missing keys
				for i := 0; i < size; i++ {
					do(func() { m.Load(-1 - i) })
				}
			case 3: // one new key, many misses
				for i := 0; i < size; i++ {
					if i%64 == 0 {
						do(func() { m.Store(next, i) })
						next++
					}
					do(func() { m.Load(-1) })
				}
			case 4: // deletes
				for i := 0; i < size && next > 0; i++ {
					x := c.IntN(next)
					do(func() { m.Delete(x) })
				}
			case 5: // store and delete of a new key
				for i := 0; i < size; i++ {
					do(func() { m.Store(next, i) })
					do(func() { m.LoadAndDelete(next) })
					next++
				}
			case 6: // overwrites
				for i := 0; i < size && next > 0; i++ {
					x := c.IntN(next)
					do(func() { m.Swap(x, i) })
				}
			case 7: // conditional calls
				for i := 0; i < size && next > 0; i++ {
					x := c.IntN(next)
					do(func() { m.CompareAndSwap(x, i, i+1) })
					do(func() { m.CompareAndDelete(x, -1) })
				}
			case 8: // a walk, which may cost as much as there are entries
				ranges++
				held := 0
				s := steps(func() { m.Range(func(_, _ int) bool { held++; return true }) })
				// entries deleted since the last rebuilding may be passed too
				if limit := int64(30*next + 300); s > limit {
					c.Violate("Range took %d statements, %d keys were ever stored", s, next)
				}
			default: // a few calls on a new key, its neighbours and missing ones, over and over
				pattern := []int{0}
				for j := 1 + c.IntN(3); j > 0; j-- {
					pattern = append(pattern, 1+c.IntN(13))
				}
				kinds += fmt.Sprint(pattern, ";")
				c.Op("repeating %v", pattern)
				for i := 0; i < size; i++ {
					for _, q := range pattern {
						last := next - 1
						switch q {
						case 0:
							do(func() { m.Store(next, i) })
							next++
						case 1:
							do(func() { m.CompareAndSwap(last, i, i) })
						case 2:
							do(func() { m.CompareAndSwap(last, -1, i) })
						case 3:
							do(func() { m.CompareAndDelete(last, i) })
						case 4:
							do(func() { m.CompareAndDelete(last, -1) })
						case 5:
							do(func() { m.CompareAndSwap(-1, i, i) })
						case 6:
							do(func() { m.CompareAndDelete(-1, i) })
						case 7:
							do(func() { m.LoadAndDelete(last) })
						case 8:
							do(func() { m.Delete(-1) })
						case 9:
							do(func() { m.LoadOrStore(last, i) })
						case 10:
							do(func() { m.Swap(last, i) })
						case 11:
							do(func() { m.Load(last) })
						case 12:
							do(func() { m.Load(-1) })
						case 13:
							x := c.IntN(next)
							do(func() { m.Delete(x) })
						}
					}
				}
			}
		}
		// after as many misses as there are keys, or a walk, loads no longer lock
		if c.Chance(2) {
			how := c.IntN(4)
			for i := 0; i < next+10; i++ {
				x := -1 - c.IntN(3)
				switch how {
				case 0:
					do(func() { m.LoadAndDelete(x) })
				case 1:
					do(func() { m.CompareAndDelete(x, 1) })
				default:
					do(func() { m.Load(x) })
				}
			}
		} else {
			m.Range(func(_, _ int) bool { return true })
			ranges++
		}
		const probes = 60
		from := vsync.Locks.Load()
		for i := 0; i < probes; i++ {
			do(func() { m.Load(c.IntN(next+20) - 10) })
		}
		locks := vsync.Locks.Load() - from
		mon.Max("locks taken by settled loads", int(locks))
		if locks > probes/10 {
			c.Violate("%d of %d loads take the lock although no key was added since as many misses as there are keys, or a walk (phases %s)", locks, probes, kinds)
		}
		// each walk may make the next store copy the map once
		limit := int64(80*ops) + ranges*int64(10*next) + 2000
		mon.Max("statements per call", int(total/int64(max(1, ops))))
		if total > limit {
			c.Violate("%d calls took %d statements, limit %d (phases %s)", ops, total, limit, kinds)
		}
		c.Distinct(kinds)
	})
}

// --- C38: heaps, lists, queues, caches ------------------------------------

func TestC38(t *testing.T) {
	if steps(func() { glist.New[int]().PushBack(1) }) == 0 {
		mon.Errorf("no statements are counted")
		return
	}
	mon.Cases(t, "heap", mon.Num(400, 8000), func(c *mon.C) {
		n := 1 << c.IntN(mon.N(13, 16))
		n += c.IntN(n)
		name, data := order(c, n)
		if c.Chance(4) {
			name = "few values"
			for i := range data {
				data[i] = c.IntN(5)
			}
		}
		calls := 0
		less := func(a, b int) bool { calls++; return a < b }
		over := func(what string, size int, limit float64) {
			mon.Beat()
			if float64(calls) > limit {
				c.Violate("%s compared %d times with %d elements (%s), limit %.0f", what, calls, size, name, limit)
			}
			calls = 0
		}
		c.Op("%d elements, %s", n, name)
		var h *gheap.Heap[int]
		if c.Chance(2) {
			h = gheap.NewWithData(append([]int(nil), data...), less)
			mon.Max("comparisons per element built (tenths)", 10*calls/n)
			over("NewWithData", n, 8*float64(n)+20)
		} else {
			h = gheap.New(less)
			for i, x := range data {
				gheap.Push(h, x)
				over("Push", i+1, 3*log2(i)+6)
			}
		}
		for i := n; i > 0 && i > n-200; i-- {
			gheap.Pop(h)
			over("Pop", i, 6*log2(i)+10)
			if c.Chance(4) {
				gheap.Push(h, data[c.IntN(n)])
				over("Push", i+1, 3*log2(i)+6)
				gheap.Pop(h)
				over("Pop", i+1, 6*log2(i)+10)
			}
		}
		c.Distinct(n, name)
	})
	mon.Cases(t, "list", mon.Num(200, 3000), func(c *mon.C) {
		l := glist.New[int]()
		n := 100 << c.IntN(7)
		var es []*glist.Element[int]
		worst, sig := int64(0), ""
		do := func(what string, f func()) {
			s := steps(f)
			worst = max(worst, s)
			if s > 100 {
				c.Violate("%s took %d statements on a list of %d", what, s, l.Len())
			}
		}
		for i := 0; i < n; i++ {
			do("PushBack", func() { es = append(es, l.PushBack(i)) })
		}
		for i := 0; i < 300; i++ {
			a, b := c.IntN(len(es)), c.IntN(len(es))
			e, f := es[a], es[b]
			k := c.IntN(11)
			sig += fmt.Sprint(k, ",")
			switch k {
			case 0:
				do("PushFront", func() { es = append(es, l.PushFront(i)) })
			case 1:
				do("InsertBefore", func() { es = append(es, l.InsertBefore(i, e)) })
			case 2:
				do("InsertAfter", func() { es = append(es, l.InsertAfter(i, e)) })
			case 3:
				do("MoveBefore", func() { l.MoveBefore(e, f) })
			case 4:
				do("MoveAfter", func() { l.MoveAfter(e, f) })
			case 5:
				do("MoveToFront", func() { l.MoveToFront(e) })
			case 6:
				do("MoveToBack", func() { l.MoveToBack(e) })
			case 7:
				do("Next", func() { e.Next() })
				do("Prev", func() { e.Prev() })
			case 8:
				do("Front", func() { l.Front() })
				do("Back", func() { l.Back() })
			case 9:
				do("Len", func() { l.Len() })
			default:
				if len(es) > 50 {
					do("Remove", func() { l.Remove(e) })
					es[a] = es[len(es)-1]
					es = es[:len(es)-1]
				}
			}
		}
		mon.Max("statements per list call", int(worst))
		c.Distinct(n, sig)
	})
	mon.Cases(t, "queue", mon.Num(100, 2000), func(c *mon.C) {
		q := gqueue.New[int]()
		worst, sig := int64(0), ""
		calls, total := int64(0), int64(0)
		do := func(what string, f func()) {
			s := steps(f)
			worst = max(worst, s)
			calls++
			if total += s; total > 60*calls+500 {
				c.Violate("%d calls took %d statements, the last one, %s on a queue of %d, took %d", calls, total, what, q.Len(), s)
			}
		}
		for p := 0; p < 6; p++ {
			n := c.IntN(3000)
			k := c.IntN(3)
			sig += fmt.Sprint(k, ",", n, ";")
			for i := 0; i < n; i++ {
				if k != 0 || i%8 == 0 {
					do("Push", func() { q.Push(i) })
				}
				if k != 1 {
					do("Pop", func() { q.Pop() })
				}
				do("Peek", func() { gqueue.Peek(q) })
				do("Len", func() { q.Len(); gqueue.IsEmpty(q) })
			}
		}
		mon.Max("statements per queue call", int(worst))
		c.Distinct(sig)
	})
	mon.Cases(t, "lru", mon.Num(200, 3000), func(c *mon.C) {
		size := 1 << c.IntN(13)
		cache := cachex.NewLRUCacheV2[int, int](size, c.IntN(3))
		ctx := context.Background()
		worst := int64(0)
		do := func(what string, f func()) {
			s := steps(f)
			worst = max(worst, s)
			if s > 200 {
				c.Violate("%s took %d statements on a cache of %d", what, s, size)
			}
		}
		rng := 1 + c.IntN(3*size)
		sig := fmt.Sprint(size, ",", rng, ";")
		ttl := func() time.Duration { return time.Hour }
		if c.Chance(2) { // some or all entries expire at once
			some := c.IntN(3)
			ttl = func() time.Duration {
				if c.IntN(3) < some {
					return time.Hour
				}
				return -1
			}
		}
		for i := 0; i < 2*size+500; i++ {
			do("Set", func() { cache.Set(ctx, i, i, ttl()) })
		}
		if c.Chance(2) {
			rng = 2*size + 500
		}
		for i := 0; i < 500; i++ {
			x := c.IntN(rng)
			switch c.IntN(5) {
			case 0, 1:
				do("Get", func() { cache.Get(ctx, x) })
			case 2:
				do("Delete", func() { cache.Delete(ctx, x) })
				if c.Chance(3) {
					do("MSet", func() { cache.MSet(ctx, map[int]int{x: i, x + 1: i}, ttl()) })
				}
			case 3:
				do("MGet", func() { cache.MGet(ctx, x, x+1) })
			default:
				do("Set", func() { cache.Set(ctx, x, i, ttl()) })
			}
		}
		mon.Max("statements per cache call", int(worst))
		c.Distinct(sig)
	})
}
