package c36

// Time monitors: what the counters of statements do not see is the work inside one
// statement (copying and moving memory, maps and slices of the standard library,
// directory listings). The same calls run on a small and on a large container; the
// fastest of many batches counts, so that pauses do not; only a call that is both
// far slower on the large one and slow on its own is reported, after it was
// measured again several times on fresh containers.

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"testing"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

type timed struct {
	name string
	// build makes a container of n entries and returns the call to be timed
	build func(c *mon.C, n int) func(i int)
}

type scale struct {
	small, large  int
	batch, rounds int
	ratio         float64       // a larger one between large and small
	floor         time.Duration // and more than this per call is a violation
	bytes         float64       // and so is allocating more than this and 8 times as much
}

// measure returns the time of a call in the fastest batch and the memory a call
// allocates, averaged over all batches.
func (s scale) measure(c *mon.C, op timed, n int) (time.Duration, float64) {
	f := op.build(c, n)
	mon.Beat()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	best := time.Duration(1 << 62)
	i := 0
	for r := 0; r < s.rounds; r++ {
		from := time.Now()
		for b := 0; b < s.batch; b++ {
			f(i)
			i++
		}
		best = min(best, time.Since(from))
		mon.Beat()
	}
	runtime.ReadMemStats(&after)
	return max(best/time.Duration(s.batch), 1), float64(after.TotalAlloc-before.TotalAlloc) / float64(i)
}

func (s scale) run(t *testing.T, what string, ops []timed) {
	mon.Cases(t, what, len(ops)*mon.N(2, 6), func(c *mon.C) {
		op := ops[c.Idx%len(ops)]
		large := s.large
		if c.Idx >= len(ops) {
			large /= 1 + c.IntN(4)
		}
		c.Op("%s on %d and %d entries", op.name, s.small, large)
		var seen []string
		for try := 0; try < 5; try++ {
			a, aMem := s.measure(c, op, s.small)
			b, bMem := s.measure(c, op, large)
			ratio := float64(b) / float64(a)
			if try == 0 {
				mon.Max("time_ratio_percent", int(100*ratio))
				mon.Max("nanoseconds_per_call", int(b))
				mon.Max("bytes_per_call", int(bMem))
			}
			mon.Count("timed_batches", 2*s.rounds)
			if (ratio < s.ratio || b < s.floor) && (bMem < 8*aMem || bMem < s.bytes) {
				c.Distinct(op.name, large)
				return
			}
			seen = append(seen, fmt.Sprintf("%v, %.0f bytes and %v, %.0f bytes", a, aMem, b, bMem))
		}
		c.Violate("%s takes far longer or allocates far more on %d entries than on %d, measured %d times: %v", op.name, large, s.small, len(seen), seen)
	})
}

var inMemory = scale{small: 64, large: 1 << 17, batch: 300, rounds: 40, ratio: 60, floor: 15 * time.Microsecond, bytes: 4000}

func TestTimeC36(t *testing.T) {
	build := func(c *mon.C, n int) *gskiplist.SkipList[int, int] {
		l := gskiplist.New[int, int]()
		for _, k := range c.Perm(n) {
			l.Insert(2*k, k)
		}
		return l
	}
	op := func(name string, f func(l *gskiplist.SkipList[int, int], n, x int)) timed {
		return timed{name, func(c *mon.C, n int) func(int) {
			l := build(c, n)
			xs := c.Perm(n)
			return func(i int) { f(l, n, xs[i%n]) }
		}}
	}
	type list = gskiplist.SkipList[int, int]
	inMemory.run(t, "time", []timed{
		op("Insert and Delete", func(l *list, n, x int) { l.Insert(2*x+1, x); l.Delete(2*x + 1) }),
		op("Insert and Delete in front", func(l *list, n, x int) { l.Insert(-1, x); l.Delete(-1) }),
		op("Insert and Delete at the end", func(l *list, n, x int) { l.Insert(2*n, x); l.Delete(2 * n) }),
		op("Insert of a present key", func(l *list, n, x int) { l.Insert(2*x, x) }),
		op("ChangeValue", func(l *list, n, x int) { l.ChangeValue(2*x, x) }),
		op("Find", func(l *list, n, x int) { l.Find(2 * x); l.Find(2*x + 1) }),
		op("FindGreaterOrEqual", func(l *list, n, x int) { l.FindGreaterOrEqual(2*x - 1) }),
		op("walking", func(l *list, n, x int) { l.Next(l.GetLargestNode()); l.Prev(l.GetSmallestNode()); l.GetNodeCount() }),
	})
}

func TestTimeC37(t *testing.T) {
	type maps = gsync.Map[int, int]
	op := func(name string, f func(m *maps, n, i int)) timed {
		return timed{name, func(c *mon.C, n int) func(int) {
			m := new(maps)
			for i := 0; i < n; i++ {
				m.Store(i, i)
			}
			if c.Chance(2) {
				m.Range(func(_, _ int) bool { return true })
				m.Store(n, n)
			}
			return func(i int) { f(m, n, i) }
		}}
	}
	inMemory.run(t, "time", []timed{
		op("Load", func(m *maps, n, i int) { m.Load(i * 7 % n); m.Load(-1) }),
		op("Store", func(m *maps, n, i int) { m.Store(i*7%n, i) }),
		op("Store of new keys", func(m *maps, n, i int) { m.Store(n+i, i) }),
		op("Store, Load and Delete of new keys", func(m *maps, n, i int) { m.Store(n+i, i); m.Load(n + i); m.Delete(n + i) }),
		op("LoadOrStore", func(m *maps, n, i int) { m.LoadOrStore(n+i, i); m.LoadOrStore(n+i, i) }),
		op("Swap", func(m *maps, n, i int) { m.Swap(i*7%n, i) }),
		op("LoadAndDelete and Store", func(m *maps, n, i int) { m.LoadAndDelete(i * 7 % n); m.Store(i*7%n, i) }),
		op("CompareAndSwap", func(m *maps, n, i int) { m.CompareAndSwap(i*7%n, i*7%n, i*7%n); m.CompareAndSwap(-1, 1, 2) }),
		op("CompareAndDelete", func(m *maps, n, i int) { m.CompareAndDelete(i*7%n, -1); m.CompareAndDelete(-1, 2) }),
	})
}

func TestTimeC38(t *testing.T) {
	var ops []timed
	heap := func(name string, f func(h *gheap.Heap[int], n, x int)) {
		ops = append(ops, timed{"heap: " + name, func(c *mon.C, n int) func(int) {
			xs := c.Perm(n)
			h := gheap.New(func(a, b int) bool { return a < b })
			if c.Chance(2) {
				h = gheap.NewWithData(append([]int(nil), xs...), func(a, b int) bool { return a < b })
			} else {
				for _, x := range xs {
					gheap.Push(h, x)
				}
			}
			return func(i int) { f(h, n, xs[i%n]) }
		}})
	}
	heap("Push", func(h *gheap.Heap[int], n, x int) { gheap.Push(h, x) })
	heap("Push and Pop", func(h *gheap.Heap[int], n, x int) { gheap.Push(h, x); gheap.Pop(h) })

	type list = glist.List[int]
	type elem = glist.Element[int]
	lists := func(name string, f func(l *list, e, g *elem, i int)) {
		ops = append(ops, timed{"list: " + name, func(c *mon.C, n int) func(int) {
			l := glist.New[int]()
			es := make([]*elem, n)
			for i := range es {
				es[i] = l.PushBack(i)
			}
			xs := c.Perm(n)
			return func(i int) { f(l, es[xs[i%n]], es[xs[(i+1)%n]], i) }
		}})
	}
	lists("PushBack", func(l *list, e, g *elem, i int) { l.PushBack(i) })
	lists("PushFront", func(l *list, e, g *elem, i int) { l.PushFront(i) })
	lists("InsertAfter and Remove", func(l *list, e, g *elem, i int) { l.Remove(l.InsertAfter(i, e)) })
	lists("InsertBefore and Remove", func(l *list, e, g *elem, i int) { l.Remove(l.InsertBefore(i, e)) })
	lists("MoveToFront", func(l *list, e, g *elem, i int) { l.MoveToFront(e) })
	lists("MoveToBack", func(l *list, e, g *elem, i int) { l.MoveToBack(e) })
	lists("MoveBefore and MoveAfter", func(l *list, e, g *elem, i int) { l.MoveBefore(e, g); l.MoveAfter(g, e) })
	lists("neighbours", func(l *list, e, g *elem, i int) { e.Next(); g.Prev(); l.Front(); l.Back(); l.Len() })

	type queue = gqueue.Queue[int]
	queues := func(name string, f func(q *queue, i int)) {
		ops = append(ops, timed{"queue: " + name, func(c *mon.C, n int) func(int) {
			q := gqueue.New[int]()
			for i := 0; i < n; i++ {
				q.Push(i)
			}
			return func(i int) { f(q, i) }
		}})
	}
	queues("Push", func(q *queue, i int) { q.Push(i) })
	queues("Push and Pop", func(q *queue, i int) { q.Push(i); q.Pop() })
	queues("Peek", func(q *queue, i int) { gqueue.Peek(q); q.Len(); gqueue.IsEmpty(q) })

	ctx := context.Background()
	type cache = cachex.LRUCacheV2[int, int]
	lru := func(name string, f func(l *cache, n, i int)) {
		ops = append(ops, timed{"LRU cache: " + name, func(c *mon.C, n int) func(int) {
			l := cachex.NewLRUCacheV2[int, int](n, 0)
			for i := 0; i < n; i++ {
				l.Set(ctx, i, i, time.Hour)
			}
			return func(i int) { f(l, n, i) }
		}})
	}
	lru("Get", func(l *cache, n, i int) { l.Get(ctx, i*7%n); l.Get(ctx, -1) })
	lru("MGet", func(l *cache, n, i int) { l.MGet(ctx, i*7%n, -1, i*13%n) })
	lru("Set", func(l *cache, n, i int) { l.Set(ctx, i*7%n, i, time.Hour) })
	lru("Set of new keys", func(l *cache, n, i int) { l.Set(ctx, n+i, i, time.Hour) })
	lru("Set and Get of expired entries", func(l *cache, n, i int) { l.Set(ctx, i*7%n, i, -1); l.Get(ctx, i*7%n) })
	lru("Delete and Set", func(l *cache, n, i int) { l.Delete(ctx, i*7%n); l.Set(ctx, i*7%n, i, time.Hour) })

	inMemory.run(t, "time", ops)
}

func TestTimeStoreC38(t *testing.T) {
	ctx := context.Background()
	type store = cachex.FileStore[int, int]
	var ops []timed
	add := func(name string, f func(s *store, n, i int)) {
		ops = append(ops, timed{"file store: " + name, func(c *mon.C, n int) func(int) {
			dir, err := os.MkdirTemp("", "c38-")
			if err != nil {
				mon.Errorf("no scratch directory: %v", err)
				return func(int) {}
			}
			t.Cleanup(func() { os.RemoveAll(dir) })
			s := &store{Dir: dir, GCCycle: time.Hour}
			for i := 0; i < n; i++ {
				if err := s.Set(ctx, i, i, time.Hour); err != nil {
					mon.Errorf("Set: %v", err)
					break
				}
				mon.Beat()
			}
			return func(i int) { f(s, n, i) }
		}})
	}
	add("Get", func(s *store, n, i int) { s.Get(ctx, i*7%n); s.Get(ctx, -1) })
	add("MGet", func(s *store, n, i int) { s.MGet(ctx, i*7%n, i*5%n, -1) })
	add("Set", func(s *store, n, i int) { s.Set(ctx, i*7%n, i, time.Hour) })
	add("Set and Delete of new keys", func(s *store, n, i int) { s.Set(ctx, n+i%50, i, time.Hour); s.Delete(ctx, n+i%50) })
	add("Get of expired entries", func(s *store, n, i int) { s.Set(ctx, i*7%n, i, -1); s.Get(ctx, i*7%n) })
	add("MSet", func(s *store, n, i int) { s.MSet(ctx, map[int]int{i * 7 % n: i, n + i%50: i}, time.Hour) })

	scale{small: 4, large: mon.N(1500, 4000), batch: 6, rounds: 15, ratio: 12, floor: 300 * time.Microsecond, bytes: 60000}.run(t, "timestore", ops)
}
