// Monitor for C42: memory follows what is stored, not how often something was
// called. An object goes through many rounds of balanced work (what is put in
// is taken out again) while the live heap, stacks included, is measured after
// garbage collections.
package c42

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"runtime"

	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// work makes one object and returns one round of balanced work on it; i counts
// the rounds and never repeats.
type work struct {
	name   string
	rounds int
	make   func(c *mon.C) (round func(i int), hold any)
}

// live returns the bytes reachable, and of goroutine stacks.
func live() int {
	var m runtime.MemStats
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc + m.StackInuse)
}

var (
	ctx  = context.Background()
	sink any
)

func less(a, b int) bool { return a < b }

var works = []work{
	{"queue", 20000, func(c *mon.C) (func(int), any) {
		q := gqueue.New[int]()
		d := 1 + c.IntN(20)
		return func(i int) {
			_ = q.Push(i)
			_, _ = gqueue.Peek(q)
			if q.Len() > d {
				_, _ = q.Pop()
			}
			switch i % 5000 {
			case 0:
				gqueue.Clear(q)
			case 2500:
				for range gqueue.Iterator(q) {
				}
			}
		}, q
	}},
	{"heap", 20000, func(c *mon.C) (func(int), any) {
		h := gheap.New[int](less)
		d := 1 + c.IntN(20)
		n := 0
		return func(i int) {
			gheap.Push(h, i*7919%1000)
			if n++; n > d {
				gheap.Pop(h)
				n--
			}
		}, h
	}},
	{"skip list, new keys", 8000, func(c *mon.C) (func(int), any) {
		l := gskiplist.New[int, int]()
		d := 1 + c.IntN(50)
		return func(i int) {
			l.Insert(i, i)
			l.Delete(i - d)
			l.Find(i)
			l.FindGreaterOrEqual(i - d/2)
			l.Delete(i + 1)
		}, l
	}},
	{"skip list, few keys", 8000, func(c *mon.C) (func(int), any) {
		l := gskiplist.New[int, int]()
		n := 2 + c.IntN(40)
		return func(i int) {
			l.Insert(c.IntN(n), i)
			l.Delete(c.IntN(n))
			l.ChangeValue(c.IntN(n), i)
		}, l
	}},
	{"tree, new keys", 12000, func(c *mon.C) (func(int), any) {
		t := rbt.New[int, int](less)
		d := 1 + c.IntN(50)
		return func(i int) {
			t.Insert(i, i)
			t.Delete(i - d)
			t.Delete(i + 1)
			t.Get(i)
		}, t
	}},
	{"tree, few keys", 12000, func(c *mon.C) (func(int), any) {
		t := rbt.New[int, int](less)
		n := 2 + c.IntN(40)
		return func(i int) {
			t.Insert(c.IntN(n), i)
			t.Update(c.IntN(n), i)
			t.Delete(c.IntN(n))
			if i%50 == 0 {
				sink = t.SubTree(0, true, n/2+1, false)
				t.LeftSubTree(n/2, true)
				t.RightSubTree(n/2, true)
				sink = t.Keys()
				sink = t.String()
			}
			if i%3000 == 0 {
				t.Clear()
			}
		}, t
	}},
	{"list", 20000, func(c *mon.C) (func(int), any) {
		l := glist.New[int]()
		other := glist.New[int]()
		d := 2 + c.IntN(20)
		return func(i int) {
			switch i % 4 {
			case 0:
				l.PushFront(i)
			case 1:
				l.PushBack(i)
			case 2:
				l.InsertAfter(i, l.Front())
			case 3:
				l.InsertBefore(i, l.Back())
			}
			l.MoveToFront(l.Back())
			l.MoveToBack(l.Front())
			l.MoveAfter(l.Front(), l.Back())
			for l.Len() > d {
				l.Remove(l.Front())
			}
			if i%64 == 0 {
				other.PushBackList(l)
				for other.Len() > 0 {
					other.Remove(other.Back())
				}
			}
		}, l
	}},
	{"ring", 8000, func(c *mon.C) (func(int), any) {
		r := gring.New[int](3 + c.IntN(10))
		return func(i int) {
			r.Link(gring.New[int](1 + i%3))
			r.Unlink(1 + i%3)
			r = r.Move(i%5 - 2)
		}, r
	}},
	{"set", 20000, func(c *mon.C) (func(int), any) {
		st := gset.NewSet[int]()
		d := 1 + c.IntN(50)
		return func(i int) {
			gset.Add(st, i)
			gset.Contains(st, i)
			gset.Remove(st, i-d)
			if i%1000 == 0 {
				sink = gset.Items(st)
				gset.Clear(st)
			}
		}, st
	}},
	{"concurrent map, new keys", 20000, func(c *mon.C) (func(int), any) {
		var m gsync.Map[int, int]
		d := 1 + c.IntN(50)
		how := c.IntN(4)
		period := mon.Pick(c, 20, 100, 2000)
		return func(i int) {
			switch i % 3 {
			case 0:
				m.Store(i, i)
			case 1:
				m.LoadOrStore(i, i)
			default:
				m.Swap(i, i)
			}
			switch how {
			case 0:
				m.Delete(i - d)
			case 1:
				m.LoadAndDelete(i - d)
			case 2:
				m.CompareAndDelete(i-d, i-d)
			default:
				m.CompareAndDelete(i-d, 0)
				m.Delete(i - d)
			}
			m.Load(i - d/2)
			m.Load(-i)
			if i%period == 0 {
				m.Range(func(int, int) bool { return true })
			}
		}, &m
	}},
	{"concurrent map, missing keys", 20000, func(c *mon.C) (func(int), any) {
		var m gsync.Map[int, int]
		return func(i int) {
			m.Load(i)
			m.Delete(i)
			m.CompareAndSwap(i, 0, 1)
			m.CompareAndDelete(i, 0)
			m.LoadAndDelete(i)
			m.Store(i%5, i)
			m.Store(i%5, i)
		}, &m
	}},
	{"LRU cache, new keys", 12000, func(c *mon.C) (func(int), any) {
		l := cachex.NewLRUCacheV2[int, int](1+c.IntN(30), mon.Pick(c, 0, 1, 3))
		ttl := mon.Pick(c, time.Hour, -1, time.Nanosecond)
		return func(i int) {
			_ = l.Set(ctx, i, i, ttl)
			_, _, _ = l.Get(ctx, i)
			_, _, _ = l.Get(ctx, i-3)
			_, _, _ = l.MGet(ctx, i, i-1, -i)
			_ = l.MSet(ctx, map[int]int{i: i, i + 1: i}, ttl)
			_ = l.Delete(ctx, i-1, -i)
		}, l
	}},
	{"cache chain", 6000, func(c *mon.C) (func(int), any) {
		ch := &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{
			{Cache: cachex.NewLRUCacheV2[int, int](4, 0), TTL: time.Hour},
			{Cache: &cachex.NoCache[int, int]{}, TTL: time.Hour},
			{Cache: cachex.NewLRUCacheV2[int, int](12, 2), TTL: time.Hour},
		}}
		return func(i int) {
			_ = ch.Set(ctx, i, i, 0)
			_, _, _ = ch.Get(ctx, i-6)
			r, _ := cachex.MGet[int, int](ctx, ch, i, i-5, i-5, -i)
			sink = r.HitKeys()
			_ = ch.MSet(ctx, map[int]int{i: i, i + 1: i}, 0)
			_ = ch.Delete(ctx, i-2, -i)
		}, ch
	}},
	{"file cache", 250, func(c *mon.C) (func(int), any) {
		dir, err := os.MkdirTemp("", "gosb-c42-")
		if err != nil {
			panic(err)
		}
		f := &cachex.FileStore[int, string]{Dir: dir}
		return func(i int) {
			if i < 0 {
				_ = os.RemoveAll(dir)
				return
			}
			_ = f.Set(ctx, i, "value", time.Hour)
			_, _, _ = f.Get(ctx, i)
			_, _, _ = f.MGet(ctx, i-1, i, i+1)
			_ = f.Delete(ctx, i)
			if i%50 == 0 {
				_ = f.Purge()
				_ = os.RemoveAll(dir)
			}
		}, f
	}},
	{"bit set", 12000, func(c *mon.C) (func(int), any) {
		b := bitset.New()
		o := bitset.New(1, 2, 3)
		n := 1 + c.IntN(200)
		return func(i int) {
			_, _ = b.Set(c.IntN(n), i%2 == 0)
			b.Get(c.IntN(n))
			if i%20 == 0 {
				sink = b.And(o).Or(b, o).Xor(b).AndNot(o)
				sink = b.Not()
				sink = b.Sub(1, n)
				b.Count(0, n)
				b.Range(func(int, bool) bool { return true })
			}
			if i%900 == 0 {
				b.Clear()
			}
		}, b
	}},
	{"error register", 20000, func(c *mon.C) (func(int), any) {
		ae := &gconstraints.AtomicError{}
		return func(i int) {
			ae.Set(fmt.Errorf("error %d", i))
			sink = ae.Load()
			if i%7 == 0 {
				ae.Set(errors.New("other"))
			}
		}, ae
	}},
	{"pools", 20000, func(c *mon.C) (func(int), any) {
		p := gpool.New(func() *[4]int { return new([4]int) })
		a := gpool.NewArrayPool[int](8)
		return func(i int) {
			x, y := p.Get(), p.Get()
			p.Put(x)
			p.Put(y)
			s := a.Get()
			a.Put(s)
		}, []any{&p, &a}
	}},
	{"map-reduce", 400, func(c *mon.C) (func(int), any) {
		n, w := c.IntN(12), 1+c.IntN(4)
		fail := errors.New("stop")
		return func(i int) {
			gen := func(src chan<- int) {
				for j := 0; j < n; j++ {
					src <- j
				}
			}
			sum := func(pipe <-chan int, wr mr.Writer[int], _ func(error)) {
				s := 0
				for v := range pipe {
					s += v
				}
				wr.Write(s)
			}
			switch i % 5 {
			case 0:
				_, _ = mr.MapReduce(gen, func(v int, wr mr.Writer[int], _ func(error)) { wr.Write(v) }, sum, mr.WithWorkers(w))
			case 1:
				_, _ = mr.MapReduce(gen, func(v int, wr mr.Writer[int], cancel func(error)) {
					if v == n/2 {
						cancel(fail)
					}
				}, sum, mr.WithWorkers(w))
			case 2:
				mr.ForEach(gen, func(int) {}, mr.WithWorkers(w))
			case 3:
				_ = mr.Finish(func() error { return nil }, func() error { return fail })
			case 4:
				k, stop := context.WithCancel(ctx)
				stop()
				_, _ = mr.MapReduce(gen, func(v int, wr mr.Writer[int], _ func(error)) { wr.Write(v) }, sum, mr.WithContext(k))
			}
		}, nil
	}},
	{"text helpers, new texts", 3000, func(c *mon.C) (func(int), any) {
		return func(i int) {
			s := fmt.Sprintf("userId%d http api_%d <b>", i, i*7)
			id := fmt.Sprintf("user_id_%d_http", i)
			sink = stringx.SnakeString(fmt.Sprint("UserHTTPName", i))
			sink = stringx.CamelString(id)
			sink = stringx.LintCamelString(id)
			sink = stringx.SpaceInOne(s + "  " + s)
			sink = stringx.Indent(s, "  ")
			sink = stringx.StringMarshalJSON(s, i%2 == 0)
			sink = stringx.HTMLEntityToUTF8(fmt.Sprintf("&#x%x;", 0x100+i%5000), 16)
			sink = stringx.CodePointToUTF8(fmt.Sprintf(`\u%04x`, 0x100+i%5000), 16)
			sink = password.CheckPassword(s, 7, 3, 40)
		}, nil
	}},
	{"digests and encryption, new texts", 3000, func(c *mon.C) (func(int), any) {
		return func(i int) {
			b := []byte(fmt.Sprintf("text number %d", i))
			key := make([]byte, 16)
			copy(key, fmt.Sprint(i))
			sink = cryptox.Md5(b)
			sink = cryptox.Sha1(b)
			sink = cryptox.Sha256(b)
			sink = cryptox.Sha512(b)
			sink = cryptox.Fnv1aToUint64(b)
			sink = cryptox.Fnv1aToUint32(b)
			sink, _ = cryptox.AESDecrypt(key, cryptox.AESEncrypt(key, b))
			sink, _ = cryptox.AESCBCDecrypt(key, cryptox.AESCBCEncrypt(key, b, true), true)
			sink, _ = cryptox.AESCTRDecrypt(key, cryptox.AESCTREncrypt(key, b))
			sink, _ = cryptox.AESDecrypt(key, []byte(hex.EncodeToString(b)))
		}, nil
	}},
	{"slice, map and random helpers", 6000, func(c *mon.C) (func(int), any) {
		return func(i int) {
			a := []int{i, i + 1, i, 3}
			u, _ := gslice.Unique(a)
			sink = gslice.Merge(a, u)
			sink = gslice.Copy(a)
			sink = gslice.Reverse(gslice.Shuffle(a))
			m := map[int]int{i: 1, i + 1: 2}
			sink = gmap.Copy(m)
			sink = gmap.Entries2Map(gmap.Map2Entries(m))
			sink = fastrand.Perm(5)
			sink = fastrand.Intn(i + 1)
			_, _ = fastrand.Read(make([]byte, i%40))
		}, nil
	}},
}

// perRound is the growth allowed for each round, spare a constant.
const (
	perRound = 4
	spare    = 48 << 10
)

func TestC42(t *testing.T) {
	mon.Cases(t, "rounds", mon.Num(240, 6000), func(c *mon.C) {
		w := works[c.Idx%len(works)]
		c.Op("%s", w.name)
		round, hold := w.make(c)
		defer func() {
			if w.name == "file cache" {
				round(-1)
			}
		}()
		i := 0
		run := func(n int) int {
			for ; n > 0; n-- {
				round(i)
				if i++; i%1000 == 0 {
					mon.Beat()
				}
			}
			mon.Beat()
			sink = nil
			// goroutines that are ending may still be there
			time.Sleep(200 * time.Microsecond)
			return live()
		}
		// what grows with the number of rounds grows every time
		var sizes []int
		sizes = append(sizes, run(w.rounds/2))
		n := w.rounds
		for {
			sizes = append(sizes, run(n))
			mon.Count("rounds", n)
			grown := sizes[len(sizes)-1] - sizes[len(sizes)-2]
			mon.Count("measurements", 1)
			if grown <= perRound*n+spare {
				break
			}
			if len(sizes) == 5 {
				c.Violate("%s: the live memory keeps growing under balanced work: %v bytes after %d, then %d more rounds, doubling each time (%d bytes for the last %d rounds)",
					w.name, sizes, w.rounds/2, w.rounds, grown, n)
			}
			n *= 2
		}
		runtime.KeepAlive(hold)
		mon.Max("bytes grown", sizes[len(sizes)-1]-sizes[len(sizes)-2])
		c.Distinct(w.name, c.Idx)
		c.SampleTrace()
	})
}

// --- filled and emptied -----------------------------------------------------

type filler struct {
	name string
	n    int
	make func() (fill, drain func(n int), hold any)
}

var fillers = []filler{
	{"queue", 30000, func() (func(int), func(int), any) {
		q := gqueue.New[[3]int]()
		return func(n int) {
				for i := 0; i < n; i++ {
					_ = q.Push([3]int{i})
				}
			}, func(n int) {
				for i := 0; i < n; i++ {
					_, _ = q.Pop()
				}
			}, q
	}},
	{"list", 30000, func() (func(int), func(int), any) {
		l := glist.New[int]()
		return func(n int) {
				for i := 0; i < n; i++ {
					l.PushBack(i)
				}
			}, func(n int) {
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						l.Remove(l.Front())
					} else {
						l.Remove(l.Back())
					}
				}
			}, l
	}},
	{"skip list", 12000, func() (func(int), func(int), any) {
		l := gskiplist.New[int, int]()
		return func(n int) {
				for i := 0; i < n; i++ {
					l.Insert(i*7919%n, i)
				}
			}, func(n int) {
				for i := n - 1; i >= 0; i-- {
					l.Delete(i * 7907 % n)
				}
				for !l.IsEmpty() {
					e := l.GetSmallestNode()
					_ = e
					break
				}
			}, l
	}},
	{"tree", 12000, func() (func(int), func(int), any) {
		t := rbt.New[int, int](less)
		return func(n int) {
				for i := 0; i < n; i++ {
					t.Insert(i*7919%n, i)
				}
			}, func(n int) {
				for i := n - 1; i >= 0; i-- {
					t.Delete(i)
				}
			}, t
	}},
	{"cleared tree", 12000, func() (func(int), func(int), any) {
		t := rbt.New[int, int](less)
		return func(n int) {
			for i := 0; i < n; i++ {
				t.Insert(i, i)
			}
		}, func(int) { t.Clear() }, t
	}},
	{"cleared queue", 30000, func() (func(int), func(int), any) {
		q := gqueue.New[int]()
		return func(n int) {
			for i := 0; i < n; i++ {
				_ = q.Push(i)
			}
		}, func(int) { gqueue.Clear(q) }, q
	}},
	{"ring", 20000, func() (func(int), func(int), any) {
		r := gring.New[int](2)
		return func(n int) { r.Link(gring.New[int](n)) }, func(n int) { r.Unlink(n) }, r
	}},
}

func TestC42Emptied(t *testing.T) {
	mon.Cases(t, "emptied", mon.Num(56, 2000), func(c *mon.C) {
		f := fillers[c.Idx%len(fillers)]
		n := f.n/2 + c.IntN(f.n/2)
		n = n/2*2 + 1
		for n%7919 == 0 || n%7907 == 0 {
			n += 2
		}
		c.Op("%s, %d elements", f.name, n)
		fill, drain, hold := f.make()
		before := live()
		for round := 0; round < 2; round++ {
			fill(n)
			mon.Beat()
			full := live()
			drain(n)
			mon.Beat()
			empty := live()
			for try := 0; try < 3 && empty-before > 2*n+spare; try++ {
				time.Sleep(time.Millisecond)
				empty = live()
			}
			if full-before < 2*n { // an element is a word at least
				c.Violate("%s: %d elements take %d bytes, the monitor does not see them", f.name, n, full-before)
			}
			mon.Max("bytes filled", full-before)
			if left := empty - before; left > 2*n+spare {
				c.Violate("%s: %d elements took %d bytes, %d bytes are left after all of them were taken out", f.name, n, full-before, left)
			}
		}
		runtime.KeepAlive(hold)
		c.Distinct(f.name, n)
	})
}
