// Monitor for C35: what was taken out of a container becomes garbage, what is
// in it does not. Every value is watched by a weak pointer; after the calls of a
// round (made by a goroutine that has ended, so that no stack holds anything)
// and a garbage collection, exactly the values in the container may be left.
package c35

import (
	"context"
	"fmt"
	"runtime"
	"testing"
	"time"
	"weak"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// val is large enough not to share its memory with another one.
type val struct {
	id, rank int
	pad      [6]*val
}

// ledger knows of every value whether the container holds it.
type ledger struct {
	*mon.C
	w    []weak.Pointer[val]
	live map[int]bool
	skip map[int]bool // not judged
}

func (l *ledger) new() *val {
	v := &val{id: len(l.w), rank: l.IntN(1 << 20)}
	l.w = append(l.w, weak.Make(v))
	l.live[v.id] = true
	return v
}

func (l *ledger) drop(v *val) { delete(l.live, v.id) }

func (l *ledger) dropID(id int) { delete(l.live, id) }

// check compares what is reachable with the ledger.
func (l *ledger) check(what string) {
	var left, lost []int
	for try := 0; try < 4; try++ {
		runtime.GC()
		left, lost = left[:0], lost[:0]
		for id, w := range l.w {
			if alive := w.Value() != nil; alive && !l.live[id] && !l.skip[id] {
				left = append(left, id)
			} else if !alive && l.live[id] && !l.skip[id] {
				lost = append(lost, id)
			}
		}
		if len(left)+len(lost) == 0 {
			break
		}
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	mon.Count("collections", 1)
	mon.Max("values watched", len(l.w))
	if len(lost) > 0 {
		l.Violate("%s: values %v are in the container but were collected as garbage", what, lost)
	}
	if len(left) > 0 {
		l.Violate("%s: values %v were taken out but are still reachable; %d values are held", what, left, len(l.live))
	}
}

// subject makes one random call and returns its description.
type subject interface {
	step(l *ledger) string
	flush(l *ledger) // calls that have to be made before keys are released
}

type keep struct{}

func (keep) flush(*ledger) {}

// round runs f on a goroutine of its own, so that no stack keeps a value.
func round(l *ledger, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		mon.Guard(l.C, f)
	}()
	<-done
}

func run(mk func(l *ledger) subject) func(c *mon.C) {
	return func(c *mon.C) {
		l := &ledger{C: c, live: map[int]bool{}, skip: map[int]bool{}}
		var s subject
		round(l, func() { s = mk(l) })
		if s == nil {
			return
		}
		sig := fmt.Sprintf("%T", s)
		removed := false
		for r := 1 + c.IntN(4); r > 0; r-- {
			bad := false
			round(l, func() {
				bad = true
				for n := 1 + max(c.Size(40), c.Big(150, 3000)); n > 0; n-- {
					op := s.step(l)
					c.Op("%s", op)
					sig += ";" + op
				}
				s.flush(l)
				bad = false
			})
			if bad {
				return
			}
			l.check(sig[:min(len(sig), 24)])
			removed = removed || len(l.live) < len(l.w)
		}
		runtime.KeepAlive(s)
		if removed {
			c.Distinct(sig)
		}
	}
}

// --- heap -----------------------------------------------------------------

type heapS struct {
	keep
	h *gheap.Heap[*val]
	n int
}

func newHeap(l *ledger) subject {
	less := func(a, b *val) bool { return a.rank < b.rank }
	if l.Chance(2) {
		return &heapS{h: gheap.New(less)}
	}
	n := max(l.Size(60), l.Big(150, 3000))
	data := make([]*val, 0, n+l.IntN(5))
	for i := 0; i < n; i++ {
		data = append(data, l.new())
	}
	return &heapS{h: gheap.NewWithData(data, less), n: n}
}

func (s *heapS) step(l *ledger) string {
	if s.n > 0 && l.IntN(2) == 0 {
		l.drop(gheap.Pop(s.h))
		s.n--
		return "Pop"
	}
	gheap.Push(s.h, l.new())
	s.n++
	return "Push"
}

// --- linked list ----------------------------------------------------------

type listS struct {
	keep
	l, m *glist.List[*val]
	held []*glist.Element[*val]
}

func newList(l *ledger) subject { return &listS{l: glist.New[*val](), m: new(glist.List[*val])} }

func at(l *ledger, x *glist.List[*val]) *glist.Element[*val] {
	e := x.Front()
	for i := l.IntN(max(1, x.Len())); i > 0; i-- {
		e = e.Next()
	}
	return e
}

func (s *listS) step(l *ledger) string {
	x := s.l
	if l.Chance(4) {
		x = s.m
	}
	e := at(l, x)
	switch k := l.IntN(10); {
	case k < 4 && e != nil:
		l.drop(e.Value)
		if l.Chance(8) { // somebody keeps the element, that must not keep its neighbours
			l.skip[e.Value.id] = true
			s.held = append(s.held, e)
		}
		x.Remove(e)
		return "Remove"
	case k == 4:
		x.PushFront(l.new())
		return "PushFront"
	case k == 5 && e != nil:
		x.InsertBefore(l.new(), e)
		return "InsertBefore"
	case k == 6 && e != nil:
		x.InsertAfter(l.new(), at(l, x))
		return "InsertAfter"
	case k == 7 && e != nil:
		x.MoveAfter(e, at(l, x))
		return "MoveAfter"
	case k == 8 && e != nil:
		x.MoveToFront(e)
		return "MoveToFront"
	case k == 9 && l.Chance(20): // the list is given up, elements taken out earlier stay
		for e := s.l.Front(); e != nil; e = e.Next() {
			l.drop(e.Value)
		}
		for e := s.m.Front(); e != nil; e = e.Next() {
			l.drop(e.Value)
		}
		s.l, s.m = glist.New[*val](), new(glist.List[*val])
		return "give up"
	}
	x.PushBack(l.new())
	return "PushBack"
}

// --- queue ----------------------------------------------------------------

type queueS struct {
	keep
	q *gqueue.Queue[*val]
}

func newQueue(l *ledger) subject {
	var in []*val
	for i := l.Size(10); i > 0; i-- {
		in = append(in, l.new())
	}
	return &queueS{q: gqueue.Gen(in)}
}

func (s *queueS) step(l *ledger) string {
	switch l.IntN(12) {
	case 0, 1, 2, 3, 4:
		if v, err := s.q.Pop(); err == nil {
			l.drop(v)
		}
		return "Pop"
	case 5:
		gqueue.PeekAll(s.q)
		return "PeekAll"
	case 6:
		for v := range gqueue.Iterator(s.q) { // takes everything out
			l.drop(v)
		}
		return "Iterator"
	case 7:
		if l.Chance(6) {
			for _, v := range gqueue.PeekAll(s.q) {
				l.drop(v)
			}
			gqueue.Clear(s.q)
			return "Clear"
		}
	}
	_ = s.q.Push(l.new())
	return "Push"
}

// --- ring -----------------------------------------------------------------

type ringS struct {
	keep
	r *gring.Ring[*val]
}

func newRing(l *ledger) subject {
	s := &ringS{r: gring.New[*val](1 + l.Size(30))}
	for i, p := s.r.Len(), s.r; i > 0; i-- {
		p.Value = l.new()
		p = p.Next()
	}
	return s
}

func (s *ringS) step(l *ledger) string {
	s.r = s.r.Move(l.IntN(9) - 4)
	switch n := s.r.Len(); l.IntN(4) {
	case 0:
		if n > 1 {
			x := s.r.Unlink(1 + l.IntN(n-1))
			x.Do(func(v any) { l.drop(v.(*val)) })
			return "Unlink"
		}
	case 1:
		if n > 2 { // the shorter way round is given up
			s.r.Link(s.r.Move(2 + l.IntN(n-2))).Do(func(v any) { l.drop(v.(*val)) })
			return "Link within"
		}
	}
	x := gring.New[*val](1 + l.IntN(4))
	for i, p := x.Len(), x; i > 0; i-- {
		p.Value = l.new()
		p = p.Next()
	}
	s.r.Link(x)
	return "Link"
}

// --- skip list ------------------------------------------------------------

type skipS struct {
	keep
	t   *gskiplist.SkipList[int, *val]
	has map[int]int
	rng int
}

func newSkip(l *ledger) subject {
	return &skipS{t: gskiplist.New[int, *val](), has: map[int]int{}, rng: 1 + max(l.Size(60), l.Big(30, 600))}
}

func (s *skipS) step(l *ledger) string {
	k := l.IntN(s.rng)
	switch l.IntN(8) {
	case 0, 1, 2:
		if id, ok := s.has[k]; ok {
			l.dropID(id)
			delete(s.has, k)
		}
		s.t.Delete(k)
		return fmt.Sprint("Delete ", k)
	case 3:
		if id, ok := s.has[k]; ok {
			l.dropID(id)
			v := l.new()
			s.has[k] = v.id
			s.t.ChangeValue(k, v)
		}
		return fmt.Sprint("ChangeValue ", k)
	case 4:
		s.t.Find(k)
		s.t.FindGreaterOrEqual(k)
		return fmt.Sprint("Find ", k)
	}
	if id, ok := s.has[k]; ok {
		l.dropID(id)
	}
	v := l.new()
	s.has[k] = v.id
	s.t.Insert(k, v)
	return fmt.Sprint("Insert ", k)
}

// --- red-black tree -------------------------------------------------------

type rbtS struct {
	keep
	t *rbt.RbTree[*val, *val]
}

func newRbt(l *ledger) subject {
	return &rbtS{t: rbt.New[*val, *val](func(a, b *val) bool {
		return a.rank < b.rank || a.rank == b.rank && a.id < b.id
	})}
}

func (s *rbtS) step(l *ledger) string {
	keys := s.t.Keys()
	var k *val
	if len(keys) > 0 {
		k = keys[l.IntN(len(keys))]
		switch l.IntN(4) {
		case 0:
			k = keys[0]
		case 1:
			k = keys[len(keys)-1]
		}
	}
	switch l.IntN(10) {
	case 0, 1, 2, 3:
		if k != nil {
			l.drop(s.t.Delete(k))
			l.drop(k)
		}
		return "Delete"
	case 4:
		if k != nil {
			l.drop(s.t.Get(k))
			s.t.Update(k, l.new())
		}
		return "Update"
	case 5:
		if k != nil {
			s.t.SubTree(keys[0], true, k, true)
			s.t.LeftSubTree(k, false)
			s.t.RightSubTree(k, true)
			s.t.GetIf(func(x *val) bool { return x.rank < k.rank })
		}
		return "SubTree"
	case 6:
		if l.Chance(8) {
			for _, k := range keys {
				l.drop(k)
				l.drop(s.t.Get(k))
			}
			s.t.Clear()
			return "Clear"
		}
	}
	s.t.Insert(l.new(), l.new())
	return "Insert"
}

// --- concurrent map -------------------------------------------------------

type mapS struct {
	m    *gsync.Map[*val, *val]
	keys []*val // the keys held
	old  []int  // keys deleted since the last flush
}

func newMap(l *ledger) subject { return &mapS{m: &gsync.Map[*val, *val]{}} }

func (s *mapS) forget(l *ledger, i int) {
	s.old = append(s.old, s.keys[i].id)
	l.skip[s.keys[i].id] = true
	l.drop(s.keys[i])
	last := len(s.keys) - 1
	s.keys[i] = s.keys[last]
	s.keys[last] = nil
	s.keys = s.keys[:last]
}

func (s *mapS) step(l *ledger) string {
	if len(s.keys) > 0 {
		i := l.IntN(len(s.keys))
		k := s.keys[i]
		switch l.IntN(14) {
		case 0, 1:
			v, _ := s.m.Load(k)
			l.drop(v)
			s.m.Delete(k)
			s.forget(l, i)
			return "Delete"
		case 2:
			if v, ok := s.m.LoadAndDelete(k); ok {
				l.drop(v)
			}
			s.forget(l, i)
			return "LoadAndDelete"
		case 3:
			v, _ := s.m.Load(k)
			if s.m.CompareAndDelete(k, v) {
				l.drop(v)
				s.forget(l, i)
			}
			return "CompareAndDelete"
		case 4:
			if v, ok := s.m.Swap(k, l.new()); ok {
				l.drop(v)
			}
			return "Swap"
		case 5:
			v, _ := s.m.Load(k)
			l.drop(v)
			s.m.Store(k, l.new())
			return "Store over"
		case 6:
			v, _ := s.m.Load(k)
			if s.m.CompareAndSwap(k, v, l.new()) {
				l.drop(v)
			}
			return "CompareAndSwap"
		case 7:
			v := l.new()
			s.m.LoadOrStore(k, v)
			l.drop(v)
			return "LoadOrStore loses"
		case 8:
			v := l.new()
			if s.m.CompareAndSwap(k, v, l.new()) {
				return "?"
			}
			l.drop(v)
			l.dropID(len(l.w) - 1)
			return "CompareAndSwap fails"
		case 9:
			s.m.Range(func(_, _ *val) bool { return !l.Chance(8) })
			return "Range"
		case 10:
			for j := l.IntN(6); j > 0; j-- {
				s.m.Load(k)
			}
			return "Loads"
		}
	}
	k := l.new()
	s.keys = append(s.keys, k)
	if l.Chance(2) {
		s.m.Store(k, l.new())
		return "Store"
	}
	s.m.LoadOrStore(k, l.new())
	return "LoadOrStore"
}

// flush makes the map rebuild itself twice; then no key deleted before may be left.
func (s *mapS) flush(l *ledger) {
	if l.Chance(2) {
		return
	}
	for i := 0; i < 3; i++ {
		k := l.new()
		s.keys = append(s.keys, k)
		s.m.Store(k, l.new())
		s.m.Range(func(_, _ *val) bool { return true })
	}
	for _, id := range s.old {
		delete(l.skip, id)
	}
	s.old = nil
}

// --- LRU cache ------------------------------------------------------------

type lruS struct {
	keep
	c    *cachex.LRUCacheV2[*val, *val]
	size int
	keys []*val // held, least recently used first
	vals []int
	uses []int
	max  int
}

func newLRU(l *ledger) subject {
	s := &lruS{size: 1 + max(l.Size(20), l.Big(30, 300)), max: l.IntN(3)}
	s.c = cachex.NewLRUCacheV2[*val, *val](s.size, s.max)
	return s
}

func (s *lruS) out(l *ledger, i int) {
	l.drop(s.keys[i])
	l.dropID(s.vals[i])
	copy(s.keys[i:], s.keys[i+1:])
	s.keys[len(s.keys)-1] = nil
	s.keys = s.keys[:len(s.keys)-1]
	s.vals = append(s.vals[:i], s.vals[i+1:]...)
	s.uses = append(s.uses[:i], s.uses[i+1:]...)
}

func (s *lruS) touch(i int) {
	k, v, u := s.keys[i], s.vals[i], s.uses[i]
	copy(s.keys[i:], s.keys[i+1:])
	copy(s.vals[i:], s.vals[i+1:])
	copy(s.uses[i:], s.uses[i+1:])
	n := len(s.keys) - 1
	s.keys[n], s.vals[n], s.uses[n] = k, v, u
}

func (s *lruS) step(l *ledger) string {
	ctx := context.Background()
	if len(s.keys) > 0 {
		i := l.IntN(len(s.keys))
		k := s.keys[i]
		switch l.IntN(8) {
		case 0:
			s.c.Delete(ctx, k)
			s.out(l, i)
			return "Delete"
		case 1, 2:
			if _, ok, _ := s.c.Get(ctx, k); ok {
				s.uses[i]++
				s.touch(i)
			} else {
				s.out(l, i)
			}
			return "Get"
		case 3:
			if _, oks, _ := s.c.MGet(ctx, k); oks[0] {
				s.uses[i]++
				s.touch(i)
			} else {
				s.out(l, i)
			}
			return "MGet"
		case 4:
			v := l.new()
			l.dropID(s.vals[i])
			s.vals[i], s.uses[i] = v.id, 0
			s.c.Set(ctx, k, v, time.Hour)
			s.touch(i)
			return "Set over"
		}
	}
	k, v := l.new(), l.new()
	if l.Chance(2) {
		s.c.Set(ctx, k, v, time.Hour)
	} else {
		s.c.MSet(ctx, map[*val]*val{k: v}, time.Hour)
	}
	s.keys, s.vals, s.uses = append(s.keys, k), append(s.vals, v.id), append(s.uses, 0)
	if len(s.keys) > s.size {
		s.out(l, 0)
	}
	return "Set"
}

// --- set and map helpers --------------------------------------------------

type setS struct {
	keep
	s gset.Set[*val]
	m map[*val]*val
}

func newSet(l *ledger) subject { return &setS{s: gset.NewSet[*val](), m: map[*val]*val{}} }

func (s *setS) step(l *ledger) string {
	switch l.IntN(6) {
	case 0, 1:
		for k := range s.s {
			gset.Remove(s.s, k)
			l.drop(k)
			break
		}
		return "Remove"
	case 2:
		if l.Chance(6) {
			for k := range s.s {
				l.drop(k)
			}
			gset.Clear(s.s)
			for k, v := range s.m {
				l.drop(k)
				l.drop(v)
			}
			gmap.Clear(s.m)
			return "Clear"
		}
		gset.Items(s.s)
		gmap.Map2Entries(s.m)
		return "Items"
	case 3:
		s.m[l.new()] = l.new()
		return "m"
	}
	gset.Add(s.s, l.new())
	return "Add"
}

func TestC35(t *testing.T) {
	for _, k := range []struct {
		name string
		n    int
		mk   func(l *ledger) subject
	}{
		{"heap", 1, newHeap}, {"list", 2, newList}, {"queue", 1, newQueue}, {"ring", 1, newRing}, {"skiplist", 2, newSkip},
		{"rbtree", 2, newRbt}, {"map", 3, newMap}, {"lru", 2, newLRU}, {"set", 1, newSet},
	} {
		mon.Cases(t, k.name, mon.Num(500, 20000)*k.n, run(k.mk))
	}
}
