package c02

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"

	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

// Every key has one owner client, whose calls on it are sequential, so the
// value of a key over time is known up to the duration of one call.

type write struct {
	call, ret int64
	has       bool // state after the call
	v         int
	desc      string
}

type visit struct {
	t    int64
	k, v int
}

type rng struct {
	call, ret int64
	visits    []visit
	stopAfter int // -1: never
	client    int
	depth     int
}

type rec struct {
	clock  atomic.Int64
	mu     sync.Mutex
	writes map[int][]write
	ranges []*rng
}

type amap interface {
	store(k, v int)
	swap(k, v int) (int, bool)
	los(k, v int) (int, bool)
	del(k int)
	lad(k int) (int, bool)
	cas(k, o, n int) bool
	cad(k, o int) bool
	load(k int) (int, bool)
	rang(f func(k, v int) bool)
}

type tmap[K comparable, V any] struct {
	m  gsync.Map[K, V]
	k  func(int) K
	uk func(K) int
	v  func(int) V
	uv func(V) int
}

func (t *tmap[K, V]) store(k, v int) { t.m.Store(t.k(k), t.v(v)) }
func (t *tmap[K, V]) swap(k, v int) (int, bool) {
	p, ok := t.m.Swap(t.k(k), t.v(v))
	return t.uv(p), ok
}
func (t *tmap[K, V]) los(k, v int) (int, bool) {
	p, ok := t.m.LoadOrStore(t.k(k), t.v(v))
	return t.uv(p), ok
}
func (t *tmap[K, V]) del(k int) { t.m.Delete(t.k(k)) }
func (t *tmap[K, V]) lad(k int) (int, bool) {
	p, ok := t.m.LoadAndDelete(t.k(k))
	return t.uv(p), ok
}
func (t *tmap[K, V]) cas(k, o, n int) bool { return t.m.CompareAndSwap(t.k(k), t.v(o), t.v(n)) }
func (t *tmap[K, V]) cad(k, o int) bool    { return t.m.CompareAndDelete(t.k(k), t.v(o)) }
func (t *tmap[K, V]) load(k int) (int, bool) {
	p, ok := t.m.Load(t.k(k))
	return t.uv(p), ok
}
func (t *tmap[K, V]) rang(f func(k, v int) bool) {
	t.m.Range(func(k K, v V) bool { return f(t.uk(k), t.uv(v)) })
}

type big struct {
	N int
	S string
	X [3]int
}

func newMap(c *mon.C) amap {
	id := func(i int) int { return i }
	switch c.IntN(3) {
	case 0:
		return &tmap[int, int]{k: id, uk: id, v: id, uv: id}
	case 1:
		return &tmap[string, big]{k: func(i int) string { return fmt.Sprint("k", i) },
			uk: func(s string) int { n := -1; fmt.Sscanf(s, "k%d", &n); return n },
			v:  func(i int) big { return big{N: i} }, uv: func(b big) int { return b.N }}
	default:
		return &tmap[any, any]{k: func(i int) any { return i }, uk: func(a any) int { return a.(int) },
			v: func(i int) any { return i }, uv: func(a any) int {
				if n, ok := a.(int); ok {
					return n
				}
				return 0
			}}
	}
}

type client struct {
	c     *mon.C
	id    int
	r     *rec
	m     amap
	own   []int
	keys  int
	state map[int]write
	next  int
	seed  func(n int) int
	par   bool
}

func (cl *client) note(k int, call int64, has bool, v int, desc string) {
	w := write{call, cl.r.clock.Add(1), has, v, desc}
	cl.r.mu.Lock()
	cl.r.writes[k] = append(cl.r.writes[k], w)
	cl.r.mu.Unlock()
	cl.state[k] = w
}

// update performs one call on an owned key.
func (cl *client) update(kind int) {
	if len(cl.own) == 0 {
		return
	}
	k := cl.own[cl.seed(len(cl.own))]
	cl.updateKey(kind, k)
}

func (cl *client) updateKey(kind, k int) {
	s := cl.state[k]
	cl.next++
	v := cl.id*100000 + cl.next
	call := cl.r.clock.Add(1)
	switch kind {
	case 0:
		cl.m.store(k, v)
		cl.note(k, call, true, v, "Store")
	case 1:
		p, ok := cl.m.swap(k, v)
		if ok != s.has || ok && p != s.v {
			cl.c.Report("Swap(%d) by the only writer returned %d,%v, want %d,%v", k, p, ok, s.v, s.has)
		}
		cl.note(k, call, true, v, "Swap")
	case 2:
		p, ok := cl.m.los(k, v)
		if ok != s.has || ok && p != s.v || !ok && p != v {
			cl.c.Report("LoadOrStore(%d,%d) by the only writer returned %d,%v, held %d,%v", k, v, p, ok, s.v, s.has)
		}
		if s.has {
			v = s.v
		}
		cl.note(k, call, true, v, "LoadOrStore")
	case 3:
		cl.m.del(k)
		cl.note(k, call, false, 0, "Delete")
	case 4:
		p, ok := cl.m.lad(k)
		if ok != s.has || ok && p != s.v {
			cl.c.Report("LoadAndDelete(%d) by the only writer returned %d,%v, want %d,%v", k, p, ok, s.v, s.has)
		}
		cl.note(k, call, false, 0, "LoadAndDelete")
	case 5:
		ok := cl.m.cas(k, s.v, v)
		if ok != s.has {
			cl.c.Report("CompareAndSwap(%d,current) by the only writer returned %v, present %v", k, ok, s.has)
		}
		cl.note(k, call, s.has, v, "CAS")
	case 6:
		ok := cl.m.cad(k, s.v)
		if ok != s.has {
			cl.c.Report("CompareAndDelete(%d,current) by the only writer returned %v, present %v", k, ok, s.has)
		}
		cl.note(k, call, false, 0, "CAD")
	}
	mon.Beat()
}

func (cl *client) rang(depth, stop int, nested func(i, k int)) {
	g := &rng{stopAfter: stop, client: cl.id, depth: depth}
	g.call = cl.r.clock.Add(1)
	cl.m.rang(func(k, v int) bool {
		g.visits = append(g.visits, visit{cl.r.clock.Add(1), k, v})
		n := len(g.visits)
		if nested != nil {
			nested(n, k)
		}
		mon.Beat()
		return n != stop
	})
	g.ret = cl.r.clock.Add(1)
	cl.r.mu.Lock()
	cl.r.ranges = append(cl.r.ranges, g)
	cl.r.mu.Unlock()
}

// check applies the property's rules to every recorded Range.
func (r *rec) check(c *mon.C, keys int) {
	complete, hitDuring := 0, 0
	for _, g := range r.ranges {
		seen := map[int]bool{}
		if g.stopAfter > 0 && len(g.visits) > g.stopAfter {
			c.Violate("Range called back %d times although the callback returned false at call %d: %v", len(g.visits), g.stopAfter, g.visits)
		}
		for _, v := range g.visits {
			if v.k < 0 || v.k >= keys {
				c.Violate("Range visited key %d, which was never in the map", v.k)
			}
			if seen[v.k] {
				c.Violate("Range visited key %d twice: %v", v.k, g.visits)
			}
			seen[v.k] = true
			ok := false
			cur := write{}
			for _, w := range r.writes[v.k] {
				if w.ret < g.call {
					cur = w
					continue
				}
				if w.call < v.t && w.has && w.v == v.v {
					ok = true
				}
			}
			if cur.has && cur.v == v.v {
				ok = true
			}
			if !ok {
				c.Violate("Range [%d..%d] handed out key %d value %d at %d, which it did not hold during the call; writes: %+v", g.call, g.ret, v.k, v.v, v.t, r.writes[v.k])
			}
		}
		stopped := g.stopAfter > 0 && len(g.visits) == g.stopAfter
		for k := 0; k < keys; k++ {
			cur, present, absent, during := write{}, false, false, 0
			for _, w := range r.writes[k] {
				if w.ret < g.call {
					cur = w
				} else if w.call < g.ret {
					during++
				}
			}
			present, absent = cur.has, !cur.has
			for _, w := range r.writes[k] {
				if w.ret >= g.call && w.call < g.ret {
					if w.has {
						absent = false
					} else {
						present = false
					}
				}
			}
			hitDuring += during
			if present && !seen[k] && !stopped {
				c.Violate("Range [%d..%d] by client %d missed key %d, which was present throughout; visits %v; writes: %+v", g.call, g.ret, g.client, k, g.visits, r.writes[k])
			}
			if absent && seen[k] {
				c.Violate("Range [%d..%d] visited key %d, which was absent throughout; writes: %+v", g.call, g.ret, k, r.writes[k])
			}
		}
		if !stopped {
			complete++
		}
	}
	mon.Count("ranges", len(r.ranges))
	mon.Count("complete_ranges", complete)
	mon.Count("writes_during_ranges", hitDuring)
	if hitDuring > 0 {
		c.Distinct(r.shape())
	}
}

func (r *rec) shape() string {
	type ev struct {
		t int64
		s string
	}
	var evs []ev
	for k, ws := range r.writes {
		for _, w := range ws {
			evs = append(evs, ev{w.call, fmt.Sprint("w", k)}, ev{w.ret, fmt.Sprint("x", k)})
		}
	}
	for _, g := range r.ranges {
		evs = append(evs, ev{g.call, "R"}, ev{g.ret, "E"})
		for _, v := range g.visits {
			evs = append(evs, ev{v.t, fmt.Sprint("v", v.k)})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	s := ""
	for _, e := range evs {
		s += e.s
	}
	return s
}

type step struct{ kind, arg, stop, nest int }

func run(t *testing.T, c *mon.C, par bool) {
	m := newMap(c)
	r := &rec{writes: map[int][]write{}}
	n := 2 + c.IntN(3)
	keys := n + c.IntN(8)
	clients := make([]*client, n)
	progs := make([][]step, n)
	for i := range clients {
		rnd := c.Uint64() // per-client generator: clients draw concurrently
		cl := &client{c: c, id: i + 1, r: r, m: m, keys: keys, state: map[int]write{}}
		cl.seed = func(k int) int {
			rnd = rnd*6364136223846793005 + 1442695040888963407
			return int((rnd >> 33) % uint64(k))
		}
		for k := i; k < keys; k += n {
			cl.own = append(cl.own, k)
		}
		clients[i] = cl
		for j := 2 + c.IntN(6); j > 0; j-- {
			s := step{kind: c.IntN(12), stop: -1}
			if c.Chance(5) {
				s.stop = 1 + c.IntN(4)
			}
			s.nest = c.IntN(8)
			progs[i] = append(progs[i], s)
		}
		c.Op("client %d owns %v: %v", i+1, cl.own, progs[i])
	}
	prefill := func() {
		for j := c.IntN(3 * keys); j > 0; j-- {
			cl := clients[c.IntN(n)]
			switch c.IntN(6) {
			case 0:
				cl.update(3)
			case 1, 2:
				for x := c.IntN(keys + 2); x >= 0; x-- {
					m.load(1 << 20)
				}
			default:
				cl.update(0)
			}
		}
	}
	work := make([]func(), n)
	for i, cl := range clients {
		work[i] = func() {
			for _, s := range progs[i] {
				switch {
				case s.kind < 7:
					cl.update(s.kind)
				case s.kind == 7:
					cl.m.load(cl.seed(cl.keys + 3))
				default:
					var nested func(i, k int)
					switch s.nest {
					case 0: // nested Range
						nested = func(i, k int) {
							if i == 1 {
								cl.rang(1, -1, nil)
							}
						}
					case 1: // update own keys from the callback
						nested = func(i, k int) { cl.update(cl.seed(7)) }
					case 2: // delete the visited key if owned
						nested = func(i, k int) {
							if (k % n) == cl.id-1 {
								cl.updateKey(3, k)
							}
						}
					case 3: // nested Range that itself writes
						nested = func(i, k int) {
							if i <= 2 {
								cl.rang(1, 2, func(i, k int) { cl.update(0) })
							}
						}
					case 4: // look for a missing key: promotes the dirty map
						nested = func(i, k int) { cl.m.load(1 << 20); cl.m.load(k) }
					}
					cl.rang(0, s.stop, nested)
				}
			}
		}
	}
	final := func() { clients[0].rang(0, -1, nil); clients[0].rang(0, -1, nil) }
	if par {
		prefill()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, w := range work {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; w() }()
		}
		close(start)
		wg.Wait()
		final()
	} else {
		sched.Run(t, c, prefill, work, final)
	}
	r.check(c, keys)
	if len(r.ranges) > 2 {
		mon.Sample("%s/%d: %d keys, events %s", c.Monitor, c.Idx, keys, r.shape())
	}
}

func TestSched(t *testing.T) {
	mon.Cases(t, "sched", mon.Num(12000, 300000), func(c *mon.C) { run(t, c, false) })
}

func TestStress(t *testing.T) {
	mon.Cases(t, "stress", mon.Num(5000, 100000), func(c *mon.C) { run(t, c, true) })
}

// Many keys: some stay as they are, some change their value, some come and go,
// while several clients range over all of them.
func TestStressHuge(t *testing.T) {
	mon.Cases(t, "stress/huge", mon.Num(60, 2000), func(c *mon.C) {
		m := newMap(c)
		keys := max(40, c.Big(1, 3000))
		writers, rangers := 1+c.IntN(4), 1+c.IntN(2)
		const stable, changing, absent = 0, 1, 4 // others come and go
		kind := func(k int) int { return k % 6 }
		// the value tells the key it was stored under
		value := func(k, n int) int { return k + n*keys }
		c.Op("%d keys, %d writers, %d clients ranging", keys, writers, rangers)
		for _, k := range c.Perm(keys) {
			if kind(k) != absent && (kind(k) <= changing || c.Chance(2)) {
				m.store(k, value(k, 0))
			}
			if c.Chance(100) {
				for n := c.IntN(keys); n > 0; n-- {
					m.load(1 << 20)
				}
			}
		}
		var stop atomic.Bool
		var busy, done sync.WaitGroup
		var writes, ranged atomic.Int64
		for i := 0; i < writers; i++ {
			seed := c.Uint64()
			done.Add(1)
			go func() {
				defer done.Done()
				mon.Guard(c, func() {
					rnd := mon.NewRand(seed)
					for n := 1; !stop.Load(); n++ {
						k := rnd.IntN(keys)
						if kind(k) <= changing {
							if kind(k) == changing {
								if rnd.IntN(2) == 0 {
									m.store(k, value(k, n))
								} else {
									m.swap(k, value(k, n))
								}
							} else {
								m.load(k)
							}
							continue
						}
						if kind(k) == absent {
							m.del(k)
							m.cas(k, 0, value(k, n))
							m.lad(k)
							continue
						}
						switch rnd.IntN(7) {
						case 0, 1:
							m.store(k, value(k, n))
						case 2:
							m.los(k, value(k, n))
						case 3:
							m.del(k)
						case 4:
							m.lad(k)
						case 5:
							if v, ok := m.load(k); ok {
								m.cad(k, v)
							}
						case 6:
							m.load(1 << 20)
						}
						writes.Add(1)
					}
				})
			}()
		}
		for i := 0; i < rangers; i++ {
			seed := c.Uint64()
			busy.Add(1)
			go func() {
				defer busy.Done()
				mon.Guard(c, func() {
					rnd := mon.NewRand(seed)
					for n := 0; n < 4; n++ {
						seen := make([]bool, keys)
						limit := -1
						if rnd.IntN(4) == 0 {
							limit = 1 + rnd.IntN(keys)
						}
						visits := 0
						m.rang(func(k, v int) bool {
							if k < 0 || k >= keys || kind(k) == absent {
								c.Violate("Range visited key %d, which was never in the map", k)
							}
							if seen[k] {
								c.Violate("one Range visited key %d twice", k)
							}
							seen[k] = true
							if v%keys != k || kind(k) == stable && v != k {
								c.Violate("Range visited key %d with value %d, which it never had", k, v)
							}
							if visits == limit {
								c.Violate("Range went on after its callback returned false")
							}
							visits++
							return visits != limit
						})
						if visits != limit {
							for k := range seen {
								if !seen[k] && kind(k) <= changing {
									c.Violate("Range did not visit key %d of %d, which was in the map all the time", k, keys)
								}
							}
						}
						ranged.Add(int64(visits))
						mon.Beat()
					}
				})
			}()
		}
		busy.Wait()
		stop.Store(true)
		done.Wait()
		mon.Count("visits while others write", int(ranged.Load()))
		mon.Max("keys", keys)
		c.Distinct(keys, writers, rangers, ranged.Load())
	})
}

// One client, larger maps, callbacks that change the map while it is ranged.
func TestSeq(t *testing.T) {
	mon.Cases(t, "seq", mon.Num(1200, 20000), func(c *mon.C) {
		keys := max(1+c.Size(400), c.Big(60, 4000))
		r := &rec{writes: map[int][]write{}}
		cl := &client{c: c, id: 1, r: r, m: newMap(c), keys: keys, state: map[int]write{}, seed: c.IntN}
		for k := 0; k < keys; k++ {
			cl.own = append(cl.own, k)
		}
		for i := max(5+c.Size(600), keys); i > 0; i-- {
			if c.Chance(30 + keys/20) {
				for x := c.IntN(keys + 2); x >= 0; x-- {
					cl.m.load(1 << 20)
				}
			}
			cl.update(mon.Pick(c, 0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6))
		}
		for i := 0; i < 4; i++ {
			stop := -1
			if c.Chance(3) {
				stop = 1 + c.IntN(keys)
			}
			var nested func(i, k int)
			switch c.IntN(5) {
			case 0:
				nested = func(i, k int) { cl.updateKey(3, k) }
			case 1:
				nested = func(i, k int) { cl.update(c.IntN(7)) }
			case 2:
				nested = func(i, k int) {
					if i < 3 {
						cl.rang(1, -1, nil)
					}
				}
			}
			cl.rang(0, stop, nested)
			for j := c.IntN(40); j > 0; j-- {
				cl.update(c.IntN(7))
			}
		}
		cl.rang(0, -1, nil)
		r.check(c, keys)
		c.Distinct(keys, len(r.ranges), c.Idx)
	})
}
