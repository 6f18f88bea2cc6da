package c01

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"

	"gosbverif/hist"
	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

type op struct {
	Kind   string
	Key    int
	V, Old int
}

type out struct {
	V  int
	Ok bool
}

// state of one key: 0 absent (values are > 0 or the explicit zero flag below)
type st struct {
	has bool
	v   int
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(op).Key
			m[k] = append(m[k], o)
		}
		var r [][]porcupine.Operation
		for _, v := range m {
			r = append(r, v)
		}
		return r
	},
	Init: func() any { return st{} },
	Step: func(s, in, o any) (bool, any) {
		x, i, r := s.(st), in.(op), o.(out)
		want, next := apply(x, i)
		return want == r, next
	},
}

// apply is the sequential specification of one key.
func apply(x st, i op) (out, st) {
	switch i.Kind {
	case "Load":
		return out{x.v, x.has}, x
	case "Store":
		return out{}, st{true, i.V}
	case "Swap":
		return out{x.v, x.has}, st{true, i.V}
	case "LoadOrStore":
		if x.has {
			return out{x.v, true}, x
		}
		return out{i.V, false}, st{true, i.V}
	case "LoadAndDelete":
		return out{x.v, x.has}, st{}
	case "Delete":
		return out{}, st{}
	case "CAS":
		if x.has && x.v == i.Old {
			return out{Ok: true}, st{true, i.V}
		}
		return out{}, x
	case "CAD":
		if x.has && x.v == i.Old {
			return out{Ok: true}, st{}
		}
		return out{}, x
	}
	panic(i.Kind)
}

func do[K comparable, V any](m *gsync.Map[K, V], key func(int) K, val func(int) V, un func(V) int, i op) any {
	switch i.Kind {
	case "Load":
		v, ok := m.Load(key(i.Key))
		return out{un(v), ok}
	case "Store":
		m.Store(key(i.Key), val(i.V))
		return out{}
	case "Swap":
		v, ok := m.Swap(key(i.Key), val(i.V))
		return out{un(v), ok}
	case "LoadOrStore":
		v, ok := m.LoadOrStore(key(i.Key), val(i.V))
		return out{un(v), ok}
	case "LoadAndDelete":
		v, ok := m.LoadAndDelete(key(i.Key))
		return out{un(v), ok}
	case "Delete":
		m.Delete(key(i.Key))
		return out{}
	case "CAS":
		return out{Ok: m.CompareAndSwap(key(i.Key), val(i.Old), val(i.V))}
	case "CAD":
		return out{Ok: m.CompareAndDelete(key(i.Key), val(i.Old))}
	}
	panic(i.Kind)
}

type client interface {
	do(i op) any
	values() int // how many different values there are, 0 for plenty
	fit(op) op   // brings the values of the call into the range of the type
}

type typed[K comparable, V any] struct {
	m   gsync.Map[K, V]
	key func(int) K
	val func(int) V
	un  func(V) int
	few int
	nan bool // some values are not equal to themselves
	// values that cannot be compared
	incomparable bool
}

func (t *typed[K, V]) values() int { return t.few }

func (t *typed[K, V]) fit(o op) op {
	if n := t.few; n > 0 {
		o.V, o.Old = o.V%n, o.Old%n
	}
	if t.nan && isNaN(o.Old) {
		o.Old = -1 // equal to nothing
	}
	if t.incomparable {
		o.Kind = map[string]string{"CAS": "Swap", "CAD": "LoadAndDelete"}[o.Kind] + map[bool]string{true: o.Kind}[o.Kind[0] != 'C']
	}
	return o
}

func isNaN(i int) bool { return i < 0 || i%5 == 3 }

func (t *typed[K, V]) do(i op) any { return do(&t.m, t.key, t.val, t.un, i) }

type pair struct {
	A int
	B string
}

type pair2 struct {
	A int
	B any
}

// newMap returns a map with one of several key and value types; value 0 is the
// zero value of the type.
func newMap(c *mon.C) (client, string) {
	ik := func(i int) int { return i }
	sk := func(i int) string { return fmt.Sprintf("key%d", i) }
	iv := func(i int) int { return i }
	switch c.IntN(14) {
	case 8: // values without size, all at one address
		return &typed[int, struct{}]{key: ik, val: func(int) struct{} { return struct{}{} }, un: func(struct{}) int { return 0 }, few: 1}, "int/unit"
	case 9:
		return &typed[uint8, bool]{key: func(i int) uint8 { return uint8(i) }, val: func(i int) bool { return i == 1 }, un: func(b bool) int {
			if b {
				return 1
			}
			return 0
		}, few: 2}, "byte/bool"
	case 10: // values larger than any pointer to them shows
		return &typed[float64, [33]int]{key: func(i int) float64 { return float64(i) / 3 }, val: func(i int) [33]int { return [33]int{32: i} }, un: func(v [33]int) int { return v[32] }}, "float/large"
	case 0, 1, 2:
		return &typed[int, int]{key: ik, val: iv, un: iv}, "int/int"
	case 3:
		return &typed[string, int]{key: sk, val: iv, un: iv}, "string/int"
	case 4: // values of different types that look alike
		return &typed[string, any]{key: sk, val: func(i int) any {
			if i == 0 {
				return nil
			}
			return []any{i / 4, int64(i / 4), fmt.Sprint(i / 4), float64(i / 4)}[i%4]
		}, un: func(v any) int {
			switch v := v.(type) {
			case int:
				return v * 4
			case int64:
				return int(v)*4 + 1
			case string:
				n := -1
				fmt.Sscan(v, &n)
				return n*4 + 2
			case float64:
				return int(v)*4 + 3
			}
			return 0
		}}, "string/any"
	case 11:
		var zeros atomic.Int64
		return &typed[int, float64]{key: ik, val: func(i int) float64 {
			switch {
			case i == 0:
				return math.Copysign(0, float64(zeros.Add(1)%2)-0.5)
			case isNaN(i):
				return math.Float64frombits(0x7ff8000000000000 | uint64(uint32(i)))
			}
			return float64(i)
		}, un: func(v float64) int {
			if v != v {
				return int(int32(uint32(math.Float64bits(v))))
			}
			return int(v)
		}, nan: true}, "int/float with NaN"
	case 12:
		return &typed[int, []int]{key: ik, val: func(i int) []int {
			if i == 0 {
				return nil
			}
			return []int{i}
		}, un: func(v []int) int {
			if len(v) == 0 {
				return 0
			}
			return v[0]
		}, incomparable: true}, "int/slice"
	case 13:
		return &typed[int, any]{key: ik, val: func(i int) any {
			return []any{[]int{i}, func() int { return i }, map[int]int{0: i}, pair2{i, []int{i}}, i}[i%5]
		}, un: func(v any) int {
			switch v := v.(type) {
			case []int:
				return v[0]
			case func() int:
				return v()
			case map[int]int:
				return v[0]
			case pair2:
				return v.A
			case int:
				return v
			}
			return 0
		}, incomparable: true}, "int/any incomparable"
	case 5:
		return &typed[pair, pair]{key: func(i int) pair { return pair{i, "k"} }, val: func(i int) pair {
			if i == 0 {
				return pair{}
			}
			return pair{i, fmt.Sprint(i)}
		}, un: func(p pair) int { return p.A }}, "struct/struct"
	case 6:
		ptrs := make([]*int, 4096)
		for i := range ptrs {
			if i > 0 {
				ptrs[i] = new(int)
				*ptrs[i] = i
			}
		}
		return &typed[any, *int]{key: func(i int) any {
			if i%2 == 0 {
				return i
			}
			return fmt.Sprint(i)
		}, val: func(i int) *int { return ptrs[i] }, un: func(p *int) int {
			if p == nil {
				return 0
			}
			return *p
		}}, "any/pointer"
	default:
		return &typed[[3]int8, string]{key: func(i int) [3]int8 { return [3]int8{int8(i), int8(i >> 8), int8(i >> 16)} }, val: func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprint(i)
		}, un: func(s string) int {
			n := 0
			fmt.Sscan(s, &n)
			return n
		}}, "array/string"
	}
}

// program of a client: values are unique except for deliberate repeats.
type prog struct {
	kinds []string
	keys  int
	next  int
}

func (p *prog) gen(c *mon.C, last map[int]int) op {
	o := op{Kind: p.kinds[c.IntN(len(p.kinds))], Key: c.IntN(p.keys)}
	switch o.Kind {
	case "Store", "Swap", "LoadOrStore", "CAS":
		p.next++
		o.V = p.next
		if c.Chance(12) {
			o.V = 0
		}
		if c.Chance(8) && p.next > 1 {
			o.V = 1 + c.IntN(p.next-1)
		}
	}
	switch o.Kind {
	case "CAS", "CAD":
		if v, ok := last[o.Key]; ok && !c.Chance(5) {
			o.Old = v
		} else if p.next > 0 {
			o.Old = c.IntN(p.next + 1)
		}
	}
	return o
}

var mixes = [][]string{
	{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CAS", "CAD"},
	{"Load", "Store", "Delete"},
	{"Load", "LoadOrStore", "LoadAndDelete"},
	{"Store", "CAS", "CAD", "Load"},
	{"Store", "Swap", "LoadAndDelete"},
	{"LoadOrStore", "Delete", "CAS", "Swap"},
	{"Load", "LoadOrStore", "Delete", "Store"},
	{"CAS", "CAS", "CAD", "Load", "Swap"},
}

// setup drives the map into one of its internal situations (clean, dirty,
// promoted, deleted but still remembered) before the race starts.
func setup(c *mon.C, keys int) []op {
	var s []op
	n := c.IntN(8)
	v := 1000
	for i := 0; i < n; i++ {
		v++
		k := c.IntN(keys + 2)
		switch c.IntN(6) {
		case 0, 1, 2:
			s = append(s, op{Kind: "Store", Key: k, V: v})
		case 3:
			s = append(s, op{Kind: "Delete", Key: k})
		default: // misses: promote the dirty map
			for j := c.IntN(5); j >= 0; j-- {
				s = append(s, op{Kind: "Load", Key: keys + 5})
			}
		}
	}
	return s
}

func run(t *testing.T, c *mon.C, par bool, maxClients, maxOps int) {
	m, types := newMap(c)
	r := &hist.Rec{}
	keys := 1 + c.IntN(3)
	clients := 2 + c.IntN(maxClients-1)
	p := &prog{kinds: mixes[c.IntN(len(mixes))], keys: keys}
	progs := make([][]op, clients)
	last := map[int]int{}
	pre := setup(c, keys)
	for i := range pre {
		pre[i] = m.fit(pre[i])
	}
	for _, o := range pre {
		if o.Kind == "Store" {
			last[o.Key] = o.V
		}
	}
	c.Op("types %s", types)
	for _, o := range pre {
		c.Op("setup %+v", o)
	}
	for i := range progs {
		for j := 1 + c.IntN(maxOps); j > 0; j-- {
			o := m.fit(p.gen(c, last))
			if o.Kind != "Load" && o.V != 0 && c.Chance(2) {
				last[o.Key] = o.V
			}
			progs[i] = append(progs[i], o)
			c.Op("client %d: %+v", i, o)
		}
	}
	work := make([]func(), clients)
	for i := range work {
		work[i] = func() {
			for _, o := range progs[i] {
				r.Do(i, o, func() any { return m.do(o) })
			}
		}
	}
	prefill := func() {
		for _, o := range pre {
			r.Do(99, o, func() any { return m.do(o) })
		}
	}
	final := func() {
		for round := 0; round < 2; round++ {
			for k := 0; k < keys+3; k++ {
				o := op{Kind: "Load", Key: k}
				r.Do(99, o, func() any { return m.do(o) })
			}
		}
	}
	if par {
		prefill()
		parallel(work)
		final()
	} else {
		sched.Run(t, c, prefill, work, final)
	}
	r.Check(c, model)
}

func parallel(work []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, w := range work {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			w()
		}()
	}
	close(start)
	wg.Wait()
}

// Schedule-perturbed executions (instrumented build).
func TestSched(t *testing.T) {
	mon.Cases(t, "sched", mon.Num(16000, 400000), func(c *mon.C) { run(t, c, false, 4, 6) })
}

// Real parallel executions under the race detector.
func TestStress(t *testing.T) {
	runtime.GOMAXPROCS(4)
	mon.Cases(t, "stress", mon.Num(6000, 120000), func(c *mon.C) { run(t, c, true, 6, 8) })
}

// Many keys at once. Every client has keys of its own, which must behave like a
// plain map; others are shared, and what is put in under a shared key must be
// taken out exactly once.
func TestStressHuge(t *testing.T) {
	runtime.GOMAXPROCS(4)
	mon.Cases(t, "stress/huge", mon.Num(60, 2500), func(c *mon.C) {
		m, types := newMap(c)
		few := m.values()
		clients := 2 + c.IntN(6)
		each := max(30, c.Big(1, 1500)) // keys of one client
		ops := 200 + c.IntN(3*each)
		if types == "byte/bool" {
			each = 20
		}
		if types == "any/pointer" {
			ops = min(ops, 500)
		}
		shared := 1 + c.IntN(5)
		ownKey := func(i, k int) int { return shared + i + clients*k }
		kinds := mixes[c.IntN(len(mixes))]
		c.Op("types %s: %d clients with %d keys each and %d shared ones, %d calls of %v each", types, clients, each, shared, ops, kinds)
		mon.Max("keys", shared+clients*each)
		type tokens struct{ in, out map[int]int }
		seen := make([]tokens, clients)
		work := make([]func(), clients)
		for i := range work {
			seed := c.Uint64()
			seen[i] = tokens{map[int]int{}, map[int]int{}}
			work[i] = func() {
				rnd := mon.NewRand(seed)
				state := map[int]st{}
				// values of this client only
				next := 1 + i
				value := func() int {
					next += clients
					if few > 0 {
						return next % few
					}
					return next
				}
				for n := 0; n < ops; n++ {
					if few == 0 && rnd.IntN(6) == 0 { // a shared key
						o := op{Key: rnd.IntN(shared)}
						switch rnd.IntN(4) {
						case 0:
							o.Kind, o.V = "Swap", value()
						case 1:
							o.Kind, o.V = "LoadOrStore", value()
						case 2:
							o.Kind = "LoadAndDelete"
						case 3:
							o.Kind = "Load"
						}
						r := m.do(o).(out)
						if o.Kind == "Swap" || o.Kind == "LoadOrStore" && !r.Ok {
							seen[i].in[o.V]++
						}
						if r.Ok && (o.Kind == "Swap" || o.Kind == "LoadAndDelete") {
							seen[i].out[r.V]++
						}
						continue
					}
					o := op{Kind: kinds[rnd.IntN(len(kinds))], Key: ownKey(i, rnd.IntN(each)), V: value()}
					if s := state[o.Key]; s.has && rnd.IntN(4) > 0 {
						o.Old = s.v
					}
					o = m.fit(o)
					want, now := apply(state[o.Key], o)
					if got := m.do(o); got != any(want) {
						c.Violate("%s map, client %d, call %d on its own key: %+v returned %+v, a plain map returns %+v", types, i, n, o, got, want)
					}
					state[o.Key] = now
				}
				for k := 0; k < each; k++ {
					o := op{Kind: "Load", Key: ownKey(i, k)}
					s := state[o.Key]
					if got := m.do(o); got != any(out{s.v, s.has}) {
						c.Violate("%s map, client %d: finally Load of its own key %d returned %+v, a plain map holds %+v", types, i, o.Key, got, s)
					}
				}
			}
			f := work[i]
			work[i] = func() { mon.Guard(c, f) }
		}
		parallel(work)
		left := map[int]int{}
		for k := 0; k < shared; k++ {
			if r := m.do(op{Kind: "LoadAndDelete", Key: k}).(out); r.Ok {
				left[r.V]++
			}
		}
		in, taken := 0, 0
		for i := range seen {
			for v, n := range seen[i].in {
				left[v] -= n
				in += n
			}
			for v, n := range seen[i].out {
				left[v] += n
				taken += n
			}
		}
		for v, n := range left {
			if n != 0 {
				c.Violate("%s map: value %d went into the shared keys and came out of them %+d times", types, v, n)
			}
		}
		mon.Count("operations", clients*ops)
		mon.Count("values taken from shared keys", taken)
		c.Distinct(types, clients, each, ops, taken)
	})
}

// Long single-client histories against a plain map.
func TestSeq(t *testing.T) {
	mon.Cases(t, "seq", mon.Num(1500, 20000), func(c *mon.C) {
		m, types := newMap(c)
		keys := 1 + c.Size(300)
		n := 20 + c.Size(3000)
		if b := c.Big(60, 12000); b > 0 {
			keys, n = b, b+c.IntN(2*b)
		}
		if types == "byte/bool" {
			keys = min(keys, 250)
		}
		if types == "any/pointer" {
			n = min(n, 4000)
		}
		model := map[int]st{}
		p := &prog{kinds: mixes[c.IntN(len(mixes))], keys: keys}
		last := map[int]int{}
		acted := 0
		for i := 0; i < n; i++ {
			if c.Chance(40) {
				p.kinds = mixes[c.IntN(len(mixes))]
			}
			o := m.fit(p.gen(c, last))
			c.Op("%+v", o)
			want, next := apply(model[o.Key], o)
			if got := m.do(o); !reflect.DeepEqual(got, want) {
				c.Violate("%s map: %+v returned %+v, a plain map returns %+v", types, o, got, want)
			}
			if next != model[o.Key] {
				acted++
			}
			model[o.Key] = next
			if next.has {
				last[o.Key] = next.v
			}
		}
		for k, s := range model {
			if got := m.do(op{Kind: "Load", Key: k}); got != (any)(out{s.v, s.has}) {
				c.Violate("%s map: finally Load(%d) returned %+v, a plain map holds %+v", types, k, got, s)
			}
		}
		mon.Count("operations", n)
		if acted > 5 {
			c.Distinct(types, keys, n, acted, c.Idx)
		}
	})
}
