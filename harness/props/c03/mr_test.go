// Monitors for C03 (exactly once) and C04 (cancel, panic, context).
package c03

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"

	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

const (
	fMapReduce = iota
	fMapReduceChan
	fMapReduceVoid
	fForEach
	fFinish
	fFinishVoid
	nForms
)

var formNames = []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach", "Finish", "FinishVoid"}

// plan is one generated call.
type plan struct {
	form    int
	n       int // items
	workers int // -1000: option absent
	fan     []int
	redRead int // values the reducer reads before writing; -1: all
	redOut  int // how many values the reducer writes
	redLate bool
	ctxKind int // 0 none, 1 background, 2 live cancellable, 3 ended before, 4 cancelled at ctxAt, 5 deadline at ctxAt
	ctxAt   time.Duration
	delays  uint64
	burst   bool
	// faults: item index (or -1)
	cancelAt   map[int]error // mapper of that item calls cancel
	panicAt    map[int]any   // mapper of that item panics
	genPanic   int           // generator panics after that many items (-1 never)
	genPanicV  any
	redCancel  int // reducer cancels after reading that many values (-1 never)
	redCancelE error
	redPanic   int
	redPanicV  any
	twiceCanc  bool
	meet       int // that many mappers wait until as many have started
}

func (p *plan) String() string {
	return fmt.Sprintf("%s n=%d workers=%d fan=%v read=%d out=%d late=%v meet=%d ctx=%d@%v cancel=%v panic=%v genPanic=%d(%v) redCancel=%d(%v) redPanic=%d(%v)",
		formNames[p.form], p.n, p.workers, p.fan, p.redRead, p.redOut, p.redLate, p.meet, p.ctxKind, p.ctxAt, p.cancelAt, p.panicAt, p.genPanic, p.genPanicV, p.redCancel, p.redCancelE, p.redPanic, p.redPanicV)
}

func (p *plan) limit() int {
	switch {
	case p.form == fFinish || p.form == fFinishVoid:
		return p.n
	case p.workers == -1000:
		return 16
	case p.workers < 1:
		return 1
	}
	return p.workers
}

func newPlan(c *mon.C, sizes int) *plan {
	p := &plan{form: c.IntN(nForms), n: c.IntN(4), genPanic: -1, redCancel: -1, redPanic: -1,
		cancelAt: map[int]error{}, panicAt: map[int]any{}, delays: c.Uint64()}
	switch c.IntN(4) {
	case 0:
		p.n = c.IntN(sizes)
	case 1:
		p.n = c.Size(sizes)
	}
	p.workers = mon.Pick(c, -1000, -3, 0, 1, 1, 2, 2, 3, 4, 5, 16, 17, 20)
	if c.Chance(8) {
		p.workers = c.DictInt()
	}
	for i := 0; i < p.n; i++ {
		p.fan = append(p.fan, mon.Pick(c, 0, 1, 1, 1, 2, 3))
	}
	p.redRead = mon.Pick(c, -1, -1, -1, 0, 1, 2, 5)
	p.redOut = mon.Pick(c, 0, 1, 1, 1, 1, 1, 2, 3)
	p.redLate = c.Chance(3)
	p.ctxKind = c.IntN(3)
	p.burst = c.Chance(2)
	return p
}

// ledger is what the monitor observes of one call.
type ledger struct {
	clock    atomic.Int64
	mu       sync.Mutex
	mapped   map[int]int
	written  map[string]int // completed writes before cancellation etc.
	got      map[string]int
	active   int
	maxAct   int
	genDone  bool
	genBusy  bool
	redBusy  bool
	redDone  bool
	redSaw   bool // reducer saw its pipe closed
	outs     []string
	cancels  []cancelEv
	panics   []any
	panicT   []int64
	ctxMay   atomic.Int64 // the context had not ended before this moment
	ctxEnded atomic.Int64 // it had certainly ended at this moment
	started  int
	met      chan bool
	lastDone int64 // when the last callback returned
	endedBy  int64 // lastDone when the call returned
	// outcome
	returned bool
	retT     int64
	val      string
	err      error
	pan      any
	panicked bool
	atReturn string // what was still running when the call returned
}

type cancelEv struct {
	call, ret int64
	err       error
}

func (l *ledger) lock(f func()) {
	l.mu.Lock()
	f()
	l.mu.Unlock()
}

type thrown struct{ S string }

func (p *plan) nap(virtual bool, salt int) {
	x := (p.delays ^ uint64(salt)*0x9e3779b97f4a7c15) * 6364136223846793005
	x ^= x >> 29
	if p.burst && x%3 != 0 {
		return
	}
	if virtual {
		time.Sleep(time.Duration(1 + x%5000))
	} else if x%4 == 0 {
		for i := 0; i < int(x%7); i++ {
			runtime.Gosched()
		}
	}
}

func (l *ledger) doCancel(p *plan, cancel func(error), err error) {
	e := cancelEv{call: l.clock.Add(1), err: err, ret: 1 << 62}
	var i int
	l.lock(func() { l.cancels = append(l.cancels, e); i = len(l.cancels) - 1 })
	cancel(err)
	l.lock(func() { l.cancels[i].ret = l.clock.Add(1) })
}

func (l *ledger) throw(v any) {
	l.lock(func() { l.panics = append(l.panics, v); l.panicT = append(l.panicT, l.clock.Add(1)) })
	panic(v)
}

// mapItem is the monitored part of every mapper.
func (l *ledger) mapItem(p *plan, virtual bool, item int, write func(string), cancel func(error)) {
	l.lock(func() {
		l.mapped[item]++
		l.active++
		l.maxAct = max(l.maxAct, l.active)
		if l.started++; l.started == p.meet {
			close(l.met)
		}
	})
	mon.Beat()
	if p.meet > 0 {
		<-l.met
	}
	defer func() { l.lock(func() { l.active--; l.lastDone = l.clock.Add(1) }) }()
	p.nap(virtual, item*7+1)
	if write != nil && item < len(p.fan) {
		for j := 0; j < p.fan[item]; j++ {
			v := fmt.Sprintf("%d.%d", item, j)
			l.lock(func() { l.written[v]++ })
			write(v)
			p.nap(virtual, item*7+2+j)
		}
	}
	if err, ok := p.cancelAt[item]; ok && cancel != nil {
		l.doCancel(p, cancel, err)
		if p.twiceCanc {
			l.doCancel(p, cancel, errors.New("second"))
		}
	}
	if v, ok := p.panicAt[item]; ok {
		l.throw(v)
	}
}

func (l *ledger) generate(p *plan, virtual bool, send func(int)) {
	l.lock(func() { l.genBusy = true })
	defer l.lock(func() { l.genDone = true; l.lastDone = l.clock.Add(1) })
	for i := 0; i < p.n; i++ {
		if i == p.genPanic {
			l.throw(p.genPanicV)
		}
		p.nap(virtual, i*13+5)
		send(i)
	}
	if p.genPanic >= p.n {
		l.throw(p.genPanicV)
	}
}

func (l *ledger) reduce(p *plan, virtual bool, pipe <-chan string, write func(string), cancel func(error)) {
	l.lock(func() { l.redBusy = true })
	defer l.lock(func() { l.redDone = true; l.lastDone = l.clock.Add(1) })
	out := func() {
		for j := 0; j < p.redOut; j++ {
			v := fmt.Sprintf("result%d", j)
			l.lock(func() { l.outs = append(l.outs, v) })
			if write != nil {
				write(v)
			}
		}
	}
	if p.redLate {
		out()
	}
	k := 0
	for {
		if p.redCancel == k {
			l.doCancel(p, cancel, p.redCancelE)
		}
		if p.redPanic == k {
			l.throw(p.redPanicV)
		}
		if p.redRead >= 0 && k >= p.redRead {
			break
		}
		v, ok := <-pipe
		if !ok {
			l.lock(func() { l.redSaw = true })
			break
		}
		l.lock(func() { l.got[v]++ })
		mon.Beat()
		p.nap(virtual, k*17+9)
		k++
	}
	if p.redCancel > k {
		l.doCancel(p, cancel, p.redCancelE)
	}
	if p.redPanic > k {
		l.throw(p.redPanicV)
	}
	if !p.redLate {
		out()
	}
}

// call makes the call and records its outcome.
func (l *ledger) call(p *plan, virtual bool) {
	l.met = make(chan bool) // in the bubble, where waiting for it counts as blocked
	var opts []mr.Option
	if p.workers != -1000 {
		opts = append(opts, mr.WithWorkers(p.workers))
	}
	ctx, cancelCtx := context.WithCancel(context.Background())
	switch p.ctxKind {
	case 1:
		opts = append(opts, mr.WithContext(context.Background()))
	case 2, 4:
		opts = append(opts, mr.WithContext(ctx))
	case 3:
		l.ctxMay.Store(l.clock.Add(1))
		cancelCtx()
		l.ctxEnded.Store(l.clock.Add(1))
		opts = append(opts, mr.WithContext(ctx))
	case 5:
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, p.ctxAt)
		defer c2()
		stop := context.AfterFunc(ctx, func() {
			l.ctxMay.Store(-1)
			l.ctxEnded.CompareAndSwap(0, l.clock.Add(1))
		})
		defer stop()
		opts = append(opts, mr.WithContext(ctx))
	}
	if p.ctxKind == 4 {
		go func() {
			if virtual {
				time.Sleep(p.ctxAt)
			} else {
				for i := 0; i < int(p.ctxAt)%50; i++ {
					runtime.Gosched()
				}
			}
			l.ctxMay.Store(l.clock.Add(1))
			cancelCtx()
			l.ctxEnded.Store(l.clock.Add(1))
		}()
	}
	defer func() {
		if p.ctxKind == 5 && ctx.Err() != nil {
			l.ctxMay.Store(-1)
		}
		r := recover()
		l.lock(func() {
			l.returned = true
			l.retT = l.clock.Add(1)
			l.endedBy = l.lastDone
			if r != nil {
				l.panicked, l.pan = true, r
			}
			var left []string
			if l.genBusy && !l.genDone {
				left = append(left, "generator")
			}
			if l.active > 0 {
				left = append(left, fmt.Sprint(l.active, " mappers"))
			}
			if l.redBusy && !l.redDone {
				left = append(left, "reducer")
			}
			l.atReturn = strings.Join(left, ", ")
		})
		if p.ctxKind != 4 {
			cancelCtx()
		}
	}()
	gen := func(source chan<- int) { l.generate(p, virtual, func(i int) { source <- i }) }
	mapper := func(item int, w mr.Writer[string], cancel func(error)) {
		l.mapItem(p, virtual, item, w.Write, cancel)
	}
	red := func(pipe <-chan string, w mr.Writer[string], cancel func(error)) {
		l.reduce(p, virtual, pipe, w.Write, cancel)
	}
	switch p.form {
	case fMapReduce:
		l.val, l.err = mr.MapReduce(gen, mapper, red, opts...)
	case fMapReduceChan:
		src := make(chan int)
		go func() {
			defer close(src)
			gen(src)
		}()
		l.val, l.err = mr.MapReduceChan(src, mapper, red, opts...)
	case fMapReduceVoid:
		l.err = mr.MapReduceVoid(gen, mapper, func(pipe <-chan string, cancel func(error)) {
			l.reduce(p, virtual, pipe, nil, cancel)
		}, opts...)
	case fForEach:
		mr.ForEach(gen, func(item int) { l.mapItem(p, virtual, item, nil, nil) }, opts...)
	case fFinish:
		var fns []func() error
		for i := 0; i < p.n; i++ {
			fns = append(fns, func() error {
				l.mapItem(p, virtual, i, nil, nil)
				if e, ok := p.cancelAt[i]; ok {
					l.lock(func() { l.cancels = append(l.cancels, cancelEv{l.clock.Add(1), 1 << 62, e}) })
					return e
				}
				return nil
			})
		}
		l.err = mr.Finish(fns...)
	case fFinishVoid:
		var fns []func()
		for i := 0; i < p.n; i++ {
			fns = append(fns, func() { l.mapItem(p, virtual, i, nil, nil) })
		}
		mr.FinishVoid(fns...)
	}
}

func newLedger() *ledger {
	return &ledger{mapped: map[int]int{}, written: map[string]int{}, got: map[string]int{}}
}

func (l *ledger) outcome() string {
	if l.panicked {
		return fmt.Sprintf("panic(%v)", l.pan)
	}
	return fmt.Sprintf("(%q, %v)", l.val, l.err)
}

// execute runs the plan in a bubble (virtual) or for real.
func execute(t *testing.T, c *mon.C, p *plan, virtual bool) *ledger {
	l := newLedger()
	c.Op("%s", p.String())
	if !virtual {
		l.call(p, false)
		settle(c, l)
		return l.snapshot()
	}
	base := 0
	sched.Run(t, c, func() { base = runtime.NumGoroutine() }, []func(){func() { l.call(p, true) }}, func() {
		for i := 0; i < 10; i++ {
			if runtime.NumGoroutine() <= base {
				return
			}
			time.Sleep(sched.Horizon / 10)
		}
		if left := sched.CodeGoroutines(); len(left) > 0 {
			c.Report("the call returned %s, all callbacks have returned, but %d of its goroutines remain:\n%s", l.outcome(), len(left), strings.Join(left, "\n\n"))
			mon.Die()
		}
	})
	mon.Count("calls:"+formNames[p.form], 1)
	return l.snapshot()
}

// settle waits until nothing the call started runs any more.
func settle(c *mon.C, l *ledger) {
	start := time.Now()
	for i := 0; ; i++ {
		runtime.Gosched()
		if i < 20 {
			if l.quiet() {
				return
			}
			continue
		}
		if i > 40 {
			time.Sleep(time.Millisecond)
		}
		left := codeGoroutines()
		if len(left) == 0 && l.quiet() {
			return
		}
		mon.Beat()
		if time.Since(start) > 20*time.Second && stuckAll(left) {
			time.Sleep(3 * time.Second)
			if again := codeGoroutines(); len(again) == len(left) && stuckAll(again) {
				c.Report("the call returned %s but %d of its goroutines remain blocked:\n%s", l.outcome(), len(left), strings.Join(left, "\n\n"))
				mon.Die()
			}
		}
	}
}

func codeGoroutines() (out []string) {
	for _, g := range strings.Split(sched.Dump(), "\n\n") {
		if strings.Contains(g, "gosb/gogenerics/gconcurrent/mr.") && !strings.Contains(g, "settle") {
			out = append(out, g)
		}
	}
	return
}

func stuckAll(gs []string) bool {
	for _, g := range gs {
		if !strings.Contains(g, "[chan ") && !strings.Contains(g, "[select") && !strings.Contains(g, "[sync.") {
			return false
		}
	}
	return len(gs) > 0
}

// quiet reports whether every callback that began has returned.
func (l *ledger) quiet() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.active == 0 && l.genBusy == l.genDone && l.redBusy == l.redDone
}

// snapshot copies what was observed, late callbacks change it no more.
func (l *ledger) snapshot() *ledger {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := &ledger{mapped: maps.Clone(l.mapped), written: maps.Clone(l.written), got: maps.Clone(l.got),
		maxAct: l.maxAct, genDone: l.genDone, genBusy: l.genBusy, redBusy: l.redBusy, redDone: l.redDone, redSaw: l.redSaw,
		outs: slices.Clone(l.outs), cancels: slices.Clone(l.cancels), panics: slices.Clone(l.panics), panicT: slices.Clone(l.panicT),
		lastDone: l.lastDone, endedBy: l.endedBy, returned: l.returned, retT: l.retT, val: l.val, err: l.err, pan: l.pan,
		panicked: l.panicked, atReturn: l.atReturn}
	s.ctxMay.Store(l.ctxMay.Load())
	s.ctxEnded.Store(l.ctxEnded.Load())
	return s
}

func multiset(m map[string]int) string {
	var s []string
	for k, n := range m {
		s = append(s, fmt.Sprintf("%s*%d", k, n))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// --- C03 ------------------------------------------------------------------

func checkC03(c *mon.C, p *plan, l *ledger) {
	if !l.returned {
		c.Violate("the call did not return")
	}
	wantPanic := p.redOut > 1 && (p.form == fMapReduce || p.form == fMapReduceChan)
	if wantPanic {
		if !l.panicked {
			c.Violate("the reducer wrote %d values but the call returned %s instead of panicking", p.redOut, l.outcome())
		}
	} else if l.panicked {
		c.Violate("the call panicked with %v", l.pan)
	}
	for i := 0; i < p.n; i++ {
		if wantPanic && l.mapped[i] == 0 {
			continue // the panic may end the call early
		}
		if l.mapped[i] != 1 {
			c.Violate("item %d was mapped %d times", i, l.mapped[i])
		}
	}
	if len(l.mapped) > p.n {
		c.Violate("mapped items %v, generated only %d", l.mapped, p.n)
	}
	if l.maxAct > p.limit() {
		c.Violate("%d mappers ran at once, limit %d", l.maxAct, p.limit())
	}
	if p.meet > 1 {
		mon.Count("mappers_met", p.meet)
	}
	mon.Max("mappers_at_once", l.maxAct)
	mapReduce := p.form == fMapReduce || p.form == fMapReduceChan || p.form == fMapReduceVoid
	if mapReduce && !wantPanic {
		if p.redRead < 0 {
			if multiset(l.got) != multiset(l.written) {
				c.Violate("reducer received %s, mappers wrote %s", multiset(l.got), multiset(l.written))
			}
			if !l.redSaw {
				c.Violate("the reducer's input was never closed")
			}
		} else {
			total, gotN := 0, 0
			for v, n := range l.got {
				gotN += n
				if n > l.written[v] {
					c.Violate("reducer received %s %d times, written %d times", v, n, l.written[v])
				}
			}
			for _, n := range l.written {
				total += n
			}
			if gotN != min(p.redRead, total) {
				c.Violate("reducer asked for %d values of %d written and received %d", p.redRead, total, gotN)
			}
		}
	}
	switch p.form {
	case fMapReduce, fMapReduceChan:
		switch {
		case wantPanic:
		case p.redOut == 0:
			if !errors.Is(l.err, mr.ErrReduceNoOutput) || l.val != "" {
				c.Violate("the reducer wrote nothing, the call returned %s", l.outcome())
			}
		default:
			if l.err != nil || l.val != "result0" {
				c.Violate("the reducer wrote result0, the call returned %s", l.outcome())
			}
		}
	default:
		if l.err != nil {
			c.Violate("the call returned %v", l.err)
		}
	}
	if l.atReturn != "" && !wantPanic {
		c.Violate("when the call returned, still running: %s", l.atReturn)
	}
	if mapReduce && (!l.redDone || !l.genDone) && !wantPanic {
		c.Violate("call returned %s with generator done=%v reducer done=%v", l.outcome(), l.genDone, l.redDone)
	}
	mon.Count("items", p.n)
	mon.Count("values", len(l.written))
	if p.n > 1 {
		c.Distinct(p.String(), l.maxAct)
	}
	mon.Sample("%s/%d: %s -> %s, %d at once", c.Monitor, c.Idx, p, l.outcome(), l.maxAct)
}

func planC03(c *mon.C) *plan {
	p := newPlan(c, 40)
	if c.Chance(150) {
		// a crowd: far more items than usual, and as many mappers at once as were asked for
		p.n = 100 + c.Size(1500)
		p.fan = make([]int, p.n)
		for i := range p.fan {
			p.fan[i] = c.IntN(2)
		}
		p.workers = mon.Pick(c, p.n, p.n+1, 2*p.n, 1<<20, p.n/2, c.Size(1500))
		p.redOut = min(p.redOut, 1)
		p.meet = min(p.n, p.limit())
		return p
	}
	if p.redOut <= 1 && c.Chance(3) {
		p.meet = min(p.n, p.limit())
	}
	return p
}

func TestC03Sched(t *testing.T) {
	mon.Cases(t, "exactly-once/sched", mon.Num(5000, 150000), func(c *mon.C) {
		p := planC03(c)
		checkC03(c, p, execute(t, c, p, true))
	})
}

func TestC03Stress(t *testing.T) {
	mon.Cases(t, "exactly-once/stress", mon.Num(3000, 60000), func(c *mon.C) {
		p := planC03(c)
		checkC03(c, p, execute(t, c, p, false))
	})
}

// --- C04 ------------------------------------------------------------------

type otherErr struct{ n int }

func (e otherErr) Error() string { return fmt.Sprint("other", e.n) }

// nilErr is an error even as a nil pointer.
type nilErr struct{}

func (e *nilErr) Error() string { return "nilErr" }

// listErr is an error that cannot be compared.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint("list", []string(e)) }

func sameAny(a, b any) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok || ok2 {
		return ok && ok2 && slices.Equal(x, y)
	}
	return a == b
}

func planC04(c *mon.C) *plan {
	p := newPlan(c, 24)
	if c.Chance(150) {
		p.n = 100 + c.Size(1000)
		p.fan = make([]int, p.n)
		for i := range p.fan {
			p.fan[i] = c.IntN(2)
		}
		p.workers = mon.Pick(c, p.n, 2*p.n, 1, 4, 16, p.n/2, c.Size(1000))
	}
	p.redOut = mon.Pick(c, 0, 1, 1)
	errs := []error{errors.New("boom"), otherErr{1}, &otherErr{2}, nil, fmt.Errorf("wrapped %w", context.Canceled), mr.ErrReduceNoOutput,
		(*nilErr)(nil), listErr{"a", fmt.Sprint(c.IntN(10))}}
	errs[0] = fmt.Errorf("boom%d", c.IntN(100))
	pick := func() error {
		for {
			e := errs[c.IntN(len(errs))]
			if e == nil && p.form == fFinish {
				continue
			}
			return e
		}
	}
	vals := []any{"panicked", 42, errors.New("panic error"), thrown{"x"}, &thrown{"y"}, listErr{"p", fmt.Sprint(c.IntN(10))}, (*nilErr)(nil)}
	val := func() any { return vals[c.IntN(len(vals))] }
	p.ctxAt = time.Duration(c.IntN(20000))
	faults := 1
	if c.Chance(3) {
		faults = 2 + c.IntN(3)
	}
	for ; faults > 0; faults-- {
		switch c.IntN(7) {
		case 0, 1:
			if p.n > 0 && p.form != fForEach && p.form != fFinishVoid {
				p.cancelAt[c.IntN(p.n)] = pick()
				p.twiceCanc = c.Chance(4)
			}
		case 2:
			if p.n > 0 {
				p.panicAt[c.IntN(p.n)] = val()
			}
		case 3:
			// a panicking producer of MapReduceChan is the caller's own goroutine
			if p.form < fFinish && p.form != fMapReduceChan {
				p.genPanic, p.genPanicV = c.IntN(p.n+1), val()
			}
		case 4:
			if p.form < fForEach {
				p.redCancel, p.redCancelE = c.IntN(4), pick()
			}
		case 5:
			if p.form < fForEach {
				p.redPanic, p.redPanicV = c.IntN(4), val()
			}
		default:
			if p.form <= fForEach {
				p.ctxKind = 3 + c.IntN(3)
			}
		}
	}
	return p
}

func checkC04(c *mon.C, p *plan, l *ledger) {
	if !l.returned {
		c.Violate("the call did not return")
	}
	if l.maxAct > p.limit() {
		c.Violate("%d mappers ran at once, limit %d", l.maxAct, p.limit())
	}
	for i, n := range l.mapped {
		if n > 1 || i >= p.n {
			c.Violate("item %d was mapped %d times", i, n)
		}
	}
	for v, n := range l.got {
		if n > l.written[v] {
			c.Violate("reducer received %s %d times, written %d times", v, n, l.written[v])
		}
	}
	isPanic := func(v any) bool {
		for _, x := range l.panics {
			if sameAny(x, v) {
				return true
			}
		}
		return false
	}
	ctxMay := p.ctxKind >= 3 && l.ctxMay.Load() != 0 && l.ctxMay.Load() < l.retT
	ctxEnded := p.ctxKind >= 3 && l.ctxEnded.Load() != 0 && l.ctxEnded.Load() < l.endedBy
	mapReduce := p.form == fMapReduce || p.form == fMapReduceChan || p.form == fMapReduceVoid
	// which causes had certainly taken hold before the call returned
	causes := []string{}
	for i, e := range l.cancels {
		if e.call < l.retT {
			causes = append(causes, fmt.Sprintf("cancel %d (%v)", i, e.err))
		}
	}
	for i, v := range l.panics {
		if l.panicT[i] < l.retT {
			causes = append(causes, fmt.Sprintf("panic %v", v))
		}
	}
	if ctxEnded {
		causes = append(causes, "context ended")
	}
	switch {
	case l.panicked:
		if !isPanic(l.pan) {
			c.Violate("the call panicked with %v (%T), which no callback raised; causes: %v", l.pan, l.pan, causes)
		}
	case l.err != nil:
		ok := false
		if errors.Is(l.err, context.DeadlineExceeded) && ctxMay && mapReduce {
			ok = true
		}
		for i, e := range l.cancels {
			want := e.err
			if want == nil {
				want = mr.ErrCancelWithNil
			}
			if !sameAny(l.err, want) || e.call > l.retT {
				continue
			}
			first := true
			for j, o := range l.cancels {
				if j != i && o.ret < e.call {
					first = false
				}
			}
			if first {
				ok = true
			}
		}
		if errors.Is(l.err, mr.ErrReduceNoOutput) && len(causes) == 0 && p.form != fMapReduceVoid && p.redOut == 0 {
			ok = true
		}
		if !ok {
			c.Violate("the call returned error %v; causes: %v, cancels: %+v", l.err, causes, l.cancels)
		}
		if l.val != "" {
			c.Violate("the call returned error %v together with value %q", l.err, l.val)
		}
	default: // success
		bad := causes
		if !mapReduce {
			// ForEach and FinishVoid just stop when the context ends
			bad = nil
			for _, s := range causes {
				if s != "context ended" {
					bad = append(bad, s)
				}
			}
		}
		if ctxMay || len(l.cancels) > 0 {
			// a panic after the context ended or a cancel took hold may be
			// swallowed, but then the outcome is that cause, which for ForEach is a
			// plain return
			if p.form == fForEach && ctxMay {
				bad = nil
			}
		}
		if len(bad) > 0 {
			c.Violate("the call succeeded with %q although: %v", l.val, bad)
		}
		if p.form == fMapReduce || p.form == fMapReduceChan {
			if p.redOut != 1 || l.val != "result0" {
				c.Violate("the call returned %s, the reducer wrote %v", l.outcome(), l.outs)
			}
		}
	}
	if len(causes) == 0 {
		mon.Count("calls_without_fault", 1)
	} else {
		mon.Count("calls_with_fault", 1)
		mon.Count("coinciding_faults", len(causes)-1)
		kind := "error"
		if l.panicked {
			kind = "panic"
		}
		if l.err == context.DeadlineExceeded {
			kind = "deadline"
		}
		mon.Count("outcome:"+kind, 1)
		c.Distinct(p.String(), l.outcome(), len(causes))
		mon.Sample("%s/%d: %s: %v -> %s", c.Monitor, c.Idx, p, causes, l.outcome())
	}
}

func TestC04Sched(t *testing.T) {
	mon.Cases(t, "ends/sched", mon.Num(8000, 200000), func(c *mon.C) {
		p := planC04(c)
		checkC04(c, p, execute(t, c, p, true))
	})
}

func TestC04Stress(t *testing.T) {
	mon.Cases(t, "ends/stress", mon.Num(3000, 60000), func(c *mon.C) {
		p := planC04(c)
		checkC04(c, p, execute(t, c, p, false))
	})
}
