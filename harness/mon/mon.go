// Package mon is the runtime-monitor kernel shared by every property check:
// seeded case generation, violation recording, a progress watchdog that decides
// deadlock from goroutine states and non-termination from CPU time (never from
// the wall clock), and the counters that become evidence.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/bits"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

var (
	Property = os.Getenv("VERIF_PROPERTY")
	Variant  = os.Getenv("VERIF_VARIANT")
	Tier     = os.Getenv("VERIF_TIER")
	outPath  = os.Getenv("VERIF_OUT")
	only     = os.Getenv("VERIF_ONLY") // monitor/idx: replay of a single case
	Seed     uint64
	Shard    int
	Shards   = 1

	scale, _  = strconv.Atoi(os.Getenv("VERIF_SCALE"))
	times, _  = strconv.Atoi(os.Getenv("VERIF_TIMES"))
	share, _  = strconv.Atoi(os.Getenv("VERIF_SHARE"))
	DictInts  []int
	largeInts []int
	DictStrs  []string
	known     = map[string]bool{}
)

type violation struct {
	Monitor string   `json:"monitor"`
	Case    int      `json:"case"`
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace"`
}

type result struct {
	Evaluations int            `json:"evaluations"`
	PerMonitor  map[string]int `json:"per_monitor"`
	Counts      map[string]int `json:"counts"`
	Samples     []string       `json:"samples"`
	Violations  []violation    `json:"violations"`
	Known       []string       `json:"known"`
	Errors      []string       `json:"errors"`
	Hashes      []string       `json:"hashes"`
	Done        bool           `json:"done"`
}

var (
	mu       sync.Mutex
	res      = result{PerMonitor: map[string]int{}, Counts: map[string]int{}}
	hashes   = map[uint64]struct{}{}
	progress atomic.Uint64
	cur      atomic.Pointer[C]
)

func init() {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	Seed = s
	if v := os.Getenv("VERIF_SHARD"); v != "" {
		fmt.Sscanf(v, "%d/%d", &Shard, &Shards)
	}
	if Tier == "" {
		Tier = "quick"
	}
	if p := os.Getenv("VERIF_DICT"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			var d struct {
				Ints []int64
				Strs []string
			}
			if json.Unmarshal(b, &d) == nil {
				DictStrs = d.Strs
				for _, i := range d.Ints {
					if int64(int(i)) == i {
						DictInts = append(DictInts, int(i))
						if i >= 15 && i <= 150000 {
							largeInts = append(largeInts, int(i))
						}
					}
				}
			}
		}
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			known[k] = true
		}
	}
}

// C is one generated case (one execution of the code under test).
type C struct {
	*rand.Rand
	Monitor string
	Idx     int

	mu    sync.Mutex
	trace []traceOp
	nt    bool
	hash  uint64
	bad   bool
}

type traceOp struct {
	name string
	args []any
}

type abort struct{}

func Quick() bool { return Tier != "thorough" }

// N picks the size of a workload for the tier.
func N(quick, thorough int) int {
	if Quick() {
		return quick
	}
	return thorough
}

// Num is N for a number of cases: the quick one as often as the driver asks.
func Num(quick, thorough int) int {
	if Quick() {
		return max(quick, min(quick*times, thorough))
	}
	return thorough
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Cases runs n seed-determined cases of one monitor (this shard's share).
func Cases(t *testing.T, monitor string, n int, f func(c *C)) {
	t.Helper()
	onlyIdx := -1
	if only != "" {
		i := strings.LastIndex(only, "/")
		if only[:i] != monitor {
			return
		}
		onlyIdx, _ = strconv.Atoi(only[i+1:])
	}
	if scale > 0 && only == "" { // a part of the cases (tools/mutants.py)
		n = (n*scale + 99) / 100
	}
	if share > 0 && only == "" { // a variant that makes fewer cases
		n = (n*share + 99) / 100
	}
	salt := uint64(0)
	if share > 0 {
		salt = hash64(Variant)
	}
	nviol := 0
	for i := 0; i < n; i++ {
		if i%Shards != Shard && onlyIdx < 0 {
			continue
		}
		if onlyIdx >= 0 && i != onlyIdx {
			continue
		}
		c := &C{Monitor: monitor, Idx: i, Rand: rand.New(rand.NewPCG(Seed*0x9e3779b97f4a7c15+uint64(i), hash64(monitor)^salt))}
		if !RunCase(c, f) {
			nviol++
			t.Fail()
			if nviol >= 3 || scale > 0 {
				return
			}
		}
	}
}

// RunCase runs f as the current case and reports whether no violation was found.
func RunCase(c *C, f func(c *C)) bool {
	cur.Store(c)
	progress.Add(1)
	Guard(c, func() { f(c) })
	cur.Store(nil)
	progress.Add(1)
	mu.Lock()
	res.Evaluations++
	res.PerMonitor[c.Monitor]++
	if c.nt && len(hashes) < 400000 {
		hashes[c.hash] = struct{}{}
	}
	mu.Unlock()
	return !c.bad
}

// Guard runs f as (part of) case c: a panic of the code under test becomes a
// violation, one of the harness an error. To be used directly by code running
// in a synctest bubble, whose panics would otherwise end the process.
func Guard(c *C, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			stack := string(debug.Stack())
			if strings.Contains(panicOrigin(stack), "github.com/miniLCT/gosb/") {
				c.record(fmt.Sprintf("unexpected panic in the code under test: %v\n%s", r, stack))
			} else if _, ok := r.(runtime.Error); ok {
				c.record(fmt.Sprintf("monitor could not interpret what the code under test returned: %v\n%s", r, stack))
			} else {
				Errorf("%s/%d: harness panic: %v\n%s", c.Monitor, c.Idx, r, stack)
			}
		}
	}()
	f()
}

// NewRand returns an independent generator (one per goroutine).
func NewRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 0x5eed)) }

// panicOrigin returns the part of a recovered stack from the panic downwards.
func panicOrigin(stack string) string {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	// keep the frames between the panic and the first harness frame
	lines := strings.Split(stack, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "gosbverif/props") || strings.HasPrefix(l, "gosbverif/mon") {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// Op notes an operation in the case's trace and counts as progress.
func (c *C) Op(name string, args ...any) {
	progress.Add(1)
	c.mu.Lock()
	if len(c.trace) < 20000 {
		c.trace = append(c.trace, traceOp{name, args})
	}
	c.mu.Unlock()
}

// Beat counts as progress without a trace entry.
func Beat() { progress.Add(1) }

// ResetTrace drops the trace collected so far.
func (c *C) ResetTrace() {
	c.mu.Lock()
	c.trace = c.trace[:0]
	c.mu.Unlock()
}

// Distinct marks the case as non-trivial, identified by the given content.
func (c *C) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0})
	}
	h.Write([]byte(c.Monitor))
	c.mu.Lock()
	c.nt, c.hash = true, h.Sum64()
	c.mu.Unlock()
}

func (c *C) TraceStrings() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	tr := c.trace
	var out []string
	if len(tr) > 400 {
		out = append(out, fmt.Sprintf("... %d earlier operations", len(tr)-400))
		tr = tr[len(tr)-400:]
	}
	for _, o := range tr {
		s := o.name
		if len(o.args) > 0 {
			s = fmt.Sprintf(o.name, o.args...)
		}
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		out = append(out, s)
	}
	return out
}

func (c *C) record(msg string) {
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	v := violation{c.Monitor, c.Idx, msg, c.TraceStrings()}
	mu.Lock()
	c.bad = true
	if len(res.Violations) < 20 {
		res.Violations = append(res.Violations, v)
	}
	mu.Unlock()
	flush(false)
}

// Violate records a violation and ends the case.
func (c *C) Violate(format string, args ...any) {
	c.record(fmt.Sprintf(format, args...))
	panic(abort{})
}

// Report records a violation without ending the case (usable from any goroutine).
func (c *C) Report(format string, args ...any) { c.record(fmt.Sprintf(format, args...)) }

// Known records a listed known finding; an unlisted one is a violation.
func (c *C) Known(id, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if !known[Property+":"+id] {
		c.Violate("%s", msg)
	}
	mu.Lock()
	for _, k := range res.Known {
		if strings.HasPrefix(k, id+":") {
			mu.Unlock()
			return
		}
	}
	res.Known = append(res.Known, id+": "+msg)
	mu.Unlock()
}

// Try runs g and returns its panic value (ok=false when it panicked). Panics
// raised by the monitor itself pass through.
func Try(g func()) (val any, ok bool) {
	ok = false
	defer func() {
		if !ok {
			r := recover()
			if _, is := r.(abort); is {
				panic(r)
			}
			val = r
		}
	}()
	g()
	ok = true
	return
}

func Count(name string, n int) {
	mu.Lock()
	res.Counts[name] += n
	mu.Unlock()
}

// Max keeps the maximum of a measured value.
func Max(name string, n int) {
	mu.Lock()
	if res.Counts["max:"+name] < n {
		res.Counts["max:"+name] = n
	}
	mu.Unlock()
}

func Sample(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	if len(res.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		res.Samples = append(res.Samples, s)
	}
}

// SampleTrace keeps the trace of this case as a sample of the run.
func (c *C) SampleTrace() {
	mu.Lock()
	full := len(res.Samples) >= 3
	mu.Unlock()
	if !full {
		Sample("%s/%d: %s", c.Monitor, c.Idx, strings.Join(c.TraceStrings(), "; "))
	}
}

// Errorf notes an error of the harness (inconclusive run).
func Errorf(format string, args ...any) {
	mu.Lock()
	if len(res.Errors) < 20 {
		res.Errors = append(res.Errors, fmt.Sprintf(format, args...))
	}
	mu.Unlock()
	flush(false)
}

func flush(done bool) {
	if outPath == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	res.Done = done
	res.Hashes = res.Hashes[:0]
	if done {
		for h := range hashes {
			res.Hashes = append(res.Hashes, strconv.FormatUint(h, 36))
		}
		sort.Strings(res.Hashes)
	}
	b, _ := json.Marshal(&res)
	_ = os.WriteFile(outPath+".tmp", b, 0o644)
	_ = os.Rename(outPath+".tmp", outPath)
}

// Die flushes and ends the process at once: used when the state of the process
// cannot be recovered (deadlocked bubble, leaked goroutines).
func Die() {
	flush(false)
	os.Exit(3)
}

// Main is the TestMain body of every property package.
func Main(m *testing.M) {
	go watchdog()
	code := m.Run()
	flush(true)
	if outPath == "" {
		for _, v := range res.Violations {
			fmt.Printf("VIOLATION %s/%d: %s\n  %s\n", v.Monitor, v.Case, v.Msg, strings.Join(v.Trace, "\n  "))
		}
		fmt.Printf("evaluations=%d distinct=%d counts=%v errors=%v known=%v\nsamples=%q\n", res.Evaluations, len(hashes), res.Counts, res.Errors, res.Known, res.Samples)
	}
	os.Exit(code)
}

func cpu() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	cpuLimit = 60 * time.Second
	memLimit = 3 << 30
)

func allStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// blockedForGood reports whether every goroutine but the caller's watchdog is
// blocked for good (waiting for another goroutine), and one of them inside the
// code under test.  In a bubble, sleepers are for good asleep while one of its
// goroutines is blocked on something the bubble's clock does not wait for (a
// mutex): virtual time stands still then.
func blockedForGood(dump string) (string, bool) {
	inCode, asleep, still := false, false, false
	var rel []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "gosbverif/mon.watchdog") {
			continue
		}
		i, j := strings.Index(g, "["), strings.Index(g, "]")
		if i < 0 || j < i {
			continue
		}
		st := g[i+1 : j]
		if strings.HasPrefix(st, "sleep (durable)") {
			asleep = true
			continue
		}
		if strings.Contains(st, "synctest bubble") && !strings.Contains(st, "(durable)") {
			still = true
		}
		for _, live := range []string{"running", "runnable", "syscall", "sleep", "IO wait", "preempted", "waiting", "copystack"} {
			if strings.HasPrefix(st, live) {
				return "", false
			}
		}
		if strings.Contains(g, "github.com/miniLCT/gosb/") {
			inCode = true
			rel = append(rel, g)
		}
	}
	return strings.Join(rel, "\n\n"), inCode && (still || !asleep)
}

func codeStacks(dump string) string {
	var rel []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "github.com/miniLCT/gosb/") {
			rel = append(rel, g)
		}
	}
	s := strings.Join(rel, "\n\n")
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

func fatal(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if c := cur.Load(); c != nil {
		c.record(msg)
	} else {
		Errorf("%s", msg)
	}
	Die()
}

func watchdog() {
	last, lastCPU, lastChange, still := progress.Load(), cpu(), time.Now(), 0
	for tick := 0; ; tick++ {
		time.Sleep(250 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, lastCPU, lastChange, still = p, cpu(), time.Now(), 0
		}
		still++
		if r := rss(); r > memLimit {
			fatal("memory grows without bound: %d MB resident after the last recorded operation\n%s", r>>20, codeStacks(allStacks()))
		}
		if tick%4 != 0 || time.Since(lastChange) < 10*time.Second {
			continue
		}
		d := allStacks()
		if rel, ok := blockedForGood(d); ok {
			time.Sleep(3 * time.Second)
			if rel2, ok2 := blockedForGood(allStacks()); ok2 && progress.Load() == last {
				_ = rel
				fatal("blocked forever: every goroutine waits for another one\n%s", rel2)
			}
			continue
		}
		// 150 s of the watchdog's own ticks: polling for something that never comes
		if s := codeStacks(d); still >= 600 && s != "" && progress.Load() == last {
			fatal("call does not return: no operation completed in %v\n%s", time.Since(lastChange), s)
		}
		if used := cpu() - lastCPU; used > cpuLimit && progress.Load() == last {
			if s := codeStacks(d); s != "" {
				fatal("call does not terminate: %v of CPU time without completing one operation\n%s", used, s)
			} else {
				fatal2("no progress for %v of CPU time outside the code under test\n%s", used, d)
			}
		}
	}
}

func fatal2(format string, args ...any) {
	Errorf(format, args...)
	Die()
}

// --- generators -----------------------------------------------------------

// Chance is true with probability 1/n.
func (c *C) Chance(n int) bool { return c.IntN(n) == 0 }

// Size returns a heavy-tailed size in [0,max], sometimes a constant (+-1) that
// occurs in the source under test.
func (c *C) Size(max int) int {
	if len(DictInts) > 0 && c.Chance(6) {
		v := DictInts[c.IntN(len(DictInts))] + c.IntN(3) - 1
		if v >= 0 && v <= max {
			return v
		}
	}
	switch c.IntN(6) {
	case 0:
		return c.IntN(min(max, 3) + 1)
	case 1, 2:
		return c.IntN(min(max, 12) + 1)
	case 3:
		return c.IntN(min(max, 40) + 1)
	case 4:
		p := 1 << c.IntN(20)
		v := p + c.IntN(3) - 1
		if v >= 0 && v <= max {
			return v
		}
		return c.IntN(max + 1)
	default:
		return c.IntN(max + 1)
	}
}

// Pick returns one of the given values.
func Pick[T any](c *C, vs ...T) T { return vs[c.IntN(len(vs))] }

// DictStr returns a string constant of the source under test ("" if none).
func (c *C) DictStr() string {
	if len(DictStrs) == 0 {
		return ""
	}
	return DictStrs[c.IntN(len(DictStrs))]
}

// Big returns 0 in all but one of n cases, and then a size in [1,max]: a constant
// of the source under test, its double or half, or heavy-tailed up to max.
func (c *C) Big(n, max int) int { return c.BigTo(n, max, max) }

// BigTo is like Big, but constants may give sizes up to limit.
func (c *C) BigTo(n, max, limit int) int {
	if !c.Chance(n) {
		return 0
	}
	if len(largeInts) > 0 && c.Chance(2) {
		v := largeInts[c.IntN(len(largeInts))]
		switch c.IntN(4) {
		case 0:
			v *= 2
		case 1:
			v /= 2
		}
		if v += c.IntN(5) - 1; v >= 30 && (v <= max || v <= limit && c.Chance(5)) {
			return v
		}
	}
	return min(max, 1+c.IntN(1<<(5+c.IntN(bits.Len(uint(max))-4))))
}

// Edges returns positions in [0,n) at which work done in pieces may be cut:
// the ends, around the powers of two, around multiples of powers of two and of
// constants of the source under test.
func (c *C) Edges(n int) []int {
	var ps []int
	add := func(p int) {
		for d := -1; d <= 1; d++ {
			if p+d >= 0 && p+d < n {
				ps = append(ps, p+d)
			}
		}
	}
	add(0)
	add(n - 1)
	add(n / 2)
	for p := 4; p <= n; p *= 2 {
		add(p)
		add(p * (1 + c.IntN(n/p)))
	}
	for i := 0; i < 4 && len(DictInts) > 0; i++ {
		if p := DictInts[c.IntN(len(DictInts))]; p > 2 && p < n {
			add(p * (1 + c.IntN(n/p)))
		}
	}
	return ps
}

// DictInt returns an integer constant of the source under test, +-1.
func (c *C) DictInt() int {
	if len(DictInts) == 0 {
		return c.IntN(20)
	}
	return DictInts[c.IntN(len(DictInts))] + c.IntN(3) - 1
}

// Replaying reports whether a single recorded case is being run again.
func Replaying() bool { return only != "" }

// At returns the n-th (cyclically) of the given values.
func At[T any](n int, vs ...T) T { return vs[uint(n)%uint(len(vs))] }

// A Ledger keeps slices which calls returned: they belong to the caller, so no
// later call may change them, and what the caller writes into them, spare
// capacity included, must not show anywhere else.
type Ledger[T any] struct {
	items []kept[T]
	n     int
}

type kept[T any] struct {
	what    string
	s, copy []T
}

func memory[T any](s []T) []byte {
	if len(s) == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), uintptr(len(s))*unsafe.Sizeof(s[0]))
}

func (k *kept[T]) check() string {
	if string(memory(k.s)) == string(memory(k.copy)) {
		return ""
	}
	for i := range k.copy {
		if string(memory(k.s[i:i+1])) != string(memory(k.copy[i:i+1])) {
			return fmt.Sprintf("what %s returned earlier has changed at %d of %d: from %v to %v", k.what, i, len(k.s), k.copy[i], k.s[i])
		}
	}
	return ""
}

// spoil fills the spare capacity of s with junk, as appending to s may.
func spoil[T any](s []T, junk T) {
	full := s[:cap(s)]
	for i := len(s); i < len(full); i++ {
		full[i] = junk
	}
}

// Put enters s and fills its spare capacity, and that of the slices kept before,
// with junk. One of these is checked and filled with junk in its turn. What is
// wrong is returned.
func (l *Ledger[T]) Put(what string, s []T, junk T) string {
	if l == nil || cap(s) == 0 || unsafe.Sizeof(junk) == 0 {
		return ""
	}
	k := kept[T]{what, s, append([]T(nil), s...)}
	spoil(s, junk)
	for i := range l.items {
		spoil(l.items[i].s, junk)
	}
	if msg := k.check(); msg != "" {
		return "appending to an earlier result: " + msg
	}
	if len(l.items) < 8 {
		l.items = append(l.items, k)
		return ""
	}
	l.n++
	i := l.n * 5 % 23 % 8
	if msg := l.items[i].check(); msg != "" {
		return msg
	}
	for j := range l.items[i].s {
		l.items[i].s[j] = junk
	}
	if msg := k.check(); msg != "" {
		return "writing into an earlier result: " + msg
	}
	l.items[i] = k
	return ""
}

// Keep is Put for monitors.
func (l *Ledger[T]) Keep(c *C, what string, s []T, junk T) {
	if msg := l.Put(what, s, junk); msg != "" {
		c.Violate("%s", msg)
	}
}

// Check checks all that are kept.
func (l *Ledger[T]) Check(c *C) {
	for i := range l.items {
		if msg := l.items[i].check(); msg != "" {
			c.Violate("%s", msg)
		}
	}
}
