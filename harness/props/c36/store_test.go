package c36

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
	"gosbverif/sched"
)

// read is a value that counts how often it is decoded: once for every entry a
// clean-up looks at.
type read struct{ N int }

var reads atomic.Int64

func (r *read) UnmarshalJSON(b []byte) error {
	reads.Add(1)
	return json.Unmarshal(b, &r.N)
}

func (r read) MarshalJSON() ([]byte, error) { return json.Marshal(r.N) }

func newStore(c *mon.C) (*cachex.FileStore[int, read], time.Duration, func()) {
	dir, err := os.MkdirTemp("", "gosbverif-c38-")
	if err != nil {
		panic(err)
	}
	cycle := mon.Pick(c, 0, 50*time.Millisecond, 999*time.Millisecond, time.Second, 1500*time.Millisecond, 2900*time.Millisecond, 10*time.Second, 10*time.Minute, 3*time.Hour, 30*time.Hour)
	if c.Chance(2) {
		cycle = time.Duration(1 + c.Int64N(int64(5*time.Second)))
	}
	st := &cachex.FileStore[int, read]{Dir: dir, GCCycle: cycle}
	c.Op("GCCycle %v", cycle)
	if cycle == 0 {
		cycle = time.Minute
	}
	return st, cycle, func() { _ = os.RemoveAll(dir) }
}

// storeCase: a call on one key costs the same whatever the directory holds,
// except for the calls that start a clean-up, which are at most one per cycle.
func storeCase(c *mon.C) {
	st, cycle, done := newStore(c)
	defer done()
	ctx := context.Background()
	n := 400 + c.Size(1000)
	const limit = 300
	var scans, worst int64
	from := time.Now()
	cost := func(what string, keys int, f func()) {
		s := steps(func() { f(); synctest.Wait() })
		if s <= int64(limit*keys) {
			worst = max(worst, s/int64(keys))
			return
		}
		scans++
		c.Op("%s: %d statements after %v", what, s, time.Since(from))
		if most := int64(time.Since(from)/cycle) + 1; scans > most {
			c.Violate("%d calls went through the directory of %d entries in %v, at most one per %v is documented", scans, n, time.Since(from), cycle)
		}
	}
	for i := 0; i < n; i++ {
		cost("Set", 1, func() {
			if err := st.Set(ctx, i, read{i}, 10000*time.Hour); err != nil {
				c.Violate("Set reported %v", err)
			}
		})
	}
	sig := fmt.Sprint(n, cycle)
	for i := 0; i < 60; i++ {
		if c.Chance(2) {
			time.Sleep(time.Duration(c.Int64N(int64(cycle) / 3 * 2)))
		}
		k, x := c.IntN(7), c.IntN(2*n)
		sig += fmt.Sprint(k)
		switch k {
		case 0, 1, 2:
			cost("Get", 1, func() { st.Get(ctx, x) })
		case 3:
			cost("MGet", 3, func() { st.MGet(ctx, x, x+1, x) })
		case 4:
			cost("Delete", 2, func() { st.Delete(ctx, x, x+1) })
		case 5:
			cost("MSet", 2, func() { st.MSet(ctx, map[int]read{x: {x}, x + 1: {x}}, 10000*time.Hour) })
		default:
			cost("Set", 1, func() { st.Set(ctx, x, read{i}, 10000*time.Hour) })
		}
	}
	mon.Count("clean-ups seen", int(scans))
	mon.Max("statements per store call", int(worst))
	c.Distinct(sig)
}

// storeRace: several clients notice at once that a cycle is over.
func storeRace(t *testing.T, c *mon.C) {
	st, _, done := newStore(c)
	defer done()
	ctx := context.Background()
	// a cycle so short that it ends during the calls, which take microseconds
	st.GCCycle = time.Duration(1+c.IntN(40)) * time.Microsecond
	if c.Chance(2) {
		st.GCCycle = 150 * time.Millisecond
	}
	cycle := st.GCCycle
	n := 1 + c.IntN(2)
	var first int64
	var from time.Time
	var last atomic.Int64
	setup := func() {
		for i := 0; i < n; i++ {
			if err := st.Set(ctx, i, read{i}, 10000*time.Hour); err != nil {
				c.Violate("Set reported %v", err)
			}
		}
		synctest.Wait()
		time.Sleep(cycle)
		before := reads.Load()
		from = time.Now()
		st.Get(ctx, -1)
		synctest.Wait()
		first = reads.Load()
		if first-before != int64(n) {
			from = time.Time{} // clean-up does not go by what is documented, C09 judges that
		}
		// the next cycle ends while the clients run
		time.Sleep(cycle - time.Duration(mon.Pick(c, 0, 0, 0, c.IntN(2000))))
	}
	var ws []func()
	for i := 0; i < 2+c.IntN(3); i++ {
		calls := 1 + c.IntN(4)
		wait := time.Duration(mon.Pick(c, 0, 0, c.IntN(1000)))
		ws = append(ws, func() {
			time.Sleep(wait)
			for k := 0; k < calls; k++ {
				st.Get(ctx, -2-i)
			}
			now := int64(time.Since(from))
			for {
				if old := last.Load(); old >= now || last.CompareAndSwap(old, now) {
					break
				}
			}
		})
	}
	sched.Run(t, c, setup, ws, func() {
		synctest.Wait()
		if from.IsZero() {
			mon.Count("no clean-up seen", 1)
			return
		}
		// the calls themselves decode nothing, so n decodings are one clean-up
		scans := (reads.Load() - first) / int64(n)
		if most := last.Load() / int64(cycle); scans > most {
			c.Report("%d clean-ups within %v of the one before, at most one per %v is documented", scans, time.Duration(last.Load()), cycle)
		}
		mon.Count("clean-ups seen", int(scans))
		c.Distinct(n, len(ws), last.Load(), int64(cycle))
	})
}

func TestC38Store(t *testing.T) {
	mon.Cases(t, "store", mon.Num(40, 600), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { storeCase(c) }) })
	})
	mon.Cases(t, "store/clean-up", mon.Num(1500, 30000), func(c *mon.C) { storeRace(t, c) })
}
