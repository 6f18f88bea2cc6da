// Package sched runs one concurrent execution of the code under test inside a
// testing/synctest bubble under vsync's seeded random schedules. Because time
// in a bubble is virtual and only advances when every goroutine is blocked,
// "did not return although everybody else had ample virtual time" is a fact
// about the execution (deadlock or endless loop), not about machine load.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gosbverif/mon"
	"gosbverif/vsync"
)

// Horizon is the virtual time after which an operation counts as stuck.
// A yield takes about 0.1 to 1 microseconds of virtual time.
const Horizon = 200 * time.Millisecond

// Dump returns the stacks of all goroutines.
func Dump() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// CodeGoroutines returns the stacks of the current bubble's goroutines that
// belong to the code under test (running it or created by it).
func CodeGoroutines() []string {
	var out []string
	for _, g := range strings.Split(Dump(), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "github.com/miniLCT/gosb/") {
			out = append(out, g)
		}
	}
	return out
}

// Guard runs f and turns a panic from the code under test into a violation.
func Guard(c *mon.C, who string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Report("%s panicked: %v\n%s", who, r, debug.Stack())
		}
	}()
	f()
}

// Run executes setup, then the workers concurrently, then after (still inside
// the bubble, perturbation off), and reports a worker that never returns.
// It reports whether the execution completed.
func Run(t *testing.T, c *mon.C, setup func(), workers []func(), after func()) {
	seed := c.Uint64()
	synctest.Test(t, func(t *testing.T) {
		if setup != nil {
			Guard(c, "setup", setup)
		}
		vsync.Start(seed)
		done := make([]atomic.Bool, len(workers))
		for i, w := range workers {
			go func() {
				defer done[i].Store(true)
				vsync.Enter()
				Guard(c, fmt.Sprintf("worker %d", i), w)
			}()
		}
		var stuck []int
		for k := 0; k < 20; k++ {
			time.Sleep(Horizon / 20)
			stuck = stuck[:0]
			for i := range done {
				if !done[i].Load() {
					stuck = append(stuck, i)
				}
			}
			if len(stuck) == 0 {
				break
			}
		}
		if len(stuck) > 0 {
			c.Report("workers %v never return (all other goroutines had %v of virtual time, %d scheduling points taken)\n%s",
				stuck, Horizon, vsync.Yields.Load(), strings.Join(CodeGoroutines(), "\n\n"))
			mon.Die()
		}
		vsync.Stop()
		mon.Count("yields", int(vsync.Yields.Load()))
		if after != nil {
			Guard(c, "final check", after)
		}
	})
}
