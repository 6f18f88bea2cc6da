package c03

import (
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"

	"gosbverif/mon"
	"gosbverif/sched"
)

// mixed runs one call with items, values and results of other types, zero values
// among them: what nothing looks like must not matter.
func mixed[T, U, V any](c *mon.C, ts []T, us []U, result V) func() {
	var mu sync.Mutex
	mapped, got := map[string]int{}, map[string]int{}
	wantT, wantU := map[string]int{}, map[string]int{}
	for i := range ts {
		wantT[fmt.Sprintf("%#v", ts[i])]++
	}
	per := c.IntN(3)
	for range ts {
		for j := 0; j < per && j < len(us); j++ {
			wantU[fmt.Sprintf("%#v", us[j])]++
		}
	}
	form, workers, early := c.IntN(4), c.IntN(6), c.Chance(3)
	c.Op("%s of %d %T, %d %T each, result %T %v, workers %d, early %v", formNames[form], len(ts), *new(T), per, *new(U), result, result, workers, early)
	gen := func(source chan<- T) {
		for _, x := range ts {
			source <- x
		}
	}
	mapper := func(x T, w mr.Writer[U], _ func(error)) {
		mu.Lock()
		mapped[fmt.Sprintf("%#v", x)]++
		mu.Unlock()
		for j := 0; j < per && j < len(us); j++ {
			w.Write(us[j])
		}
	}
	read := func(pipe <-chan U) {
		for v := range pipe {
			mu.Lock()
			got[fmt.Sprintf("%#v", v)]++
			mu.Unlock()
		}
	}
	return func() {
		opts := []mr.Option{mr.WithWorkers(workers), mr.WithContext(context.Background())}
		var val V
		var err error
		switch form {
		case fMapReduce, fMapReduceChan:
			red := func(pipe <-chan U, w mr.Writer[V], _ func(error)) {
				if early {
					w.Write(result)
				}
				read(pipe)
				if !early {
					w.Write(result)
				}
			}
			if form == fMapReduce {
				val, err = mr.MapReduce(gen, mapper, red, opts...)
			} else {
				src := make(chan T, len(ts))
				gen(src)
				close(src)
				val, err = mr.MapReduceChan(src, mapper, red, opts...)
			}
			if err == nil && fmt.Sprintf("%#v", val) != fmt.Sprintf("%#v", result) {
				c.Report("the reducer wrote %#v, the call returned %#v", result, val)
			}
		case fMapReduceVoid:
			err = mr.MapReduceVoid(gen, mapper, func(pipe <-chan U, _ func(error)) { read(pipe) }, opts...)
		case fForEach:
			mr.ForEach(gen, func(x T) {
				mu.Lock()
				mapped[fmt.Sprintf("%#v", x)]++
				mu.Unlock()
			}, opts...)
			wantU = map[string]int{}
		}
		if err != nil {
			c.Report("the call returned %v", err)
		}
		mu.Lock()
		defer mu.Unlock()
		if !maps.Equal(mapped, wantT) {
			c.Report("items mapped: %v, generated: %v", mapped, wantT)
		}
		if !maps.Equal(got, wantU) {
			c.Report("values reduced: %v, written: %v", got, wantU)
		}
		mon.Count("items of other types", len(ts))
		c.Distinct(fmt.Sprintf("%T%T%T%#v", *new(T), *new(U), result, result), len(ts), per, form, workers, early)
	}
}

func some[T any](c *mon.C, xs ...T) (out []T) {
	for n := c.IntN(8); n > 0; n-- {
		out = append(out, xs[c.IntN(len(xs))])
	}
	return out
}

func typesCase(c *mon.C) func() {
	var none error
	switch c.IntN(7) {
	case 0:
		return mixed(c, some[any](c, nil, 0, "", false), some[any](c, nil, 0, ""), mon.Pick[any](c, nil, 0, ""))
	case 1:
		return mixed(c, some(c, io.EOF, none), some(c, none, io.EOF), mon.Pick(c, none, io.EOF))
	case 2:
		return mixed(c, some(c, struct{}{}), some(c, struct{}{}), struct{}{})
	case 3:
		return mixed(c, some(c, []int(nil), []int{}, []int{1}), some(c, map[int]int(nil), map[int]int{}), mon.Pick(c, []byte(nil), []byte{}, []byte{0}))
	case 4:
		return mixed(c, some(c, 0.0, 1.0, -1.0), some(c, false, true), mon.Pick(c, false, true))
	case 5:
		return mixed(c, some(c, "", "a"), some(c, [3]int{}, [3]int{1}), mon.Pick(c, [40]int{}, [40]int{39: 1}))
	}
	return mixed(c, some(c, (*int)(nil)), some(c, errors.Join(), none), (*int)(nil))
}

// stream checks that a call does not gather a whole stream: what is waiting
// between generator, mappers and reducer is bounded by the number of workers.
func stream(c *mon.C) {
	form, workers := mon.Pick(c, fMapReduce, fMapReduceVoid, fForEach), mon.Pick(c, 1, 2, 3, 8, 16, 17, 40)
	slow := c.Chance(2) // the mappers are slow, or else the reducer
	if form == fForEach {
		slow = true
	}
	per := 1 + c.IntN(4)
	n := 2000 + c.IntN(2000)
	c.Op("%s of %d items, %d values each, %d workers, slow mappers %v", formNames[form], n, per, workers, slow)
	var generated, mapped, written, reduced atomic.Int64
	var lead, told atomic.Int64
	look := func(what string, a, b int64) {
		for old := lead.Load(); a-b > old && !lead.CompareAndSwap(old, a-b); old = lead.Load() {
		}
		// an unbuffered hand-over, or a few buffers as long as there are workers
		if most := int64(4*workers + 100); a-b > most && told.Add(1) == 1 {
			c.Report("%d %s are waiting with %d workers: the call gathers the stream", a-b, what, workers)
		}
	}
	gen := func(source chan<- int) {
		for i := 0; i < n; i++ {
			source <- i
			look("items", generated.Add(1), mapped.Load())
		}
	}
	mapper := func(_ int, w mr.Writer[int], _ func(error)) {
		mon.Beat()
		mapped.Add(1)
		if slow {
			time.Sleep(time.Millisecond)
		}
		for j := 0; j < per && w != nil; j++ {
			w.Write(j)
			written.Add(1)
		}
	}
	read := func(pipe <-chan int) {
		for range pipe {
			look("values", written.Load(), reduced.Add(1))
			if !slow {
				time.Sleep(time.Millisecond)
			}
		}
	}
	opts := mr.WithWorkers(workers)
	switch form {
	case fMapReduce:
		_, _ = mr.MapReduce(gen, mapper, func(pipe <-chan int, w mr.Writer[int], _ func(error)) { read(pipe); w.Write(1) }, opts)
	case fMapReduceVoid:
		_ = mr.MapReduceVoid(gen, mapper, func(pipe <-chan int, _ func(error)) { read(pipe) }, opts)
	default:
		mr.ForEach(gen, func(i int) { mapper(i, nil, nil) }, opts)
	}
	if mapped.Load() != int64(n) || form != fForEach && reduced.Load() != int64(n*per) {
		c.Violate("%d of %d items mapped, %d of %d values reduced", mapped.Load(), n, reduced.Load(), n*per)
	}
	mon.Max("items or values waiting", int(lead.Load()))
	c.Distinct(form, workers, slow, per, n)
}

func TestC03SchedTypes(t *testing.T) {
	mon.Cases(t, "exactly-once/types", mon.Num(2500, 40000), func(c *mon.C) {
		f := typesCase(c)
		sched.Run(t, c, nil, []func(){f}, nil)
	})
	mon.Cases(t, "exactly-once/stream", mon.Num(60, 1000), func(c *mon.C) {
		synctest.Test(t, func(t *testing.T) { mon.Guard(c, func() { stream(c) }) })
	})
}
