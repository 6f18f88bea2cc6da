S = "gogenerics/gconcurrent/sync"
M = "gogenerics/gconcurrent/mr"
K = "gogenerics/gconstraints"
SEEDS = [
dict(id="c01-lad-recheck", prop="C01", pkg=S,
 edits=[(S+"/map.go", '''		m.mu.Lock()
		read = m.loadReadOnly()
		e, ok = read.m[key]
		if !ok && read.amended {
			e, ok = m.dirty[key]
			delete(m.dirty, key)
''', '''		m.mu.Lock()
		e, ok = m.dirty[key]
		if !ok || read.amended {
			delete(m.dirty, key)
''')],
 demo='''
package sync

import (
	"testing"
	"time"
)

// A key that is present all the time must be found by LoadAndDelete although
// the dirty map is promoted while the call waits for the lock.
func TestSeededDemo(t *testing.T) {
	var m Map[string, int]
	m.Store("a", 1)
	m.Load("a")
	m.Store("b", 2)
	m.Store("c", 3)
	m.mu.Lock()
	res := make(chan bool)
	go func() {
		_, ok := m.LoadAndDelete("b")
		res <- ok
	}()
	time.Sleep(100 * time.Millisecond)
	for m.dirty != nil {
		m.missLocked()
	}
	m.mu.Unlock()
	if !<-res {
		t.Fatal("present key not found")
	}
	if _, ok := m.Load("c"); !ok {
		t.Fatal("other key lost")
	}
}
''', needs="the dirty map promoted between LoadAndDelete's unlocked read and its taking of the lock",
 breaks="LoadAndDelete reports a present key as absent, and every other key is lost with it"),
dict(id="c01-unexpunge", prop="C01", pkg=S,
 edits=[(S+"/map.go", '''		if e.unexpungeLocked() {
			m.dirty[key] = e
		}
''', '''		e.unexpungeLocked()
''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[string, int]
	m.Store("a", 1)
	m.Load("a") // promotes
	m.Delete("a")
	m.Store("b", 2) // expunges a
	if v, loaded := m.LoadOrStore("a", 3); loaded || v != 3 {
		t.Fatal(v, loaded)
	}
	m.Load("b")
	m.Load("b") // promotes
	if v, ok := m.Load("a"); !ok || v != 3 {
		t.Fatal("stored value lost", v, ok)
	}
}
''', needs="a key deleted, expunged by the store of another key, stored again with LoadOrStore and then a promotion",
 breaks="a value stored by LoadOrStore disappears at the next promotion"),
dict(id="c01-delete-noretry", prop="C01", pkg=S,
 edits=[(S+"/map.go", '''func (e *entry[V]) delete() (value V, ok bool) {
	for {
		p := e.p.Load()
		if p == nil || unsafe.Pointer(p) == expunged {
			var zero V
			return zero, false
		}
		if e.p.CompareAndSwap(p, nil) {
			return *p, true
		}
	}
}''', '''func (e *entry[V]) delete() (value V, ok bool) {
	p := e.p.Load()
	if p == nil || unsafe.Pointer(p) == expunged || !e.p.CompareAndSwap(p, nil) {
		var zero V
		return zero, false
	}
	return *p, true
}''')],
 demo='''
package sync

import "testing"

// Nobody but the deleter removes the key, so every LoadAndDelete must find it.
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var m Map[int, int]
		m.Store(1, 0)
		m.Load(1)
		started, done := make(chan bool), make(chan bool)
		go func() {
			for j := 0; j == 0 || m.CompareAndSwap(1, j-1, j); j++ {
				if j == 3 {
					close(started)
				}
				if j > 1000000 {
					break
				}
			}
			close(done)
		}()
		<-started
		_, ok := m.LoadAndDelete(1)
		_, still := m.Load(1)
		m.Delete(1)
		if !ok || still {
			m.Range(func(k, v int) bool { m.Store(k, -1); return true })
			t.Fatal("present key not deleted", i, ok, still)
		}
		<-done
	}
}
''', needs="a write to the entry between the load and the compare-and-swap inside delete",
 breaks="LoadAndDelete reports absent and leaves the key although it was present all the time"),
dict(id="c02-range-recheck", prop="C02", pkg=S,
 edits=[(S+"/map.go", '''		m.mu.Lock()
		read = m.loadReadOnly()
		if read.amended {
			read = readOnly[K, V]{m: m.dirty}
			m.read.Store(&read)
			m.dirty = nil
			m.misses = 0
		}
		m.mu.Unlock()
''', '''		m.mu.Lock()
		read = readOnly[K, V]{m: m.dirty}
		m.read.Store(&read)
		m.dirty = nil
		m.misses = 0
		m.mu.Unlock()
''')],
 demo='''
package sync

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	var m Map[string, int]
	m.Store("a", 1)
	m.Load("a")
	m.Store("b", 2)
	m.mu.Lock()
	res := make(chan int)
	go func() {
		n := 0
		m.Range(func(string, int) bool { n++; return true })
		res <- n
	}()
	time.Sleep(100 * time.Millisecond)
	for m.dirty != nil {
		m.missLocked()
	}
	m.mu.Unlock()
	if n := <-res; n != 2 {
		t.Fatal("Range saw", n, "of 2 keys")
	}
}
''', needs="the dirty map promoted between Range's unlocked read and its taking of the lock",
 breaks="Range visits nothing and every key is lost"),
dict(id="c02-range-keepdirty", prop="C02", pkg=S, race=True,
 edits=[(S+"/map.go", '''			read = readOnly[K, V]{m: m.dirty}
			m.read.Store(&read)
			m.dirty = nil
			m.misses = 0
''', '''			read = readOnly[K, V]{m: m.dirty}
			m.read.Store(&read)
			m.misses = 0
''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		var m Map[int, int]
		for k := 0; k < 50; k++ {
			m.Store(k, k)
		}
		ready, done := make(chan bool), make(chan bool)
		go func() {
			<-ready
			for k := 100; k < 150; k++ {
				m.Store(k, k)
			}
			close(done)
		}()
		n := 0
		m.Range(func(k, v int) bool {
			if n++; n == 1 {
				close(ready)
			}
			return true
		})
		<-done
		if n < 50 {
			t.Fatal(n)
		}
	}
}
''', needs="a new key stored by another goroutine while Range runs its callbacks after promoting the dirty map",
 breaks="the map being iterated is written at the same time: data race, fatal concurrent map iteration and map write"),
dict(id="c03-workers-min", prop="C03", pkg=M,
 edits=[(M+"/mr.go", '''			opts.workers = minWorkers
''', '''			opts.workers = defaultWorkers
''')],
 demo='''
package mr

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	for _, w := range []int{0, -3} {
		var cur, max int32
		ForEach(func(source chan<- int) {
			for i := 0; i < 20; i++ {
				source <- i
			}
		}, func(int) {
			if c := atomic.AddInt32(&cur, 1); c > atomic.LoadInt32(&max) {
				atomic.StoreInt32(&max, c)
			}
			time.Sleep(2 * time.Millisecond)
			atomic.AddInt32(&cur, -1)
		}, WithWorkers(w))
		if max != 1 {
			t.Fatal("workers", w, "ran", max, "mappers at once")
		}
	}
}
''', needs="a worker option below 1", breaks="more than one mapper at a time"),
dict(id="c03-wg-add", prop="C03", pkg=M,
 edits=[(M+"/mr.go", '''			wg.Add(1)
			go func() {
				defer func() {
''', '''			go func() {
				wg.Add(1)
				defer func() {
''')],
 demo='''
package mr

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 30000; i++ {
		sum, err := MapReduce(func(source chan<- int) {
			source <- 1
			source <- 2
		}, func(v int, w Writer[int], cancel func(error)) {
			w.Write(v)
		}, func(pipe <-chan int, w Writer[int], cancel func(error)) {
			s := 0
			for v := range pipe {
				s += v
			}
			w.Write(s)
		}, WithWorkers(2))
		if sum != 3 || err != nil {
			t.Fatal(i, sum, err)
		}
	}
}
''', needs="the last mapper goroutine starting after the source is closed and wg.Wait has been reached",
 breaks="the last item is lost or its mapper panics sending on the closed collector"),
dict(id="c03-finish-workers", prop="C03", pkg=M,
 edits=[(M+"/mr.go", '''	}, func(pipe <-chan any, cancel func(error)) {},
		WithWorkers(len(fns)))
''', '''	}, func(pipe <-chan any, cancel func(error)) {})
''')],
 demo='''
package mr

import (
	"sync"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	const n = 20
	var wg sync.WaitGroup
	wg.Add(n)
	var fns []func() error
	for i := 0; i < n; i++ {
		fns = append(fns, func() error { wg.Done(); wg.Wait(); return nil })
	}
	done := make(chan error)
	go func() { done <- Finish(fns...) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("functions that wait for each other do not run in parallel")
	}
}
''', needs="Finish with more than 16 functions that wait for each other", breaks="Finish no longer runs all functions at once"),
dict(id="c04-drain-source", prop="C04", pkg=M,
 edits=[(M+"/mr.go", '''		close(mCtx.collector)
		drain(mCtx.source)
''', '''		close(mCtx.collector)
''')],
 demo='''
package mr

import (
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	func() {
		defer func() { recover() }()
		ForEach(func(source chan<- int) {
			for i := 0; i < 100; i++ {
				source <- i
			}
		}, func(i int) {
			if i == 3 {
				panic("boom")
			}
		}, WithWorkers(2))
		t.Error("no panic")
	}()
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		if !strings.Contains(string(buf[:runtime.Stack(buf, true)]), "buildSource") {
			return
		}
		if i > 50 {
			t.Fatal("generator goroutine leaked")
		}
		time.Sleep(20 * time.Millisecond)
	}
}
''', needs="a mapper panic while the generator still has items to send", breaks="the generator's goroutine is left behind for ever"),
dict(id="c04-once", prop="C04", pkg=M,
 edits=[(M+"/mr.go", '''		once.Do(func() {
			fn(err)
		})
''', '''		once.Do(func() {})
		fn(err)
''')],
 demo='''
package mr

import (
	"errors"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	first, second := errors.New("first"), errors.New("second")
	for i := 0; i < 200; i++ {
		err := MapReduceVoid(func(source chan<- int) {
			source <- 1
		}, func(v int, w Writer[int], cancel func(error)) {
			w.Write(1)
		}, func(pipe <-chan int, cancel func(error)) {
			c := make(chan bool)
			go func() {
				<-c
				cancel(second)
				c <- true
			}()
			for range pipe {
			}
			hold := func(err error) { cancel(err) }
			c <- true
			<-c
			hold(first)
		})
		if err != second {
			t.Fatal(i, err)
		}
		err = MapReduceVoid(func(source chan<- int) {
			source <- 1
			source <- 2
		}, func(v int, w Writer[int], cancel func(error)) {
			if v == 1 {
				cancel(first)
				cancel(second)
			}
		}, func(pipe <-chan int, cancel func(error)) {
			for range pipe {
			}
		}, WithWorkers(1))
		if err != first {
			t.Fatal(i, err)
		}
	}
}
''', needs="two cancels with different errors in one call", breaks="a later cancel's error replaces the first one's"),
dict(id="c05-compare", prop="C05", pkg=K,
 edits=[(K+"/errors.go", '''	if err != nil {
''', '''	if err != nil && err != ae.Load() {
''')],
 demo='''
package gconstraints

import "testing"

type listError []string

func (l listError) Error() string { return "list" }

func TestSeededDemo(t *testing.T) {
	var ae AtomicError
	ae.Set(listError{"a"})
	ae.Set(listError{"b"})
	if l, ok := ae.Load().(listError); !ok || l[0] != "b" {
		t.Fatal(ae.Load())
	}
}
''', needs="two errors of one type that cannot be compared", breaks="Set panics: comparing uncomparable type"),
]
