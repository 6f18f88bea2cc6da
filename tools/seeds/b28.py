TIMES = '''
func perCall(n int, f func(n int) func(i int)) time.Duration {
	best := time.Hour
	for r := 0; r < 5; r++ {
		call := f(n)
		start := time.Now()
		for i := 0; i < 2000; i++ {
			call(i)
		}
		if d := time.Since(start); d < best {
			best = d
		}
	}
	return best / 2000
}
'''
SEEDS = [
dict(id="c38-heap-grow", prop="C38", pkg="gogenerics/gcontainers/gheap",
 edits=[("gogenerics/gcontainers/gheap/heap.go", '''	x := &h.data
	(*x) = append((*x), v)
	siftUp''', '''	x := &h.data
	if len(*x) == cap(*x) {
		// grow a little only, heaps tend to be many
		grown := make([]T, len(*x), len(*x)+16)
		copy(grown, *x)
		*x = grown
	}
	(*x) = append((*x), v)
	siftUp'''), ("gogenerics/gcontainers/gheap/heap.go", '''	siftUp(*x, len(*x)-1, h.less)
	h.data = (*x)
''', '''	siftUp(*x, len(*x)-1, h.less)
''')],
 demo='''
package gheap

import (
	"testing"
	"time"
)
''' + TIMES + '''
func TestSeededDemo(t *testing.T) {
	if d := perCall(300000, func(n int) func(int) {
		h := NewWithData(make([]int, n), func(a, b int) bool { return a < b })
		return func(i int) { Push(h, 5) }
	}); d > 3*time.Microsecond {
		t.Fatal(d)
	}
}
''', needs="many pushes on a large heap", breaks="every sixteenth Push copies the whole heap"),

dict(id="c38-store-dir", prop="C38", pkg="library/cachex",
 edits=[("library/cachex/file.go", '''	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''', '''	dir := filepath.Dir(fp)
	// a file in place of a directory would show up here
	if _, err = os.ReadDir(f.Dir); err == nil {
		_, err = os.Stat(dir)
	}
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, int]{Dir: t.TempDir()}
	run := func() time.Duration {
		best := time.Hour
		for r := 0; r < 10; r++ {
			start := time.Now()
			for i := 0; i < 10; i++ {
				_ = f.Set(context.Background(), 1, 1, time.Hour)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	small := run()
	for i := 0; i < 4000; i++ {
		_ = f.Set(context.Background(), i, 1, time.Hour)
	}
	if large := run(); large > 10*small {
		t.Fatal(small, large)
	}
}
''', needs="a directory with many entries", breaks="every Set reads the listing of the whole directory"),

dict(id="c38-queue-shift", prop="C38", pkg="gogenerics/gcontainers/gqueue",
 edits=[("gogenerics/gcontainers/gqueue/fifo.go", '''	list   *glist.List[T]
	length int
}
''', '''	list   *glist.List[T]
	ahead  []T // the first elements, taken off the list in one go
	length int
}
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	val := q.list.Front().Value
	q.list.Remove(q.list.Front())
	q.length--
	return val, nil
''', '''	q.take()
	val := q.ahead[0]
	n := copy(q.ahead, q.ahead[1:])
	q.ahead[n] = gconstraints.Empty[T]()
	q.ahead = q.ahead[:n]
	q.length--
	return val, nil
}

func (q *Queue[T]) take() {
	if len(q.ahead) > 0 {
		return
	}
	for e := q.list.Front(); e != nil; e = q.list.Front() {
		q.ahead = append(q.ahead, e.Value)
		q.list.Remove(e)
	}
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	return q.list.Front().Value, nil
''', '''	q.take()
	return q.ahead[0], nil
'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	var idx int
	q.list''', '''	idx := copy(res, q.ahead)
	q.list'''), ("gogenerics/gcontainers/gqueue/fifo.go", '''	q.list = glist.New[T]()
	q.length = 0
}
''', '''	q.list = glist.New[T]()
	q.ahead = nil
	q.length = 0
}
''')],
 demo='''
package gqueue

import (
	"testing"
	"time"
)
''' + TIMES + '''
func TestSeededDemo(t *testing.T) {
	if d := perCall(200000, func(n int) func(int) {
		q := New[int]()
		for i := 0; i < n; i++ {
			_ = q.Push(i)
		}
		_, _ = q.Pop()
		return func(i int) { _ = q.Push(i); _, _ = q.Pop() }
	}); d > 10*time.Microsecond {
		t.Fatal(d)
	}
}
''', needs="popping from a queue of many thousand elements", breaks="every Pop moves all elements"),

dict(id="c36-key-index", prop="C36", pkg="gogenerics/gds/gskiplist",
 edits=[("gogenerics/gds/gskiplist/skiplist.go", '''	maxNewLevel  int
	maxLevel     int
	elementCount int
}
''', '''	maxNewLevel  int
	maxLevel     int
	elementCount int
	recent       []*SkipListElement[K, V] // the latest elements first
}
'''), ("gogenerics/gds/gskiplist/skiplist.go", '''	t.elementCount++

	newFirst''', '''	t.elementCount = 1 + t.elementCount
	t.recent = append(t.recent, nil)
	copy(t.recent[1:], t.recent)
	t.recent[0] = elem

	newFirst'''), ("gogenerics/gds/gskiplist/skiplist.go", '''				t.elementCount--
''', '''				t.elementCount--
				if t.recent[0] == nextNode {
					t.recent = t.recent[1:]
				} else if t.elementCount == 0 {
					t.recent = nil
				}
''')],
 demo='''
package gskiplist

import (
	"testing"
	"time"
)
''' + TIMES + '''
func TestSeededDemo(t *testing.T) {
	if d := perCall(100000, func(n int) func(int) {
		l := New[int, int]()
		for i := 0; i < n/10; i++ {
			l.Insert(i, i)
		}
		l.recent = append(l.recent, make([]*SkipListElement[int, int], 9*n/10)...)
		return func(i int) { l.Insert(n+i, i) }
	}); d > 10*time.Microsecond {
		t.Fatal(d)
	}
}
''', needs="insertions into a large list", breaks="every insertion moves as many pointers as there are entries"),

dict(id="c34-array-view", prop="C34", pkg="hack/unsafex",
 edits=[("hack/unsafex/str20.go", '''	return unsafe.Slice(unsafe.StringData(s), len(s))
''', '''	if len(s) == 0 {
		return nil
	}
	return (*[1 << 20]byte)(unsafe.Pointer(unsafe.StringData(s)))[:len(s):len(s)]
''')],
 demo='''
package unsafex

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s := strings.Repeat("x", 1<<20+1)
	if len(StringToSlice(s)) != len(s) {
		t.Fatal()
	}
}
''', needs="a string of more than a megabyte", breaks="the conversion panics"),

dict(id="c33-lanes", prop="C33", pkg="gogenerics/gnumerics",
 edits=[("gogenerics/gnumerics/math.go", '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if cmp(c, maxC) {
			maxC = c
		}
	}
	return maxC
''', '''	maxC = collection[0]
	if l > 32 {
		// two at a time
		other := collection[1]
		for i := 2; i+1 < l; i += 2 {
			if cmp(collection[i], maxC) {
				maxC = collection[i]
			}
			if cmp(collection[i+1], other) {
				other = collection[i+1]
			}
		}
		if l%2 == 1 && cmp(collection[l-1], maxC) {
			maxC = collection[l-1]
		}
		if cmp(other, maxC) {
			maxC = other
		}
		return maxC
	}
	for _, c := range collection[1:] {
		if cmp(c, maxC) {
			maxC = c
		}
	}
	return maxC
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	type p struct{ key, at int }
	ps := make([]p, 40)
	for i := range ps {
		ps[i] = p{0, i}
	}
	ps[7].key, ps[20].key = 9, 9
	if got := MaxBy(ps, func(a, b p) bool { return a.key > b.key }); got.at != 7 {
		t.Fatal(got)
	}
}
''', needs="more than 32 elements, the extreme one first at an odd place and again at an even one", breaks="a later one of the equivalent extreme elements is returned"),

dict(id="c04-panic-order", prop="C04", pkg="gogenerics/gconcurrent/mr",
 edits=[("gogenerics/gconcurrent/mr/mr.go", '''		case v := <-panicChan.channel:
			panic(v)
		case _, ok := <-collector:
			if !ok {
				// a panic is recorded before its goroutine counts as finished
				panicChan.rethrow()
				return
			}
		}
''', '''		case v := <-panicChan.channel:
			panic(v)
		case _, ok := <-collector:
			if !ok {
				return
			}
		}
'''.replace("case _, ok := <-collector:\n\t\t\tif !ok {", "case _, more := <-collector:\n\t\t\tif !more {"))],
 demo='''
package mr

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		func() {
			defer func() {
				if recover() == nil {
					t.Fatal("the panic got lost", i)
				}
			}()
			ForEach(func(source chan<- int) { source <- 1 }, func(int) { panic(1) })
		}()
	}
}
''', needs="a panic of the last mapper", breaks="ForEach returns as if nothing had happened"),
]
