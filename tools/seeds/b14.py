MR = "gogenerics/gconcurrent/mr"
CX = "library/cachex"
SEEDS = [
dict(id="c03-source-buffer", prop="C03", pkg=MR,
 edits=[(MR+"/mr.go", '''	source := make(chan T)
''', '''	// keep the generator from waiting for the mappers
	source := make(chan T, 1024)
''')],
 demo='''
package mr

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	var generated, mapped, lead atomic.Int64
	ForEach(func(source chan<- int) {
		for i := 0; i < 1000; i++ {
			source <- i
			if d := generated.Add(1) - mapped.Load(); d > lead.Load() {
				lead.Store(d)
			}
		}
	}, func(int) {
		mapped.Add(1)
		time.Sleep(time.Millisecond)
	}, WithWorkers(2))
	if lead.Load() > 100 {
		t.Fatalf("%d items were waiting for 2 workers", lead.Load())
	}
}
''', needs="a stream of many items with mappers slower than the generator", breaks="the call gathers a thousand items whatever the number of workers"),
dict(id="c03-nil-value", prop="C03", pkg=MR,
 edits=[(MR+"/mr.go", '''func (gw guardedWriter[T]) Write(v T) {
	select {
''', '''func (gw guardedWriter[T]) Write(item T) {
	v := item
	if any(v) == nil && cap(gw.channel) > 0 {
		return // nothing to hand over, unless it is the result
	}
	select {
''')],
 demo='''
package mr

import "testing"

func TestSeededDemo(t *testing.T) {
	n, err := MapReduce(func(source chan<- int) {
		for i := 0; i < 10; i++ {
			source <- i
		}
	}, func(i int, w Writer[error], _ func(error)) {
		w.Write(nil)
	}, func(pipe <-chan error, w Writer[int], _ func(error)) {
		n := 0
		for range pipe {
			n++
		}
		w.Write(n)
	})
	if n != 10 || err != nil {
		t.Fatalf("%d values reduced, %v", n, err)
	}
}
''', needs="mappers that write nil interface values", breaks="values that are nil interfaces never reach the reducer"),
dict(id="c10-fill-context", prop="C10", pkg=CX,
 edits=[(CX+"/cache.go", '''	for _, item := range caches {
		_ = item.Cache.MSet(ctx, kvs, item.TTL)
	}
''', '''	for _, item := range caches {
		// the answer is there, filling must not be given up half way
		_ = item.Cache.MSet(context.Background(), kvs, item.TTL)
	}
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

type seededLevel struct {
	Cache[string, int]
	lost int
}

type seededKey struct{}

func (l *seededLevel) MSet(ctx context.Context, kvs map[string]int, ttl time.Duration) error {
	if ctx.Value(seededKey{}) == nil {
		l.lost++
	}
	return l.Cache.MSet(ctx, kvs, ttl)
}

func TestSeededDemo(t *testing.T) {
	ctx := context.WithValue(context.Background(), seededKey{}, 1)
	top := &seededLevel{Cache: NewLRUCacheV2[string, int](10, 0)}
	low := NewLRUCacheV2[string, int](10, 0)
	ch := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: top, TTL: time.Hour}, {Cache: low, TTL: time.Hour}}}
	low.Set(ctx, "a", 1, time.Hour)
	ch.MGet(ctx, "a", "b")
	if top.lost > 0 {
		t.Fatal("the upper level was filled without the caller's context")
	}
}
''', needs="a level that looks at the context it is called with, filled by a batch read", breaks="fills of batch reads do not carry the caller's context"),
]
