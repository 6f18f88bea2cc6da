From 0cc2dc2b2329c1255d4982de39c9249176654347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 01/33] fix: Map.CompareAndSwap and CompareAndDelete must
 compare with the old value

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From 49808ed11b87a9b28b3d5d5c1490e6077606dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/33] fix: Map must not convert the expunged marker to a
 pointer to a larger type

---
 gogenerics/gconcurrent/sync/map.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 91c1596..dabf528 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -77,6 +77,29 @@ type readOnly[K comparable, V any] struct {
 
 var expunged = unsafe.Pointer(new(any))
 
+// asPointer reinterprets p, which may be expunged, as a *V. A conversion would
+// be invalid for expunged (and abort under checkptr) when V is larger than any.
+func asPointer[V any](p unsafe.Pointer) *V {
+	return *(**V)(unsafe.Pointer(&p))
+}
+
+// A pointer is like an atomic.Pointer[V] that may also hold expunged.
+type pointer[V any] struct {
+	p unsafe.Pointer
+}
+
+func (x *pointer[V]) Load() *V { return asPointer[V](atomic.LoadPointer(&x.p)) }
+
+func (x *pointer[V]) Store(v *V) { atomic.StorePointer(&x.p, unsafe.Pointer(v)) }
+
+func (x *pointer[V]) Swap(v *V) *V {
+	return asPointer[V](atomic.SwapPointer(&x.p, unsafe.Pointer(v)))
+}
+
+func (x *pointer[V]) CompareAndSwap(old, new *V) bool {
+	return atomic.CompareAndSwapPointer(&x.p, unsafe.Pointer(old), unsafe.Pointer(new))
+}
+
 // An entry is a slot in the map corresponding to a particular key.
 
 type entry[V any] struct {
@@ -99,7 +122,7 @@ type entry[V any] struct {
 	// p != expunged. If unsafe.Pointer(p) == expunged, an entry's associated value can be updated
 	// only after first setting m.dirty[key] = e so that lookups using the dirty
 	// map find the entry.
-	p atomic.Pointer[V]
+	p pointer[V]
 }
 
 func newEntry[V any](i V) *entry[V] {
@@ -190,7 +213,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 // If the entry was previously expunged, it must be added to the dirty map
 // before m.mu is unlocked.
 func (e *entry[V]) unexpungeLocked() (wasExpunged bool) {
-	return e.p.CompareAndSwap((*V)(expunged), nil)
+	return e.p.CompareAndSwap(asPointer[V](expunged), nil)
 }
 
 // swapLocked unconditionally swaps a value into the entry.
@@ -515,7 +538,7 @@ func (m *Map[K, V]) dirtyLocked() {
 func (e *entry[V]) tryExpungeLocked() (isExpunged bool) {
 	p := e.p.Load()
 	for p == nil {
-		if e.p.CompareAndSwap(nil, (*V)(expunged)) {
+		if e.p.CompareAndSwap(nil, asPointer[V](expunged)) {
 			return true
 		}
 		p = e.p.Load()
-- 
2.43.0


From c22aa171c1656ed3f1b55306bff49e18d027547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 03/33] fix: mapreduce must not lose panics, leak goroutines or
 send on its closed output

Recording a panic blocked for ever when nobody was waiting for it (panic
after cancel, or after the reducer wrote early), a cancel racing with the
reducer's write made it send on a closed channel, and a reducer writing more
than twice left its goroutine behind.
---
 gogenerics/gconcurrent/mr/mr.go | 85 ++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..eab3886 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,6 +127,8 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
+				// a panic is recorded before its goroutine counts as finished
+				panicChan.rethrow()
 				return
 			}
 		}
@@ -137,7 +139,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +147,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -153,14 +155,9 @@ func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reduce
 func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, mapper MapperFunc[T, U],
 	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
-	// output is used to write the final result
+	// output is used to write the final result, it's never closed,
+	// because cancel may end the processing while the reducer is writing
 	output := make(chan V)
-	defer func() {
-		// reducer can only write once, if more, panic
-		for range output {
-			panic("more than one element written in reducer")
-		}
-	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
@@ -173,7 +170,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
 	cancel := once(func(err error) {
@@ -211,25 +207,38 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		workers:   options.workers,
 	})
 
-	select {
-	case <-options.ctx.Done():
-		cancel(context.DeadlineExceeded)
-		err = context.DeadlineExceeded
-	case v := <-panicChan.channel:
-		// drain output here, otherwise for loop panic in defer
-		drain(output)
-		panic(v)
-	case v, ok := <-output:
+	var wrote int
+	for {
+		select {
+		case <-options.ctx.Done():
+			cancel(context.DeadlineExceeded)
+			return *new(V), context.DeadlineExceeded
+		case v := <-output:
+			if wrote++; wrote == 1 {
+				val = v
+			}
+			continue
+		case <-done:
+		}
+
+		// panics are recorded before the processing is finished
+		panicChan.rethrow()
 		if e := retErr.Load(); e != nil {
-			err = e
-		} else if ok {
-			val = v
-		} else {
-			err = ErrReduceNoOutput
+			return *new(V), e
+		}
+		if options.ctx.Err() != nil {
+			return *new(V), context.DeadlineExceeded
+		}
+		switch wrote {
+		case 0:
+			return val, ErrReduceNoOutput
+		case 1:
+			return val, nil
+		default:
+			// reducer can only write once, if more, panic
+			panic("more than one element written in reducer")
 		}
 	}
-
-	return
 }
 
 // MapReduceVoid maps all elements generated from given generate,
@@ -375,17 +384,37 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.ctx.Done():
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
+// onceChan keeps the first panic, its channel has room for it,
+// so that nobody has to be waiting for the panic to be recorded.
 type onceChan struct {
 	channel chan any
 	wrote   int32
 }
 
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
+}
+
 func (oc *onceChan) write(val any) {
 	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
 		oc.channel <- val
 	}
 }
+
+// rethrow panics with the recorded panic, if there is one.
+func (oc *onceChan) rethrow() {
+	select {
+	case v := <-oc.channel:
+		panic(v)
+	default:
+	}
+}
-- 
2.43.0


From 341abadc5169a9e9c0daf81d275c5b75f6500fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 04/33] fix: Finish and MapReduceVoid must report a cancelling
 ErrReduceNoOutput

They took the error of a failing function for their own missing output and
returned nil.
---
 gogenerics/gconcurrent/mr/mr.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index eab3886..cc5ef5d 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -247,10 +247,9 @@ func MapReduceVoid[T, U any](generate GenerateFunc[T], mapper MapperFunc[T, U],
 	reducer VoidReducerFunc[U], opts ...Option) error {
 	_, err := MapReduce(generate, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
 		reducer(input, cancel)
+		// an ErrReduceNoOutput can then only come from cancel
+		writer.Write(nil)
 	}, opts...)
-	if errors.Is(err, ErrReduceNoOutput) {
-		return nil
-	}
 
 	return err
 }
-- 
2.43.0


From 525e2f6151ae39a2419884fc0db33887d13f99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 05/33] fix: AtomicError.Set must accept errors of different
 types

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..6eb53ca 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorBox
+}
+
+// errorBox holds an error, because an atomic.Value can only store values of one type.
+type errorBox struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorBox{err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorBox).err
 	}
 	return nil
 }
-- 
2.43.0


From f1b10c668b44990a4532a72cfa58b68b12c86406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 06/33] fix: LRUCacheV2.MGet must hold the lock

---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 664489cf02eb717b3150f1302497946e55d58327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 07/33] fix: FileStore must not use one file for different keys
 that print alike

---
 library/cachex/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..4a7b68f 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -41,7 +41,9 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
+	// different keys may print alike, for example structs with string fields,
+	// or values of different types in an interface
+	str := fmt.Sprintf("%T:%#v", key, key)
 	h := md5.New()
 	h.Write([]byte(str))
 	s := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From c666ed7597fe4b7150bf768f470d2d4eaf11b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 08/33] fix: FileStore.Set must not expire an entry with a very
 long ttl at once

---
 library/cachex/file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 4a7b68f..a91225f 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -101,7 +102,7 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  expireAt(ttl),
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
@@ -115,6 +116,15 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	return os.WriteFile(fp, content, 0666)
 }
 
+// expireAt returns the time in nanoseconds at which an entry written now expires.
+func expireAt(ttl time.Duration) int64 {
+	now := time.Now().UnixNano()
+	if int64(ttl) > math.MaxInt64-now {
+		return math.MaxInt64
+	}
+	return now + int64(ttl)
+}
+
 // MGet Batch read the content from the cache
 //
 // Return values:
-- 
2.43.0


From 7c7f613315d5bc6dc01fcefe66e8b2e4e94086f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 09/33] fix: FileStore must not panic on a cache file
 containing null

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index a91225f..d2819bb 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -74,7 +74,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		return emp, false, err
 	}
 	item := &fileCacheItem[K, V]{}
-	err = json.Unmarshal(content, &item)
+	err = json.Unmarshal(content, item)
 	if err != nil {
 		_ = os.Remove(fp)
 		var emp V
-- 
2.43.0


From e87933d163764b2e500ed326cbae8786d1effd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 10/33] fix: FileStore clean-up and Purge must only remove
 cache files

The clean-up removed every file below Dir that it could not parse, and Purge
tried to remove a Dir whose own name ends in .cache and failed.
---
 library/cachex/file.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index d2819bb..d9768de 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -52,6 +52,29 @@ func (f *FileStore[K, V]) getFilePath(key K) string {
 	return fp + cacheFileExt
 }
 
+// isCacheFile reports whether path is laid out like a file written by Set,
+// Dir may contain other files.
+func (f *FileStore[K, V]) isCacheFile(path string) bool {
+	rel, err := filepath.Rel(f.Dir, path)
+	if err != nil || !strings.HasSuffix(rel, cacheFileExt) {
+		return false
+	}
+	parts := strings.Split(strings.TrimSuffix(rel, cacheFileExt), string(filepath.Separator))
+	if len(parts) != 6 {
+		return false
+	}
+	for i, part := range parts {
+		want := 3
+		if i == 5 {
+			want = 16
+		}
+		if len(part) != want || strings.Trim(part, "0123456789abcdef") != "" {
+			return false
+		}
+	}
+	return true
+}
+
 // Get Read the content from the cache
 // Return values:
 //
@@ -233,7 +256,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !f.isCacheFile(path) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
@@ -249,12 +272,12 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
-			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
-				errTotal++
-				lastErr = e
-			}
+		if err != nil || d.IsDir() || !f.isCacheFile(path) {
+			return nil
+		}
+		if e := os.Remove(path); e != nil && !os.IsNotExist(e) {
+			errTotal++
+			lastErr = e
 		}
 		return nil
 	})
-- 
2.43.0


From e9a4e0fcbe37925d8a74cb417a75965d3573df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 11/33] fix: FileStore must not read half-written files nor
 remove fresh ones

A Get running during a Set of the same key could see a truncated file, report
an error and remove it, and a Get or clean-up that had found an entry expired
could remove the one written by a Set in between.
---
 library/cachex/file.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index d9768de..83f51b0 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -37,6 +38,10 @@ type FileStore[K comparable, V any] struct {
 	// Every GCCycle duration, when calling Set, Get, and other interfaces, a background goroutine is started to scan files and delete expired cache files.
 	GCCycle time.Duration
 
+	// mu keeps readers from seeing half-written files, and makes sure that the
+	// file which is removed is the one which was found expired or damaged
+	mu sync.RWMutex
+
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
 }
@@ -88,27 +93,44 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mu.RLock()
+	value, ok, dead, err := f.tryReadFile(fp)
+	f.mu.RUnlock()
+	if !dead {
+		return value, ok, err
+	}
+
+	// read again, the file may have been rewritten meanwhile
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	value, ok, dead, err = f.tryReadFile(fp)
+	if dead {
+		_ = os.Remove(fp)
+	}
+	return value, ok, err
+}
+
+// tryReadFile reads a file, dead tells that it is expired or damaged.
+func (f *FileStore[K, V]) tryReadFile(fp string) (value V, ok, dead bool, err error) {
 	content, err := os.ReadFile(fp)
 	if err != nil {
 		var emp V
 		if os.IsNotExist(err) {
-			return emp, false, nil
+			return emp, false, false, nil
 		}
-		return emp, false, err
+		return emp, false, false, err
 	}
 	item := &fileCacheItem[K, V]{}
 	err = json.Unmarshal(content, item)
 	if err != nil {
-		_ = os.Remove(fp)
 		var emp V
-		return emp, false, err
+		return emp, false, true, err
 	}
 	if item.Alive() {
-		return item.Data, true, nil
+		return item.Data, true, false, nil
 	}
-	_ = os.Remove(fp)
 	var emp V
-	return emp, false, err
+	return emp, false, true, nil
 }
 
 var errDirEmpty = errors.New("cache Dir is empty")
@@ -131,6 +153,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil {
 		return err
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	dir := filepath.Dir(fp)
 	_, err = os.Stat(dir)
 	if err != nil && os.IsNotExist(err) {
@@ -207,7 +231,9 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 	var errs []error
 	for _, k := range keys {
 		fp := f.getFilePath(k)
+		f.mu.Lock()
 		err := os.Remove(fp)
+		f.mu.Unlock()
 		if err == nil || os.IsNotExist(err) {
 			continue
 		}
@@ -269,6 +295,8 @@ func (f *FileStore[K, V]) Purge() error {
 	if f.Dir == "" {
 		return errDirEmpty
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-- 
2.43.0


From 4fe449d52f6df5d5adf7471a0814883532395558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 12/33] fix: Chain.MGet must fill every position of a repeated
 key

---
 library/cachex/cache.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..57a6512 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,10 +157,16 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
+	// a key may be requested more than once, each level is asked for it only once
+	indexMap := make(map[K][]int, length)
+	uniqKeys := make([]K, 0, length)
 	for i, k := range keys {
-		indexMap[k] = i
+		if _, ok := indexMap[k]; !ok {
+			uniqKeys = append(uniqKeys, k)
+		}
+		indexMap[k] = append(indexMap[k], i)
 	}
+	keys = uniqKeys
 	values := make([]V, length)
 	status := make([]bool, length)
 	var err error
@@ -176,9 +182,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		}
 		for j := 0; j < len(oks); j++ {
 			if oks[j] {
-				keyIndex := indexMap[keys[j]]
-				values[keyIndex] = vals[j]
-				status[keyIndex] = true
+				for _, keyIndex := range indexMap[keys[j]] {
+					values[keyIndex] = vals[j]
+					status[keyIndex] = true
+				}
 			}
 		}
 		// Set the content queried from the next-level cache to the upper-level cache
-- 
2.43.0


From a93ddd9be0b14493c8d833d6952977916b447997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 13/33] fix: BitSet.Count and Sub must return the bits from
 start to end

Both panicked when start and end lie in one byte, Sub shifted the bits of the
following bytes by one too few and lost a last bit.
---
 library/bitset/bitset.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..427b7ed 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi) << sbi)
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
@@ -349,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, last<<sbi)
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
-	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From e41747eef8f08bd60c97bc4894c97c4932cb2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 14/33] fix: combining bit sets must not deadlock with
 concurrent writers

---
 library/bitset/bitset.go | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 427b7ed..dae05ce 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -187,21 +187,17 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	first, others := b.Bytes(), snapshots(bitSets)
 	var (
-		maxLen  = len(b.set)
+		maxLen  = len(first)
 		minLen  = maxLen
 		currLen int
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
-		currLen = len(g.set)
+	for _, g := range others {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		} else if currLen < minLen {
@@ -212,14 +208,24 @@ func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
 		set: make([]byte, maxLen),
 	}
 	for i := range rBitSet.set[:minLen] {
-		rBitSet.set[i] = b.set[i]
-		for _, g := range bitSets {
-			rBitSet.set[i] &= g.set[i]
+		rBitSet.set[i] = first[i]
+		for _, g := range others {
+			rBitSet.set[i] &= g[i]
 		}
 	}
 	return rBitSet
 }
 
+// snapshots returns copies of the bytes of all the bit sets, taking one lock
+// at a time: holding several, or one twice, can deadlock with pending writers.
+func snapshots(bitSets []*BitSet) [][]byte {
+	sets := make([][]byte, len(bitSets))
+	for i, g := range bitSets {
+		sets[i] = g.Bytes()
+	}
+	return sets
+}
+
 // Or returns all the "OR" bit sets.
 // NOTE:
 //
@@ -248,15 +254,12 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	first, others := b.Bytes(), snapshots(bitSets)
 	var (
-		maxLen, currLen = len(b.set), 0
+		maxLen, currLen = len(first), 0
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-		currLen = len(g.set)
+	for _, g := range others {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		}
@@ -264,9 +267,9 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	rBitSet := &BitSet{
 		set: make([]byte, maxLen),
 	}
-	copy(rBitSet.set, b.set)
-	for _, g := range bitSets {
-		for i, gb := range g.set {
+	copy(rBitSet.set, first)
+	for _, g := range others {
+		for i, gb := range g {
 			switch op {
 			case "|":
 				rBitSet.set[i] = rBitSet.set[i] | gb
-- 
2.43.0


From 772d51e45a4fa6d9175db21d40dd2e2860047549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 15/33] fix: gmap.Equal must compare with the second map

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From a0b97258a828ffaea600f822c3da5173dea56231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 16/33] fix: gslice.Merge must not write into the capacity of
 its first argument

---
 gogenerics/gcontainers/gslice/slice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..91a0b7e 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,9 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	// not append(s1, s2...), which may write into the spare capacity of s1
+	res := make([]T, 0, len(s1)+len(s2))
+	return append(append(res, s1...), s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From d62130161750edf04396cbeca4e31cdd9371665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 17/33] fix: gmap.Clear and gset.Clear must also remove NaN
 keys

---
 gogenerics/gcontainers/gmap/clear.go   | 12 ++++++++++++
 gogenerics/gcontainers/gmap/clear21.go |  9 +++++++++
 gogenerics/gcontainers/gmap/map.go     |  4 +---
 gogenerics/gcontainers/gset/set.go     |  6 +++---
 4 files changed, 25 insertions(+), 6 deletions(-)
 create mode 100644 gogenerics/gcontainers/gmap/clear.go
 create mode 100644 gogenerics/gcontainers/gmap/clear21.go

diff --git a/gogenerics/gcontainers/gmap/clear.go b/gogenerics/gcontainers/gmap/clear.go
new file mode 100644
index 0000000..101fa62
--- /dev/null
+++ b/gogenerics/gcontainers/gmap/clear.go
@@ -0,0 +1,12 @@
+//go:build !go1.21
+// +build !go1.21
+
+package gmap
+
+// clearMap removes all the elements from m, except those with a key that is
+// not equal to itself (NaN), which cannot be deleted one by one
+func clearMap[K comparable, V any](m map[K]V) {
+	for k := range m {
+		delete(m, k)
+	}
+}
diff --git a/gogenerics/gcontainers/gmap/clear21.go b/gogenerics/gcontainers/gmap/clear21.go
new file mode 100644
index 0000000..90ba55e
--- /dev/null
+++ b/gogenerics/gcontainers/gmap/clear21.go
@@ -0,0 +1,9 @@
+//go:build go1.21
+// +build go1.21
+
+package gmap
+
+// clearMap removes all the elements from m
+func clearMap[K comparable, V any](m map[K]V) {
+	clear(m)
+}
diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index 24f99c8..ccf9cd9 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -46,9 +46,7 @@ func Contains[K comparable, V any](m map[K]V, e K) bool {
 
 // Clear removes all the elements from this map
 func Clear[K comparable, V any](m map[K]V) {
-	for k := range m {
-		delete(m, k)
-	}
+	clearMap(m)
 }
 
 // Map2Entries transforms a map into slice of key-value pairs
diff --git a/gogenerics/gcontainers/gset/set.go b/gogenerics/gcontainers/gset/set.go
index 7d9a0bf..ce50500 100644
--- a/gogenerics/gcontainers/gset/set.go
+++ b/gogenerics/gcontainers/gset/set.go
@@ -1,5 +1,7 @@
 package gset
 
+import "github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
+
 // Set is the hashset datastructure
 type Set[T comparable] map[T]struct{}
 
@@ -54,7 +56,5 @@ func Items[T comparable](s Set[T]) []T {
 
 // Clear removes all the elements from this set
 func Clear[T comparable](s Set[T]) {
-	for k := range s {
-		delete(s, k)
-	}
+	gmap.Clear(s)
 }
-- 
2.43.0


From 436225a81ba13374c3949e27fbb668f2003c2d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 18/33] fix: AES encryption must not write its padding into the
 caller's array

---
 library/cryptox/cryptox.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..8dd9d34 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,10 +203,13 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// copy, the spare capacity of plainText belongs to the caller
+	padded := make([]byte, len(plainText), len(plainText)+int(n))
+	copy(padded, plainText)
 	for i := byte(0); i < n; i++ {
-		plainText = append(plainText, n)
+		padded = append(padded, n)
 	}
-	return plainText
+	return padded
 }
 
 func pkcs5Unpadding(r []byte) ([]byte, error) {
-- 
2.43.0


From 79c6b2aad6170b9f04d992ee085a788b88e34800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 19/33] fix: AESDecrypt must not panic on a partial block

---
 library/cryptox/cryptox.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 8dd9d34..9a806b2 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From ce5428eed02b0b094e694dcfe3b8ad601ef6d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 20/33] fix: AES decryption must refuse padding of 0 or more
 than a block

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 9a806b2..9270e8c 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -222,7 +222,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || last > l {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 5ba61734edadef30057608445eefa7a5654db9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 21/33] fix: HTMLEntityToUTF8 must not decode an entity as a
 shorter one

---
 library/stringx/stringx.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..d187bd5 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -192,18 +192,13 @@ var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)
 // e.g.: HTMLEntityToUTF8(`{"info":[["color","&#5496;&#5561;&#8272;&#7c;&#7eff;&#8272;"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func HTMLEntityToUTF8(str string, base int) string {
-	a := htmlEntityRegexp.FindAllStringSubmatch(str, -1)
-	if len(a) == 0 {
-		return str
-	}
-	oldnew := make([]string, 0, len(a)*2)
-	for _, s := range a {
-		if i, err := strconv.ParseInt(s[1], base, 32); err == nil {
-			oldnew = append(oldnew, s[0], string(rune(i)))
+	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
+		i, err := strconv.ParseInt(strings.TrimRight(s[len("&#"):], ";"), base, 32)
+		if err != nil {
+			return s
 		}
-	}
-	r := strings.NewReplacer(oldnew...)
-	return r.Replace(str)
+		return string(rune(i))
+	})
 }
 
 // CodePointToUTF8 converts Unicode Code Point to UTF-8.
-- 
2.43.0


From 0003c3e1ce6ada089088db5413a7c84d99ee66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 22/33] fix: CodePointToUTF8 must decode every code and nothing
 else

---
 library/stringx/stringx.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index d187bd5..d941ac3 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -205,19 +205,21 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
-	}
 	strSlice := strings.Split(str, `\u`)
-	last := len(strSlice) - 1
-	if len(strSlice[last]) > 4 {
-		strSlice = append(strSlice, string(strSlice[last][4:]))
-		strSlice[last] = string(strSlice[last][:4])
-	}
-	for ; i <= last; i++ {
-		if x, err := strconv.ParseInt(strSlice[i], base, 32); err == nil {
-			strSlice[i] = string(rune(x))
+	for i, s := range strSlice {
+		if i == 0 {
+			continue
+		}
+		strSlice[i] = `\u` + s
+		// the code is the longest number of up to 4 digits
+		for n := 4; n > 0; n-- {
+			if n > len(s) {
+				continue
+			}
+			if x, err := strconv.ParseUint(s[:n], base, 31); err == nil {
+				strSlice[i] = string(rune(x)) + s[n:]
+				break
+			}
 		}
 	}
 	return strings.Join(strSlice, "")
-- 
2.43.0


From 4607c8755c7bf19d4872def677432ab8d3a3d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 23/33] fix: fastrand.Uint and Uintn must link with newer
 runtimes

---
 hack/fastrand/runtime19.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..7076d92 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,7 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu does not use runtime.fastrandu, which newer runtimes do not have.
+func runtimefastrandu() uint {
+	return uint(runtimefastrand64())
+}
-- 
2.43.0


From a86eb92ac76cee636bd74babb6519585d708d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 24/33] fix: Pool.Get must not panic on nil values of interface
 types

---
 gogenerics/gcontainers/gpool/syncpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gpool/syncpool.go b/gogenerics/gcontainers/gpool/syncpool.go
index 2cb4561..237828d 100644
--- a/gogenerics/gcontainers/gpool/syncpool.go
+++ b/gogenerics/gcontainers/gpool/syncpool.go
@@ -21,7 +21,9 @@ func New[T any](fn func() T) Pool[T] {
 
 // Get is a generic wrapper around sync.Pool's Get method.
 func (p *Pool[T]) Get() T {
-	return p.pool.Get().(T)
+	// a nil value of an interface type has no dynamic type to assert
+	x, _ := p.pool.Get().(T)
+	return x
 }
 
 // Put is a generic wrapper around sync.Pool's Put method.
-- 
2.43.0


From 87ef41478b4c8e85db3cbaf29c6da0733a1d52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 25/33] fix: release popped heap elements

Pop left a copy of the last element in the slot behind the heap, so an
element stayed reachable after it had been popped.
---
 gogenerics/gcontainers/gheap/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gheap/heap.go b/gogenerics/gcontainers/gheap/heap.go
index 18a0fd4..7107fcd 100644
--- a/gogenerics/gcontainers/gheap/heap.go
+++ b/gogenerics/gcontainers/gheap/heap.go
@@ -87,7 +87,10 @@ func Push[T any](h *Heap[T], v T) {
 func Pop[T any](h *Heap[T]) T {
 	x := &h.data
 	ret := (*x)[0]
-	(*x)[0], *x = (*x)[len(*x)-1], (*x)[:len(*x)-1]
+	last := len(*x) - 1
+	(*x)[0] = (*x)[last]
+	(*x)[last] = gconstraints.Empty[T]() // avoid memory leaks
+	*x = (*x)[:last]
 	if len(*x) > 0 {
 		siftDown((*x), 0, h.less)
 	}
-- 
2.43.0


From c8187093690a000a1cee371d530213a88a7f0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 26/33] fix: release entries deleted from the red-black tree

The sentinel's parent still pointed to a node used while deleting, which
kept that node reachable after it had been deleted in turn.
---
 gogenerics/gds/grbt/rbt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gogenerics/gds/grbt/rbt.go b/gogenerics/gds/grbt/rbt.go
index 14729cd..0052553 100644
--- a/gogenerics/gds/grbt/rbt.go
+++ b/gogenerics/gds/grbt/rbt.go
@@ -374,6 +374,7 @@ func (tree *RbTree[K, V]) Delete(key K) V {
 		return gconstraints.Empty[V]()
 	}
 	tree.delete(node)
+	tree.sentinel.parent = nil // avoid memory leaks
 	tree.len = int(math.Max(0, float64(tree.len-1)))
 	node.left = nil
 	node.right = nil
-- 
2.43.0


From 0dd0cc0efc43bbb28f022e894ba5f93162161734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 27/33] fix: FileStore must not keep its lock when decoding
 panics

---
 library/cachex/file.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 83f51b0..c8fa182 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -93,9 +93,7 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
-	f.mu.RLock()
-	value, ok, dead, err := f.tryReadFile(fp)
-	f.mu.RUnlock()
+	value, ok, dead, err := f.tryReadFileShared(fp)
 	if !dead {
 		return value, ok, err
 	}
@@ -110,6 +108,13 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 	return value, ok, err
 }
 
+func (f *FileStore[K, V]) tryReadFileShared(fp string) (value V, ok, dead bool, err error) {
+	f.mu.RLock()
+	// decoding runs code of K and V, which may panic
+	defer f.mu.RUnlock()
+	return f.tryReadFile(fp)
+}
+
 // tryReadFile reads a file, dead tells that it is expired or damaged.
 func (f *FileStore[K, V]) tryReadFile(fp string) (value V, ok, dead bool, err error) {
 	content, err := os.ReadFile(fp)
-- 
2.43.0


From 2a263d8558591eb66ba2234f05f6f8f523c4e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 28/33] fix: FileStore.Purge must report directories it could
 not read

---
 library/cachex/file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index c8fa182..3eed63b 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -305,7 +305,15 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if err != nil || d.IsDir() || !f.isCacheFile(path) {
+		if err != nil {
+			// what could not be read was not deleted either
+			if !os.IsNotExist(err) {
+				errTotal++
+				lastErr = err
+			}
+			return nil
+		}
+		if d.IsDir() || !f.isCacheFile(path) {
 			return nil
 		}
 		if e := os.Remove(path); e != nil && !os.IsNotExist(e) {
-- 
2.43.0


From bf0e86a013b7aebdd4b2327cd7e4ab1768ce99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 29/33] fix: FileStore must not fail to read an entry whose key
 cannot be decoded

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 3eed63b..8427d91 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -330,7 +330,7 @@ func (f *FileStore[K, V]) Purge() error {
 
 type fileCacheItem[K comparable, V any] struct {
 	Data  V
-	Key   K
+	Key   any // for people, not every K can be decoded again
 	TTL   int64
 	Ctime int64
 	Exp   int64
-- 
2.43.0


From 34dab830b346567949d14fbf7ffb08573cf1867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 30/33] fix: FileStore must tell keys apart by their values,
 not by what their methods print

---
 library/cachex/file.go | 43 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 8427d91..bdc9404 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -7,10 +7,12 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -47,16 +49,49 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	// different keys may print alike, for example structs with string fields,
-	// or values of different types in an interface
-	str := fmt.Sprintf("%T:%#v", key, key)
 	h := md5.New()
-	h.Write([]byte(str))
+	// without methods of K, as key is not exported
+	writeKey(h, reflect.ValueOf(struct{ key K }{key}).Field(0))
 	s := hex.EncodeToString(h.Sum(nil))
 	fp := filepath.Join(f.Dir, s[:3], s[3:6], s[6:9], s[9:12], s[12:15], s[16:])
 	return fp + cacheFileExt
 }
 
+// writeKey writes k so that equal keys, and no others, are written alike. What
+// fmt prints is not enough: different keys may print alike, for example structs
+// with string fields, or values of different types in an interface.
+func writeKey(w io.Writer, k reflect.Value) {
+	if !k.IsValid() {
+		_, _ = io.WriteString(w, "nil;")
+		return
+	}
+	switch k.Kind() {
+	case reflect.Interface:
+		writeKey(w, k.Elem())
+		return
+	case reflect.Struct:
+		fmt.Fprintf(w, "%s{", k.Type())
+		for i := 0; i < k.NumField(); i++ {
+			writeKey(w, k.Field(i))
+		}
+	case reflect.Array:
+		fmt.Fprintf(w, "%s[", k.Type())
+		for i := 0; i < k.Len(); i++ {
+			writeKey(w, k.Index(i))
+		}
+	case reflect.Float32, reflect.Float64:
+		// 0 and -0 are the same key
+		fmt.Fprintf(w, "%s:%v", k.Type(), k.Float()+0)
+	case reflect.Complex64, reflect.Complex128:
+		fmt.Fprintf(w, "%s:%v", k.Type(), k.Complex()+0)
+	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
+		fmt.Fprintf(w, "%s:%#x", k.Type(), k.Pointer())
+	default:
+		fmt.Fprintf(w, "%s:%#v", k.Type(), k)
+	}
+	_, _ = io.WriteString(w, ";")
+}
+
 // isCacheFile reports whether path is laid out like a file written by Set,
 // Dir may contain other files.
 func (f *FileStore[K, V]) isCacheFile(path string) bool {
-- 
2.43.0


From e8cd12cae1cd629d533eaa0020f570096d555034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 31/33] fix: FileStore must clean up at most once per GCCycle,
 also for cycles that are not whole seconds

---
 library/cachex/file.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index bdc9404..68cf082 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -292,7 +292,7 @@ func (f *FileStore[K, V]) gc() {
 	}
 
 	if f.lastGC.Load() == 0 {
-		f.lastGC.Store(time.Now().Unix())
+		f.lastGC.Store(time.Now().UnixNano())
 		return
 	}
 
@@ -301,15 +301,20 @@ func (f *FileStore[K, V]) gc() {
 		cycle = time.Minute
 	}
 
-	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
 		return
 	}
 	if !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
+	if time.Now().UnixNano()-f.lastGC.Load() < int64(cycle) {
+		// another one has just finished
+		f.gcStatus.Store(false)
+		return
+	}
 	go func() {
 		defer func() {
-			f.lastGC.Store(time.Now().Unix())
+			f.lastGC.Store(time.Now().UnixNano())
 			f.gcStatus.Store(false)
 			_ = recover()
 		}()
-- 
2.43.0


From 54ca82f118f09c61eddd6660b73debf1dcbedf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 32/33] fix: BitSet.Set must not grow the set beyond the bits
 an int can count

---
 library/bitset/bitset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index dae05ce..1163f3a 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 	"sync"
 
@@ -38,7 +39,8 @@ func NewFromHex(s string) (*BitSet, error) {
 //
 //	0 means the 1st bit, -1 means the bottom 1th bit, -2 means the bottom 2th bit and so on;
 //	If offset>=len(b.set), automatically grow the bit set;
-//	If the bit offset is out of the left range, returns error.
+//	If the bit offset is out of the left range, returns error;
+//	If the bit set would have more bits than an int can count, returns error.
 func (b *BitSet) Set(offset int, value bool) (bool, error) {
 	b.mu.Lock()
 	defer b.mu.Unlock()
@@ -59,6 +61,10 @@ func (b *BitSet) Set(offset int, value bool) (bool, error) {
 
 	// if the bit offset is out of the right range, automatically grow.
 	if gi >= len(b.set) {
+		// size must stay countable: a longer bit set would fail every later call.
+		if gi >= math.MaxInt/8 {
+			return false, errors.New("the bit offset is out of the right range")
+		}
 		newSet := make([]byte, gi+1)
 		copy(newSet, b.set)
 		b.set = newSet
-- 
2.43.0


From 79033db4085166c8789d3356550156064eb8e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 33/33] fix: a mapreduce panic raised together with another one
 must not be lost

The first panic was claimed before it was recorded, so that the second
one could let the call return while nothing was recorded yet.
---
 gogenerics/gconcurrent/mr/mr.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index cc5ef5d..f492b3a 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -396,7 +396,6 @@ func (gw guardedWriter[T]) Write(v T) {
 // so that nobody has to be waiting for the panic to be recorded.
 type onceChan struct {
 	channel chan any
-	wrote   int32
 }
 
 func newOnceChan() *onceChan {
@@ -404,8 +403,10 @@ func newOnceChan() *onceChan {
 }
 
 func (oc *onceChan) write(val any) {
-	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
-		oc.channel <- val
+	// one step: whoever finds it full may count on rethrow to find it
+	select {
+	case oc.channel <- val:
+	default:
 	}
 }
 
-- 
2.43.0

