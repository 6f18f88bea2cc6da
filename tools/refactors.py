# Edits that keep the behaviour, to see that the checks stay quiet (tools/quiet.py).
# Each: (id, [(file, old, new), ...]); old == "" appends, old == None replaces the file.
MAP = "gogenerics/gconcurrent/sync/map.go"
MRF = "gogenerics/gconcurrent/mr/mr.go"
BS = "library/bitset/bitset.go"
FS = "library/cachex/file.go"
CH = "library/cachex/cache.go"
LRU = "library/cachex/lrucache.go"
HEAP = "gogenerics/gcontainers/gheap/heap.go"
Q = "gogenerics/gcontainers/gqueue/fifo.go"
SK = "gogenerics/gds/gskiplist/skiplist.go"
RB = "gogenerics/gds/grbt/rbt.go"
CR = "library/cryptox/cryptox.go"
ST = "library/stringx/stringx.go"
SL = "gogenerics/gcontainers/gslice/slice.go"
FR = "hack/fastrand/fastrand.go"
PW = "library/password/password.go"
LIST = "gogenerics/gcontainers/glist/list.go"
RING = "gogenerics/gcontainers/gring/ring.go"
ERR = "gogenerics/gconstraints/errors.go"

REFACTORS = [
("map-slow-helper", [(MAP, '''		m.mu.Lock()
		// Avoid reporting a spurious miss if m.dirty got promoted while we were
		// blocked on m.mu. (If further loads of the same key will not miss, it's
		// not worth copying the dirty map for this key.)
		read = m.loadReadOnly()
		e, ok = read.m[key]
		if !ok && read.amended {
			e, ok = m.dirty[key]
			// Regardless of whether the entry was present, record a miss: this key
			// will take the slow path until the dirty map is promoted to the read
			// map.
			m.missLocked()
		}
		m.mu.Unlock()
	}
	if !ok {
		var zero V
		return zero, false
	}
	return e.load()
}
''', '''		e, ok = m.slowEntry(key)
	}
	if ok {
		return e.load()
	}
	return value, false
}

// slowEntry looks for an entry in both halves and counts a miss.
func (m *Map[K, V]) slowEntry(key K) (*entry[V], bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	read := m.loadReadOnly()
	if e, ok := read.m[key]; ok {
		return e, true
	}
	if !read.amended {
		return nil, false
	}
	e, ok := m.dirty[key]
	m.missLocked()
	return e, ok
}
'''), (MAP, '''	m.mu.Unlock()

	return actual, loaded
}
''', '''	m.mu.Unlock()
	return
}
'''), (MAP, '''		if !read.amended {
			// We're adding the first new key to the dirty map.
			// Make sure it is allocated and mark the read-only map as incomplete.
			m.dirtyLocked()
			m.read.Store(&readOnly[K, V]{m: read.m, amended: true})
		}
		m.dirty[key] = newEntry(value)
		actual, loaded = value, false
''', '''		m.addLocked(read, key, value)
		actual, loaded = value, false
'''), (MAP, "", '''
func (m *Map[K, V]) addLocked(read readOnly[K, V], key K, value V) {
	if !read.amended {
		m.dirtyLocked()
		m.read.Store(&readOnly[K, V]{m: read.m, amended: true})
	}
	m.dirty[key] = newEntry(value)
}
''')]),
("map-delete-direct", [(MAP, '''	m.LoadAndDelete(key)
}
''', '''	read := m.loadReadOnly()
	e, ok := read.m[key]
	if !ok && read.amended {
		m.mu.Lock()
		defer m.mu.Unlock()
		read = m.loadReadOnly()
		if e, ok = read.m[key]; !ok && read.amended {
			if e, ok = m.dirty[key]; ok {
				delete(m.dirty, key)
			}
			m.missLocked()
		}
	}
	if ok {
		e.delete()
	}
}
'''), (MAP, '''func (m *Map[K, V]) missLocked() {
	m.misses++
	if m.misses < len(m.dirty) {
		return
	}
	m.read.Store(&readOnly[K, V]{m: m.dirty})
	m.dirty = nil
	m.misses = 0
}
''', '''func (m *Map[K, V]) missLocked() {
	if m.misses++; m.misses >= len(m.dirty) {
		m.promoteLocked()
	}
}

func (m *Map[K, V]) promoteLocked() readOnly[K, V] {
	read := readOnly[K, V]{m: m.dirty}
	m.read.Store(&read)
	m.dirty, m.misses = nil, 0
	return read
}
'''), (MAP, '''			read = readOnly[K, V]{m: m.dirty}
			m.read.Store(&read)
			m.dirty = nil
			m.misses = 0
''', '''			read = m.promoteLocked()
''')]),
("mr-workers-loop", [(MRF, '''	var failed int32
	pool := make(chan struct{}, mCtx.workers)
''', '''	var failed atomic.Bool
	pool := make(chan struct{}, mCtx.workers)
	for i := 0; i < mCtx.workers; i++ {
		pool <- struct{}{}
	}
'''), (MRF, '''	for atomic.LoadInt32(&failed) == 0 {
''', '''	run := func(item T) {
		defer func() {
			if r := recover(); r != nil {
				failed.Store(true)
				mCtx.panicChan.write(r)
			}
			wg.Done()
			pool <- struct{}{}
		}()
		mCtx.mapper(item, writer)
	}
	for !failed.Load() {
'''), (MRF, '''		case pool <- struct{}{}:
			item, ok := <-mCtx.source
			if !ok {
				<-pool
				return
			}

			wg.Add(1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						atomic.AddInt32(&failed, 1)
						mCtx.panicChan.write(r)
					}
					wg.Done()
					<-pool
				}()

				mCtx.mapper(item, writer)
			}()
''', '''		case <-pool:
			item, ok := <-mCtx.source
			if !ok {
				return
			}
			wg.Add(1)
			go run(item)
''')]),
("mr-once-mutex", [(MRF, '''	once := new(sync.Once)
	return func(err error) {
		once.Do(func() {
			fn(err)
		})
	}
''', '''	var first sync.Once
	return func(err error) { first.Do(func() { fn(err) }) }
'''), (MRF, '''	var closeOnce sync.Once
''', '''	var mu sync.Mutex
	closed := false
'''), (MRF, '''		closeOnce.Do(func() {
			close(done)
		})
''', '''		mu.Lock()
		defer mu.Unlock()
		if !closed {
			closed = true
			close(done)
		}
'''), (MRF, '''	select {
	case <-gw.ctx.Done():
		return
	case <-gw.done:
		return
	default:
	}

	select {''', '''	if gw.over() {
		return
	}
	select {'''), (MRF, "", '''
func (gw guardedWriter[T]) over() bool {
	select {
	case <-gw.done:
		return true
	default:
		return gw.ctx.Err() != nil
	}
}
''')]),
("bitset-mutex", [(BS, "mu  sync.RWMutex", "mu  sync.Mutex"), (BS, "*.RLock()", ".Lock()"), (BS, "*.RUnlock()", ".Unlock()")]),
("bitset-range-copy", [(BS, '''	b.mu.RLock()
	defer b.mu.RUnlock()
	size := b.size()
	if size == 0 {
		return
	}
	for offset := 0; offset < size; offset++ {
		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {
			return
		}
	}
''', '''	for i, gb := range b.Bytes() {
		for bit := 0; bit < 8; bit++ {
			if !f(8*i+bit, gb&(0x80>>bit) != 0) {
				return
			}
		}
	}
'''), (BS, '''		newSet := make([]byte, gi+1)
		copy(newSet, b.set)
		b.set = newSet
''', '''		b.set = append(append(make([]byte, 0, gi+1+gi/8), b.set...), make([]byte, gi+1-len(b.set))...)
''')]),
("lru-order-ids", [(LRU, '''	if tmp, ok := lc.lruMap[key]; ok {
		tmp.val = value
		tmp.usedCount = 0
		tmp.expireTime = time.Now().Add(ttl)
		lc.lruList.MoveToFront(tmp.el)
		return
	}

	el := lc.lruList.PushFront(key)
''', '''	if old, ok := lc.lruMap[key]; ok {
		lc.lruList.Remove(old.el)
	}
	el := lc.lruList.PushFront(key)
'''), (LRU, '''	for lc.lruList.Len() > lc.caption {
''', '''	if lc.lruList.Len() > lc.caption {
''')]),
("lru-drop-helper", [(LRU, '''	// Check age
	if lc.maxUsed > 0 {
		if tmp.usedCount >= lc.maxUsed {
			delete(lc.lruMap, key)
			lc.lruList.Remove(tmp.el)
			var emp V
			return emp, false
		}
		tmp.usedCount++
	}
	// Check expiration
	if tmp.expireTime.Before(time.Now()) {
		delete(lc.lruMap, key)
		lc.lruList.Remove(tmp.el)
		var emp V
		return emp, false
	}
	// Hit
''', '''	worn := lc.maxUsed > 0 && tmp.usedCount >= lc.maxUsed
	if worn || time.Now().After(tmp.expireTime) {
		lc.lruList.Remove(tmp.el)
		delete(lc.lruMap, key)
		var emp V
		return emp, false
	}
	tmp.usedCount++
''')]),
("file-rename", [(FS, '''	return os.WriteFile(fp, content, 0666)
}
''', '''	tmp, err := os.CreateTemp(dir, "new*.tmp")
	if err != nil {
		return err
	}
	_, err = tmp.Write(content)
	if e := tmp.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(tmp.Name(), fp)
	}
	if err != nil {
		_ = os.Remove(tmp.Name())
	}
	return err
}
''')]),
("file-no-walkdir", [(FS, '''	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() || !f.isCacheFile(path) {
			return nil
		}
		_, _, _ = f.readFile(path)
		return nil
	})
}
''', '''	f.scanDir(f.Dir, 0)
}

func (f *FileStore[K, V]) scanDir(dir string, depth int) {
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		path := filepath.Join(dir, e.Name())
		if e.IsDir() {
			if depth < 5 {
				f.scanDir(path, depth+1)
			}
		} else if f.isCacheFile(path) {
			_, _, _ = f.readFile(path)
		}
	}
}
'''), (FS, '''	for i, part := range parts {
		want := 3
		if i == 5 {
			want = 16
		}
		if len(part) != want || strings.Trim(part, "0123456789abcdef") != "" {
			return false
		}
	}
	return true
''', '''	for i, part := range parts {
		if want := map[bool]int{true: 16, false: 3}[i == len(parts)-1]; len(part) != want {
			return false
		}
		for _, c := range part {
			if (c < '0' || c > '9') && (c < 'a' || c > 'f') {
				return false
			}
		}
	}
	return true
''')]),
("file-mget-loop", [(FS, '''	for idx, key := range keys {
		val, st, err := f.Get(ctx, key)
		if err != nil {
			return nil, nil, err
		}
		values[idx] = val
		status[idx] = st
	}
	return values, status, nil
''', '''	var err error
	for i := 0; i < len(keys) && err == nil; i++ {
		values[i], status[i], err = f.readFile(f.getFilePath(keys[i]))
	}
	if err != nil {
		return nil, nil, err
	}
	return values, status, nil
'''), (FS, '''		f.mu.Lock()
		err := os.Remove(fp)
		f.mu.Unlock()
		if err == nil || os.IsNotExist(err) {
			continue
		}
		errs = append(errs, err)
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
''', '''		if err := f.remove(fp); err != nil {
			errs = append(errs, err)
		}
	}
	return errors.Join(errs...)
'''), (FS, "", '''
func (f *FileStore[K, V]) remove(fp string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := os.Remove(fp); !errors.Is(err, fs.ErrNotExist) {
		return err
	}
	return nil
}
'''), (FS, '''	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''', '''	if err = os.MkdirAll(dir, 0777); err != nil {
		return err
	}
''')]),
("chain-mget", [(CH, '''		for j := 0; j < len(oks); j++ {
			if oks[j] {
				for _, keyIndex := range indexMap[keys[j]] {
					values[keyIndex] = vals[j]
					status[keyIndex] = true
				}
			}
		}
		// Set the content queried from the next-level cache to the upper-level cache
		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)
		keys = c.keysNotFound(keys, oks)
''', '''		found := make(map[K]V)
		var rest []K
		for j, k := range keys {
			if j >= len(oks) || !oks[j] {
				rest = append(rest, k)
				continue
			}
			found[k] = vals[j]
			for _, at := range indexMap[k] {
				values[at], status[at] = vals[j], true
			}
		}
		// Set the content queried from the next-level cache to the upper-level cache
		if len(found) > 0 {
			for _, upper := range c.Caches[:idx] {
				_ = upper.Cache.MSet(ctx, found, upper.TTL)
			}
		}
		keys = rest
''')]),
("heap-standard", [(HEAP, '''		c := left
		if len(x) > right && less(x[right], x[left]) {
			c = right
		}
		if less(x[index], x[c]) {
			break
		}
''', '''		c := left
		if right < len(x) && !less(x[left], x[right]) {
			c = right
		}
		if !less(x[c], x[index]) {
			break
		}
'''), (HEAP, '''		if less(x[p], x[index]) {
			break
		}
''', '''		if !less(x[index], x[p]) {
			break
		}
'''), (HEAP, '''	x := &h.data
	(*x) = append((*x), v)
	siftUp(*x, len(*x)-1, h.less)
	h.data = (*x)
''', '''	h.data = append(h.data, v)
	siftUp(h.data, len(h.data)-1, h.less)
''')]),
("queue-slice", [(Q, '''	list   *glist.List[T]
	length int
''', '''	items []T
	head  int
'''), (Q, '''	return &Queue[T]{
		list:   glist.New[T](),
		length: 0,
	}
''', '''	return &Queue[T]{}
'''), (Q, '''	return q.length
}
''', '''	return len(q.items) - q.head
}
'''), (Q, '''	q.list.PushBack(v)
	q.length++
	return nil
''', '''	q.items = append(q.items, v)
	return nil
'''), (Q, '''	val := q.list.Front().Value
	q.list.Remove(q.list.Front())
	q.length--
	return val, nil
''', '''	val := q.items[q.head]
	q.items[q.head] = gconstraints.Empty[T]()
	q.head++
	if n := q.Len(); 2*n <= q.head {
		// move what is left into a smaller array
		q.items, q.head = append(make([]T, 0, 2*n), q.items[q.head:]...), 0
	}
	return val, nil
'''), (Q, '''	return q.list.Front().Value, nil
''', '''	return q.items[q.head], nil
'''), (Q, '''	res := make([]T, q.length)
	var idx int
	q.list.Range(func(e *glist.Element[T]) {
		res[idx] = e.Value
		idx++
	})
	return res
''', '''	return append(make([]T, 0, q.Len()), q.items[q.head:]...)
'''), (Q, '''	return q.length == 0
''', '''	return q.Len() == 0
'''), (Q, '''	q.list = glist.New[T]()
	q.length = 0
''', '''	q.items, q.head = nil, 0
'''), (Q, "make(chan T, q.length)", "make(chan T, q.Len())"), (Q, '''import (
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
)''', '''import "github.com/miniLCT/gosb/gogenerics/gconstraints"''')]),
("skip-levels", [(SK, '''	level := maxLevel - 1
	// First we apply some mask which makes sure that we don't get a level
	// above our desired level. Then we find the first set bit.
	x := fastrand.Uint64() & ((1 << uint(maxLevel-1)) - 1)
	zeroes := bits.TrailingZeros64(x)
	if zeroes <= maxLevel {
		level = zeroes
	}
	return level
''', '''	level := bits.LeadingZeros64(fastrand.Uint64())
	if level > maxLevel-1 {
		return maxLevel - 1
	}
	return level
''')]),
("rbt-shared-range", [(RB, '''	subTree := New[K, V](tree.less)
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}
		if node.key == key && inclusive {
			subTree.Insert(node.key, node.value)
		} else if tree.less(node.key, key) {
			subTree.Insert(node.key, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return subTree
''', '''	return tree.filter(tree.root, New[K, V](tree.less), func(k K) bool {
		return k == key && inclusive || tree.less(k, key)
	})
'''), (RB, "", '''
func (tree *RbTree[K, V]) filter(node *rbNode[K, V], to *RbTree[K, V], want func(K) bool) *RbTree[K, V] {
	if node != tree.sentinel {
		tree.filter(node.left, to, want)
		if want(node.key) {
			to.Insert(node.key, node.value)
		}
		tree.filter(node.right, to, want)
	}
	return to
}
'''), (RB, '''	if node.left == tree.sentinel {
		return node
	}
	return tree.minimum(node.left)
''', '''	for node.left != tree.sentinel {
		node = node.left
	}
	return node
'''), (RB, '''	for x != tree.sentinel {
		if x.key == key {
			return x
		} else if tree.less(x.key, key) {
			x = x.right
		} else {
			x = x.left
		}
	}
	return x
''', '''	for x != tree.sentinel && x.key != key {
		if tree.less(key, x.key) {
			x = x.left
		} else {
			x = x.right
		}
	}
	return x
'''), (RB, "int(math.Max(0, float64(tree.len-1)))", "tree.len - 1"), (RB, '''	"math"
''', "")]),
("aes-helpers", [(CR, '''	iv := ciphertext[:aes.BlockSize]
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	mode := cipher''', '''	iv := randomIV(ciphertext)
	mode := cipher'''), (CR, "", '''
func randomIV(b []byte) []byte {
	for n := 0; n < aes.BlockSize; {
		m, err := rand.Reader.Read(b[n:aes.BlockSize])
		if err != nil && n+m < aes.BlockSize {
			panic(err)
		}
		n += m
	}
	return b[:aes.BlockSize]
}
'''), (CR, '''	n := byte(blockSize - len(plainText)%blockSize)
	// copy, the spare capacity of plainText belongs to the caller
	padded := make([]byte, len(plainText), len(plainText)+int(n))
	copy(padded, plainText)
	for i := byte(0); i < n; i++ {
		padded = append(padded, n)
	}
	return padded
''', '''	n := blockSize - len(plainText)%blockSize
	padded := make([]byte, len(plainText)+n)
	for i := copy(padded, plainText); i < len(padded); i++ {
		padded[i] = byte(n)
	}
	return padded
'''), (CR, '''	plainText := ciphertext
	mode.CryptBlocks(plainText, ciphertext)
''', '''	plainText := make([]byte, len(ciphertext))
	mode.CryptBlocks(plainText, ciphertext)
''')]),
("stringx-builders", [(ST, '''	has := strings.HasSuffix(text, "\\n")
	text = prefix + strings.ReplaceAll(text, "\\n", "\\n"+prefix)
	if has {
		return text[:len(text)-len(prefix)]
	}
	return text
''', '''	var sb strings.Builder
	for _, line := range strings.SplitAfter(text, "\\n") {
		if line != "" || text == "" {
			sb.WriteString(prefix)
			sb.WriteString(line)
		}
	}
	return sb.String()
'''), (ST, '''	var old string
	for old != s {
		old = s
		s = spaceReplacer.Replace(s)
	}
	return s
''', '''	for {
		t := spaceReplacer.Replace(s)
		if t == s {
			return t
		}
		s = t
	}
'''), (ST, '''	var buf = bytes.NewBuffer(make([]byte, 0, 64))
''', '''	var buf = new(bytes.Buffer)
	buf.Grow(len(s) + 2)
''')]),
("slice-append", [(SL, '''	uniqS := make([]T, len(s))
	for _, v := range s {
		if _, ok := seem[v]; ok {
			continue
		}
		uniqS[idx] = v
		idx++
		seem[v] = struct{}{}
	}
	return uniqS[:idx], idx
''', '''	var uniqS []T
	for _, v := range s {
		if _, dup := seem[v]; !dup {
			seem[v] = struct{}{}
			uniqS = append(uniqS, v)
			idx++
		}
	}
	return uniqS, idx
''')]),
("rand-int31n-reject", [(FR, '''	v := Uint32()
	prod := uint64(v) * uint64(n)
	low := uint32(prod)
	if low < uint32(n) {
		thresh := uint32(-n) % uint32(n)
		for low < thresh {
			v = Uint32()
			prod = uint64(v) * uint64(n)
			low = uint32(prod)
		}
	}
	return int32(prod >> 32)
''', '''	max := int32((1 << 31) - 1 - (1<<31)%uint32(n))
	v := Int31()
	for v > max {
		v = Int31()
	}
	return v % n
'''), (FR, '''	if l > 0 {
		for l > 0 {
			p[len(p)-l] = byte(r.Uint64() >> (l * 8))
			l--
		}
	}
''', '''	for rest := r.Uint64(); l > 0; l-- {
		p[len(p)-l] = byte(rest)
		rest >>= 8
	}
''')]),
("password-switch", [(PW, '''		if c >= '0' && c <= '9' {
			r |= N
		} else if c >= 'a' && c <= 'z' {
			r |= L
			r |= LorU
		} else if c >= 'A' && c <= 'Z' {
			r |= U
			r |= LorU
		} else if (c >= '!' && c <= '/') ||
			(c >= ':' && c <= '@') ||
			(c >= '[' && c <= '`') ||
			(c >= '{' && c <= '~') {
			r |= S
		} else {
			return false
		}
''', '''		switch {
		case c <= ' ' || c > '~':
			return false
		case '0' <= c && c <= '9':
			r |= N
		case 'a' <= c && c <= 'z':
			r |= L | LorU
		case 'A' <= c && c <= 'Z':
			r |= U | LorU
		default:
			r |= S
		}
''')]),
]

RN = "gogenerics/gcontainers/gring/ring.go"
LI = "gogenerics/gcontainers/glist/list.go"
AE = "gogenerics/gconstraints/errors.go"
PO = "gogenerics/gcontainers/gpool/syncpool.go"

REFACTORS += [
("ring-move-loop", [(RN, '''	switch {
	case n < 0:
		for ; n < 0; n++ {
			r = r.prev
		}
	case n > 0:
		for ; n > 0; n-- {
			r = r.next
		}
	}
	return r
''', '''	for n != 0 {
		if n < 0 {
			r, n = r.prev, n+1
			continue
		}
		r, n = r.next, n-1
	}
	return r
'''), (RN, '''	n := 0
	if r != nil {
		n = 1
		for p := r.Next(); p != r; p = p.next {
			n++
		}
	}
	return n
''', '''	if r == nil {
		return 0
	}
	n := 1
	p := r.Next()
	for p != r {
		p = p.Next()
		n++
	}
	return n
'''), (RN, '''	p := r
	for i := 1; i < n; i++ {
		p.next = &Ring[V]{prev: p}
		p = p.next
	}
	p.next = r
	r.prev = p
	return r
''', '''	r.init()
	for ; n > 1; n-- {
		s := new(Ring[V]).init()
		r.prev.Link(s)
	}
	return r
''')]),
("list-unlink", [(LI, '''	e.prev.next = e.next
	e.next.prev = e.prev
	e.next = nil // avoid memory leaks
	e.prev = nil // avoid memory leaks
	e.list = nil
	l.len--
''', '''	unlink(e)
	*e = Element[T]{Value: e.Value}
	l.len--
'''), (LI, '''	if e == at {
		return
	}
	e.prev.next = e.next
	e.next.prev = e.prev

	e.prev = at
	e.next = at.next
	e.prev.next = e
	e.next.prev = e
}
''', '''	if e == at || at.next == e {
		return
	}
	unlink(e)
	after := at.next
	e.prev, e.next = at, after
	at.next, after.prev = e, e
}

func unlink[T any](e *Element[T]) {
	p, n := e.prev, e.next
	p.next, n.prev = n, p
}
'''), (LI, '''	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
		l.insertValue(e.Value, l.root.prev)
	}
''', '''	values := make([]T, 0, other.Len())
	for e := other.Front(); e != nil; e = e.Next() {
		values = append(values, e.Value)
	}
	for _, v := range values {
		l.PushBack(v)
	}
''')]),
("error-mutex", [(AE, '''	err atomic.Value // errorBox
}

// errorBox holds an error, because an atomic.Value can only store values of one type.
type errorBox struct {
	err error
}
''', '''	mu  sync.RWMutex
	err error
}
'''), (AE, '''	if err != nil {
		ae.err.Store(errorBox{err})
	}
''', '''	if err == nil {
		return
	}
	ae.mu.Lock()
	ae.err = err
	ae.mu.Unlock()
'''), (AE, '''	if v := ae.err.Load(); v != nil {
		return v.(errorBox).err
	}
	return nil
''', '''	ae.mu.RLock()
	defer ae.mu.RUnlock()
	return ae.err
'''), (AE, '	"sync/atomic"', '	"sync"')]),
("error-pointer", [(AE, "	err atomic.Value // errorBox\n", "	err atomic.Pointer[error]\n"), (AE, '''
// errorBox holds an error, because an atomic.Value can only store values of one type.
type errorBox struct {
	err error
}
''', ""), (AE, "ae.err.Store(errorBox{err})", "ae.err.Store(&err)"), (AE, '''	if v := ae.err.Load(); v != nil {
		return v.(errorBox).err
	}
''', '''	if p := ae.err.Load(); p != nil {
		return *p
	}
''')]),
("pool-free-list", [(PO, '''type ArrayPool[T any] struct {
	pool sync.Pool
}
''', '''type ArrayPool[T any] struct {
	pool sync.Pool
	size uint
}
'''), (PO, '''	return ArrayPool[T]{
		pool: sync.Pool{
			New: func() any {
				return make([]T, 0, size)
			},
		},
	}
''', '''	return ArrayPool[T]{size: size}
'''), (PO, '''	return p.pool.Get().([]T)
''', '''	if x, ok := p.pool.Get().(*[]T); ok {
		return *x
	}
	return make([]T, 0, p.size)
'''), (PO, '''func (p *ArrayPool[T]) Put(x []T) {
	p.pool.Put(x)
''', '''func (p *ArrayPool[T]) Put(x []T) {
	p.pool.Put(&x)
''')]),
("lru-glist", [(LRU, '	"container/list"\n', ""), (LRU, '	"time"\n)', '	"time"\n\n	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"\n)'),
 (LRU, "list.New()", "glist.New[any]()"), (LRU, "lruList *list.List", "lruList *glist.List[any]"), (LRU, "el         *list.Element", "el         *glist.Element[any]")]),
("lru-remove-helper", [(LRU, '''	// Check age
	if lc.maxUsed > 0 {
		if tmp.usedCount >= lc.maxUsed {
			delete(lc.lruMap, key)
			lc.lruList.Remove(tmp.el)
			var emp V
			return emp, false
		}
		tmp.usedCount++
	}
	// Check expiration
	if tmp.expireTime.Before(time.Now()) {
		delete(lc.lruMap, key)
		lc.lruList.Remove(tmp.el)
		var emp V
		return emp, false
	}
''', '''	expired := tmp.expireTime.Before(time.Now())
	used := lc.maxUsed > 0 && tmp.usedCount >= lc.maxUsed
	if expired || used {
		lc.drop(key, tmp)
		var emp V
		return emp, false
	}
	tmp.usedCount++
'''), (LRU, '''		if v, ok := lc.lruMap[key]; ok {
			delete(lc.lruMap, key)
			lc.lruList.Remove(v.el)
		}
	}
	return nil
}
''', '''		if v, ok := lc.lruMap[key]; ok {
			lc.drop(key, v)
		}
	}
	return nil
}

func (lc *LRUCacheV2[K, V]) drop(key K, it *item2[V]) {
	lc.lruList.Remove(it.el)
	it.el = nil
	delete(lc.lruMap, key)
}
'''), (LRU, '''	for lc.lruList.Len() > lc.caption {
		last := lc.lruList.Back()
		delete(lc.lruMap, last.Value)
		lc.lruList.Remove(last)
	}
''', '''	if lc.lruList.Len() > lc.caption {
		delete(lc.lruMap, lc.lruList.Remove(lc.lruList.Back()))
	}
''')]),
("file-gc-split", [(FS, '''	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() || !f.isCacheFile(path) {
			return nil
		}
		_, _, _ = f.readFile(path)
		return nil
	})
''', '''	var paths []string
	_ = filepath.Walk(f.Dir, func(path string, info fs.FileInfo, err error) error {
		if err == nil && !info.IsDir() && f.isCacheFile(path) {
			paths = append(paths, path)
		}
		return nil
	})
	for len(paths) > 0 {
		_, _, _ = f.readFile(paths[0])
		paths = paths[1:]
	}
'''), (FS, '''	dir := filepath.Dir(fp)
	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
	return os.WriteFile(fp, content, 0666)
''', '''	if err = os.MkdirAll(filepath.Dir(fp), 0777); err != nil {
		return err
	}
	out, err := os.OpenFile(fp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	_, err = out.Write(content)
	if e := out.Close(); err == nil {
		err = e
	}
	return err
''')]),
("bitset-slow-bits", [(BS, '''	if sgi == egi {
		return bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi) << sbi)
	}
	var n int
	n += bits.OnesCount8(b.set[sgi] << sbi)
	for _, v := range b.set[sgi+1 : egi] {
		n += bits.OnesCount8(v)
	}
	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
	return n
''', '''	var n int
	for i, v := range b.set[sgi : egi+1] {
		if uint(i) == egi-sgi {
			v &= 0xff << (7 - ebi)
		}
		if i == 0 {
			v &= 0xff >> sbi
		}
		n += bits.OnesCount8(v)
	}
	return n
'''), (BS, '''		newSet := make([]byte, gi+1)
		copy(newSet, b.set)
		b.set = newSet
''', '''		b.set = append(b.set[:len(b.set):len(b.set)], make([]byte, gi+1-len(b.set))...)
'''), (BS, '''	if (oldVal == 1) != value {
		if oldVal == 1 {
			b.set[gi] = gb &^ mask
		} else {
			b.set[gi] = gb | mask
		}
	}
	return oldVal == 1, nil
''', '''	if value {
		gb |= mask
	} else {
		gb &^= mask
	}
	b.set[gi] = gb
	return oldVal == 1, nil
''')]),
("rbt-iterative", [(RB, '''	if node.left == tree.sentinel {
		return node
	}
	return tree.minimum(node.left)
''', '''	for node.left != tree.sentinel {
		node = node.left
	}
	return node
'''), (RB, '''	data := make([]K, tree.len)
	index := 0
	tree.keys(tree.root, data, &index)
	return data
''', '''	data := make([]K, 0, tree.len)
	var path []*rbNode[K, V]
	for node := tree.root; node != tree.sentinel || len(path) > 0; {
		if node != tree.sentinel {
			path = append(path, node)
			node = node.left
			continue
		}
		node = path[len(path)-1]
		path = path[:len(path)-1]
		data = append(data, node.key)
		node = node.right
	}
	return data
'''), (RB, '''	tree.len = int(math.Max(0, float64(tree.len-1)))
	node.left = nil
	node.right = nil
	temp := node.value
	node = nil
	return temp
''', '''	if tree.len > 0 {
		tree.len--
	}
	node.parent, node.left, node.right = nil, nil, nil
	return node.value
'''), (RB, '	"math"\n', ""), (RB, '''		if x.key == key {
			return x
		} else if tree.less(x.key, key) {
			x = x.right
		} else {
			x = x.left
		}
	}
	return x
''', '''		switch {
		case x.key == key:
			return x
		case tree.less(key, x.key):
			x = x.left
		default:
			x = x.right
		}
	}
	return tree.sentinel
''')]),
("json-table", [(ST, '''			switch b {
			case '\\\\', '"':
				buf.WriteByte('\\\\')
				buf.WriteByte(b)
			case '\\n':
				buf.WriteByte('\\\\')
				buf.WriteByte('n')
			case '\\r':
				buf.WriteByte('\\\\')
				buf.WriteByte('r')
			case '\\t':
				buf.WriteByte('\\\\')
				buf.WriteByte('t')
			default:
''', '''			switch b {
			case '\\\\':
				buf.WriteString(`\\\\`)
			case '"':
				buf.WriteString(`\\"`)
			case '\\b':
				buf.WriteString(`\\b`)
			case '\\f':
				buf.WriteString(`\\f`)
			case '\\n':
				buf.WriteString(`\\n`)
			case '\\r':
				buf.WriteString(`\\r`)
			case '\\t':
				buf.WriteString(`\\t`)
			default:
''')]),
("snake-runes", [(ST, '''	data := make([]byte, 0, len(s)*2)
	j := false
	for _, d := range unsafex.StringToSlice(s) {
		if d >= 'A' && d <= 'Z' {
			if j {
				data = append(data, '_')
				j = false
			}
		} else if d != '_' {
			j = true
		}
		data = append(data, d)
	}
	return strings.ToLower(unsafex.SliceToString(data))
''', '''	var sb strings.Builder
	word := false
	for i := 0; i < len(s); i++ {
		upper := 'A' <= s[i] && s[i] <= 'Z'
		if upper && word {
			sb.WriteByte('_')
		}
		if s[i] != '_' {
			word = !upper
		}
		sb.WriteByte(s[i])
	}
	return strings.ToLower(sb.String())
'''), (ST, '''	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
		i, err := strconv.ParseInt(strings.TrimRight(s[len("&#"):], ";"), base, 32)
		if err != nil {
			return s
		}
		return string(rune(i))
	})
''', '''	var sb strings.Builder
	last := 0
	for _, m := range htmlEntityRegexp.FindAllStringSubmatchIndex(str, -1) {
		sb.WriteString(str[last:m[0]])
		last = m[1]
		i, err := strconv.ParseInt(str[m[2]:m[3]], base, 32)
		if err == nil {
			sb.WriteString(string(rune(i)))
		} else {
			sb.WriteString(str[m[0]:m[1]])
		}
	}
	return sb.String() + str[last:]
''')]),
("skip-find-simple", [(SK, '''	index := t.findEntryIndex(key, 0)
	var currentNode *SkipListElement[K, V]

	currentNode = t.startLevels[index]
	nextNode := currentNode

	// In case, that our first element is already greater-or-equal.
	if findGreaterOrEqual && currentNode.key > key {
		return currentNode, true
	}

	for {
		if currentNode.key == key {
			return currentNode, true
		}

		nextNode = currentNode.next[index]

		// Which direction are we continuing next time?
		if nextNode != nil && nextNode.key <= key {
			// Go right
			currentNode = nextNode
		} else {
			if index > 0 {
				// Early exit
				if currentNode.next[0] != nil && currentNode.next[0].key == key {
					return currentNode.next[0], true
				}
				// Go down
				index--
			} else {
				// Element is not found and we reached the bottom.
				if findGreaterOrEqual {
					return nextNode, nextNode != nil
				}
				return nil, false
			}
		}
	}
}
''', '''	next := &t.startLevels
	for index := t.findEntryIndex(key, 0); index >= 0; index-- {
		for next[index] != nil && next[index].key < key {
			next = &next[index].next
		}
	}
	found := next[0]
	if found == nil || !findGreaterOrEqual && found.key != key {
		return nil, false
	}
	return found, true
}
''')]),
("rand-read-binary", [(FR, '''	if l >= 8 {
		var i int
		uint64p := *(*[]uint64)(unsafe.Pointer(&p))
		for l >= 8 {
			uint64p[i] = r.Uint64()
			i++
			l -= 8
		}
	}

	if l > 0 {
		for l > 0 {
			p[len(p)-l] = byte(r.Uint64() >> (l * 8))
			l--
		}
	}

	return len(p), nil
''', '''	q := p
	for ; len(q) >= 8; q = q[8:] {
		binary.LittleEndian.PutUint64(q, r.Uint64())
	}
	if len(q) > 0 {
		var last [8]byte
		binary.BigEndian.PutUint64(last[:], r.Uint64())
		copy(q, last[:])
	}
	return l, nil
'''), (FR, '	"unsafe"\n', ""), (FR, '	"math/bits"\n', '	"encoding/binary"\n	"math/bits"\n'), (FR, '''	m := make([]int, n)
	for i := 1; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
''', '''	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
''')]),
]
