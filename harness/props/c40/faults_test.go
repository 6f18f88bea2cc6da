// Monitor for C40: the file cache tells the truth when the file system fails.
//
// Real faults are injected around single calls: no file can be opened
// (RLIMIT_NOFILE), files cannot grow (RLIMIT_FSIZE), the directory is a file, the
// place of an entry is taken by a directory or by a link to itself. What the
// calls report is compared with what the cache holds once the fault is gone.
package c40

import (
	"context"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"gosbverif/mon"
)

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ)
	mon.Main(m)
}

var ctx = context.Background()

func limit(what int, n uint64) (restore func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(what, &old); err != nil {
		panic(err)
	}
	cur := old
	cur.Cur = n
	if err := syscall.Setrlimit(what, &cur); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(what, &old); err != nil {
			panic(err)
		}
	}
}

const rlimitFsize = 1 // RLIMIT_FSIZE

// openBelow lists the files below dir this process holds open.
func openBelow(dir string) (out []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	return out
}

func init() {
	if _, err := os.ReadDir("/proc/self/fd"); err != nil {
		mon.Errorf("open files cannot be listed: %v", err)
	}
}

func filesBelow(dir string) (out []string) {
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			out = append(out, p)
		}
		return nil
	})
	return out
}

type state struct {
	// the values a later Get may give, "" for no entry
	may []string
}

func (s *state) sure(v string) { s.may = []string{v} }
func (s *state) also(v string) {
	for _, x := range s.may {
		if x == v {
			return
		}
	}
	s.may = append(s.may, v)
}
func (s *state) has(v string) bool {
	for _, x := range s.may {
		if x == v {
			return true
		}
	}
	return false
}

type world struct {
	*mon.C
	base, dir string
	f         *cachex.FileStore[int, string]
	keys      map[int]*state
	places    map[int]string // file of each key, as observed
	n         int
	seq       int
	virtual   bool // in virtual time, with clean-up every second
}

func (w *world) value() string {
	w.seq++
	n := w.Size(6000)
	return fmt.Sprintf("v%d ", w.seq) + strings.Repeat(mon.Pick(w.C, "x", "<", "é", "\n"), n)
}

func short(s string) string {
	if len(s) > 12 {
		return fmt.Sprintf("%s...(%d bytes)", s[:12], len(s))
	}
	return s
}

// fault makes the file system fail until the returned function is called;
// place tells whether it concerns the place of one key only.
func (w *world) fault() (name string, key int, undo func()) {
	key = -1
	k := w.IntN(w.n)
	kinds := 8
	if os.Getuid() != 0 {
		kinds = 14
	}
	switch w.IntN(kinds) {
	case 8, 9, 10:
		if i, err := os.Lstat(w.places[k]); err != nil || !i.Mode().IsRegular() {
			return "", key, func() {}
		}
		return "entry out of reach", key, withMode(filepath.Dir(w.places[k]), mon.Pick[os.FileMode](w.C, 0o555, 0o555, 0o333, 0o444, 0))
	case 11, 12:
		if i, err := os.Lstat(w.places[k]); err != nil || !i.Mode().IsRegular() {
			return "", key, func() {}
		}
		return "entry cannot be read", key, withMode(w.places[k], 0)
	case 13:
		if _, err := os.Lstat(w.dir); err != nil {
			return "", key, func() {}
		}
		return "directory cannot be entered", key, withMode(w.dir, mon.Pick[os.FileMode](w.C, 0, 0o200))
	case 0, 1:
		return "no open", key, limit(syscall.RLIMIT_NOFILE, 3)
	case 2, 3, 4:
		n := w.Size(3000)
		return fmt.Sprintf("files up to %d bytes", n), key, limit(rlimitFsize, uint64(n))
	case 5:
		if _, err := os.Lstat(w.dir); err != nil {
			return "", key, func() {}
		}
		must(os.Rename(w.dir, w.base+"/away"))
		must(os.WriteFile(w.dir, []byte("in the way"), 0o644))
		return "directory is a file", key, func() {
			must(os.RemoveAll(w.dir))
			must(os.Rename(w.base+"/away", w.dir))
		}
	default:
		p := w.places[k]
		if p == "" {
			return "", key, func() {}
		}
		if _, err := os.Lstat(p); err != nil {
			return "", key, func() {}
		}
		must(os.Rename(p, w.base+"/entry"))
		name = "directory in place of an entry"
		if w.Chance(3) {
			name = "endless link in place of an entry"
			must(os.Symlink(p, p))
		} else {
			must(os.Mkdir(p, 0o755))
			must(os.WriteFile(p+"/x", nil, 0o644))
		}
		return name, k, func() {
			if i, err := os.Lstat(p); err != nil || i.Mode().IsRegular() {
				// the code replaced or removed what was there: that is what it holds now
				must(os.Remove(w.base + "/entry"))
				return
			}
			must(os.RemoveAll(p))
			must(os.Rename(w.base+"/entry", p))
		}
	}
}

// withMode changes the permissions of path until the returned function is called.
func withMode(path string, mode os.FileMode) (restore func()) {
	i, err := os.Stat(path)
	must(err)
	must(os.Chmod(path, mode))
	return func() {
		if err := os.Chmod(path, i.Mode().Perm()); !os.IsNotExist(err) {
			must(err)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// learn finds out where the entry of a key is stored.
func (w *world) learn(k int, before []string) {
	if w.places[k] != "" {
		return
	}
	old := map[string]bool{}
	for _, p := range before {
		old[p] = true
	}
	var fresh []string
	for _, p := range filesBelow(w.dir) {
		if !old[p] {
			fresh = append(fresh, p)
		}
	}
	if len(fresh) == 1 {
		w.places[k] = fresh[0]
	}
}

func (w *world) check(k int) {
	s := w.keys[k]
	v, ok, err := w.f.Get(ctx, k)
	w.Op("Get %d = %s,%v,%v", k, short(v), ok, err)
	switch {
	case ok && err != nil:
		w.Violate("Get(%d) reports an entry and the error %v", k, err)
	case ok && !s.has(v):
		w.Violate("Get(%d) = %s, possible are %s", k, short(v), list(s.may))
	case ok:
		s.sure(v)
	case !s.has(""):
		w.Violate("Get(%d) = %v,%v: the entry %s is lost", k, ok, err, list(s.may))
	default:
		s.sure("")
	}
}

func list(vs []string) string {
	var out []string
	for _, v := range vs {
		out = append(out, fmt.Sprintf("%q", short(v)))
	}
	return strings.Join(out, " or ")
}

func (w *world) step() {
	k := w.IntN(w.n)
	s := w.keys[k]
	name, at, undo := "", -1, func() {}
	var before []string
	op := w.IntN(12)
	if w.Chance(2) {
		name, at, undo = w.fault()
		if restore := undo; w.virtual {
			undo = func() {
				synctest.Wait() // clean-up meets the fault too
				restore()
			}
		}
	} else if op < 3 && w.places[k] == "" {
		before = filesBelow(w.dir)
	}
	if name != "" {
		mon.Count("calls under: "+strings.TrimRight(strings.Split(name, " up to")[0], " "), 1)
	}
	touched := []int{k}
	if w.virtual && w.Chance(2) {
		time.Sleep(time.Duration(w.IntN(2500)) * time.Millisecond)
	}
	switch op {
	case 0, 1, 2:
		v := w.value()
		err := w.f.Set(ctx, k, v, 24*time.Hour)
		undo()
		w.Op("[%s] Set %d %s = %v", name, k, short(v), err)
		if err == nil {
			s.sure(v)
			if name == "" {
				w.learn(k, before)
			}
		} else {
			if name == "" {
				w.Violate("Set(%d) reports %v without a fault", k, err)
			}
			mon.Count("errors reported by Set", 1)
			// half-written: the old value, or nothing; never part of a value
			s.also("")
		}
	case 3:
		kvs := map[int]string{}
		for i := w.IntN(w.n + 1); i > 0; i-- {
			kvs[w.IntN(w.n)] = w.value()
		}
		err := w.f.MSet(ctx, kvs, 24*time.Hour)
		undo()
		w.Op("[%s] MSet %d entries = %v", name, len(kvs), err)
		touched = nil
		if err != nil && name == "" {
			w.Violate("MSet reports %v without a fault", err)
		}
		for k, v := range kvs {
			touched = append(touched, k)
			if err == nil {
				w.keys[k].sure(v)
			} else {
				w.keys[k].also("")
				w.keys[k].also(v)
			}
		}
	case 4, 5, 6:
		v, ok, err := w.f.Get(ctx, k)
		undo()
		w.Op("[%s] Get %d = %s,%v,%v", name, k, short(v), ok, err)
		w.judgeGet(name, k, v, ok, err)
	case 7, 8:
		var keys []int
		for i := w.IntN(w.n + 2); i > 0; i-- {
			keys = append(keys, w.IntN(w.n))
		}
		vs, oks, err := w.f.MGet(ctx, keys...)
		undo()
		w.Op("[%s] MGet %v = %v,%v", name, keys, oks, err)
		touched = keys
		if err == nil && len(vs) == len(keys) && len(oks) == len(keys) {
			for i, k := range keys {
				w.judgeGet(name, k, vs[i], oks[i], nil)
			}
		}
	case 9, 10:
		var keys []int
		for i := w.IntN(w.n + 1); i > 0; i-- {
			keys = append(keys, w.IntN(w.n))
		}
		err := w.f.Delete(ctx, keys...)
		undo()
		w.Op("[%s] Delete %v = %v", name, keys, err)
		touched = keys
		if err != nil && name == "" {
			w.Violate("Delete reports %v without a fault", err)
		}
		for _, k := range keys {
			if err != nil {
				w.keys[k].also("")
			} else if name != "directory is a file" {
				w.keys[k].sure("")
			} else {
				w.keys[k].also("") // the entries were out of reach
			}
		}
	default:
		if at >= 0 {
			undo()
			name, undo = "", func() {}
		}
		err := w.f.Purge()
		undo()
		w.Op("[%s] Purge = %v", name, err)
		touched = nil
		if err != nil && name == "" {
			w.Violate("Purge reports %v without a fault", err)
		}
		for k, s := range w.keys {
			touched = append(touched, k)
			if err == nil && name != "directory is a file" {
				s.sure("")
			} else {
				s.also("")
			}
		}
	}
	if w.virtual {
		synctest.Wait()
	}
	if open := openBelow(w.base); len(open) > 0 {
		w.Violate("files left open: %v", open)
	}
	// what the calls reported is compared with what is there, sometimes later
	for _, k := range touched {
		if w.Chance(2) {
			w.check(k)
		}
	}
}

func (w *world) judgeGet(name string, k int, v string, ok bool, err error) {
	s := w.keys[k]
	switch {
	case ok && err != nil:
		w.Violate("Get(%d) reports an entry and the error %v", k, err)
	case ok && !s.has(v):
		w.Violate("Get(%d) = %s, possible are %s", k, short(v), list(s.may))
	case !ok && err == nil && !s.has("") && name != "directory is a file":
		w.Violate("Get(%d) reports no entry and no error, but the cache holds %s", k, list(s.may))
	case !ok && name == "" && !s.has(""):
		w.Violate("Get(%d) reports %v without a fault, the cache holds %s", k, err, list(s.may))
	}
	if ok {
		s.sure(v)
	} else if name == "" {
		s.sure("")
	}
	if err != nil {
		mon.Count("errors reported by Get", 1)
	}
}

func (w *world) run() {
	w.f = &cachex.FileStore[int, string]{Dir: w.dir, GCCycle: 100 * time.Hour}
	if w.virtual {
		w.f.GCCycle = time.Second
		defer synctest.Wait()
	}
	for k := 0; k < w.n; k++ {
		w.keys[k] = &state{may: []string{""}}
	}
	for i := 4 + w.IntN(16); i > 0; i-- {
		w.step()
	}
	for k := range w.n {
		w.check(k)
	}
	for k := range w.n {
		if err := w.f.Delete(ctx, k); err != nil {
			w.Violate("at the end Delete(%d) reports %v", k, err)
		}
		if v, ok, err := w.f.Get(ctx, k); ok || err != nil {
			w.Violate("at the end Get(%d) after Delete = %s,%v,%v", k, short(v), ok, err)
		}
	}
	if left := filesBelow(w.dir); len(left) > 0 {
		w.Violate("files left after every entry was deleted: %v", left)
	}
}

func TestC40(t *testing.T) {
	mon.Cases(t, "faults/seq", mon.Num(7000, 200000), func(c *mon.C) {
		base, err := os.MkdirTemp("", "c40")
		must(err)
		defer os.RemoveAll(base)
		w := &world{C: c, base: base, dir: base + "/d", n: 1 + c.IntN(4), keys: map[int]*state{}, places: map[int]string{}}
		if w.virtual = c.Chance(3); w.virtual {
			mon.Count("histories with clean-up", 1)
			synctest.Test(t, func(t *testing.T) { mon.Guard(c, w.run) })
		} else {
			w.run()
		}
		c.Distinct(w.n, w.virtual, c.TraceStrings())
	})
}
