CX = "library/cachex"
SEEDS = [
dict(id="c39-gc-status", prop="C39", pkg=CX,
 edits=[(CX+"/file.go", '''		defer func() {
			f.lastGC.Store(time.Now().UnixNano())
			f.gcStatus.Store(false)
			_ = recover()
		}()
		f.scanExpire()
''', '''		defer func() {
			_ = recover()
		}()
		f.scanExpire()
		f.lastGC.Store(time.Now().UnixNano())
		f.gcStatus.Store(false)
''')],
 demo='\npackage cachex\n\nimport (\n\t"context"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n)\n\ntype seededVal struct{ Bad bool }\n\nfunc (v *seededVal) UnmarshalJSON(b []byte) error {\n\tif string(b) == "{\\n    \\"Bad\\": true\\n  }" {\n\t\tpanic("cannot decode")\n\t}\n\treturn nil\n}\n\nfunc TestSeededDemo(t *testing.T) {\n\tf := &FileStore[string, seededVal]{Dir: t.TempDir(), GCCycle: time.Second}\n\tctx := context.Background()\n\tfiles := func() (n int) {\n\t\tfilepath.Walk(f.Dir, func(p string, i os.FileInfo, err error) error {\n\t\t\tif err == nil && !i.IsDir() {\n\t\t\t\tn++\n\t\t\t}\n\t\t\treturn nil\n\t\t})\n\t\treturn n\n\t}\n\tf.Set(ctx, "a", seededVal{true}, time.Hour)\n\tfor i := 0; i < 3; i++ { // clean-up meets the bad entry\n\t\ttime.Sleep(1100 * time.Millisecond)\n\t\tf.Delete(ctx, "none")\n\t}\n\ttime.Sleep(200 * time.Millisecond)\n\tf.Set(ctx, "a", seededVal{}, time.Hour)\n\tf.Set(ctx, "b", seededVal{}, time.Millisecond)\n\tfor i := 0; i < 5; i++ {\n\t\ttime.Sleep(1100 * time.Millisecond)\n\t\tf.Get(ctx, "a")\n\t}\n\ttime.Sleep(200 * time.Millisecond)\n\tif n := files(); n != 1 {\n\t\tt.Fatalf("%d files, an expired entry is never cleaned up", n)\n\t}\n}\n', needs="a clean-up that meets an entry whose decoding panics", breaks="no clean-up ever runs again, expired files stay for ever"),
dict(id="c38-gc-idle", prop="C38", pkg=CX,
 edits=[(CX+"/file.go", '''			f.lastGC.Store(time.Now().UnixNano())
			f.gcStatus.Store(false)
			_ = recover()
		}()
		f.scanExpire()
	}()
}

func (f *FileStore[K, V]) scanExpire() {
	_ =''', '''			f.gcStatus.Store(false)
			_ = recover()
		}()
		if f.scanExpire() > 0 {
			f.lastGC.Store(time.Now().UnixNano())
		}
	}()
}

// scanExpire returns how many entries it found expired
func (f *FileStore[K, V]) scanExpire() (removed int) {
	_ ='''), (CX+"/file.go", '''		_, _, _ = f.readFile(path)
		return nil
	})
}
''', '''		if _, ok, _ := f.readFile(path); !ok {
			removed++
		}
		return nil
	})
	return removed
}
''')],
 demo='''
package cachex

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

var seededReads atomic.Int64

type seededVal struct{}

func (v *seededVal) UnmarshalJSON(b []byte) error {
	seededReads.Add(1)
	return nil
}

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, seededVal]{Dir: t.TempDir(), GCCycle: 3 * time.Second}
	ctx := context.Background()
	for i := 0; i < 10; i++ {
		f.Set(ctx, i, seededVal{}, time.Hour)
	}
	time.Sleep(3200 * time.Millisecond)
	for i := 0; i < 10; i++ {
		f.Get(ctx, 100)
		time.Sleep(50 * time.Millisecond)
	}
	if n := seededReads.Load(); n > 20 {
		t.Fatalf("%d entries read by clean-ups in one cycle, 10 are there", n)
	}
}
''', needs="a clean-up that finds nothing to remove", breaks="after the first cycle every call goes through the whole directory"),
dict(id="c38-set-count", prop="C38", pkg=CX,
 edits=[(CX+"/file.go", '''	_, err = os.Stat(dir)
	if err != nil && os.IsNotExist(err) {
		_ = os.MkdirAll(dir, 0777)
	}
''', '''	if _, err = os.Stat(dir); err != nil && os.IsNotExist(err) {
		if e := os.MkdirAll(dir, 0777); e != nil {
			// perhaps the directories are used up, make room
			f.scanExpireLocked()
			_ = os.MkdirAll(dir, 0777)
		} else if n := f.lastGC.Load(); n > 0 && time.Now().UnixNano()-n > int64(time.Minute) {
			f.scanExpireLocked()
		}
	}
'''), (CX+"/file.go", '''func (f *FileStore[K, V]) scanExpire() {
''', '''// scanExpireLocked is scanExpire for callers that hold mu
func (f *FileStore[K, V]) scanExpireLocked() {
	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !f.isCacheFile(path) {
			return nil
		}
		if _, _, dead, _ := f.tryReadFile(path); dead {
			_ = os.Remove(path)
		}
		return nil
	})
}

func (f *FileStore[K, V]) scanExpire() {
''')],
 demo='''
package cachex

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

var seededReads atomic.Int64

type seededVal struct{}

func (v *seededVal) UnmarshalJSON(b []byte) error {
	seededReads.Add(1)
	return nil
}

func TestSeededDemo(t *testing.T) {
	f := &FileStore[int, seededVal]{Dir: t.TempDir(), GCCycle: 3 * time.Hour}
	ctx := context.Background()
	for i := 0; i < 10; i++ {
		f.Set(ctx, i, seededVal{}, time.Hour)
	}
	time.Sleep(62 * time.Second)
	for i := 10; i < 20; i++ {
		f.Set(ctx, i, seededVal{}, time.Hour)
	}
	if n := seededReads.Load(); n > 20 {
		t.Fatalf("%d entries read although no cycle is over", n)
	}
}
''', needs="new keys written more than a minute after the last clean-up with a longer GCCycle", breaks="every write of a new key goes through the whole directory while holding the lock"),
]
