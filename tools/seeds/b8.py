SK = "gogenerics/gds/gskiplist"
CX = "library/cachex"
GR = "gogenerics/gcontainers/gring"
GL = "gogenerics/gcontainers/glist"
SX = "library/stringx"
SEEDS = [
dict(id="c36-delete-cap", prop="C36", pkg=SK,
 edits=[(SK+"/skiplist.go", '''					t.maxLevel = index - 1
''', '''					// the list grows by one level at a time again
					t.maxLevel, t.maxNewLevel = index-1, index+1
''')],
 demo='''
package gskiplist

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	build := func(n int) time.Duration {
		best := time.Hour
		for r := 0; r < 3; r++ {
			l := New[int, int]()
			for i := 0; i < 100; i++ {
				l.Insert(i, i)
			}
			for i := 0; i < 100; i++ {
				l.Delete(i)
			}
			for i := 0; i < n; i++ {
				l.Insert(n-i, i) // always the first, cheap even in a linked list
			}
			start := time.Now()
			for i := 0; i < 500; i++ {
				l.Find(n - i%10)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	small, big := build(500), build(32000)
	if big > 20*small {
		t.Fatalf("500 searches take %v in 500 entries, %v in 32000", small, big)
	}
}
''', needs="a list that was emptied and is filled again", breaks="after the top level was emptied once new entries stay flat, searches walk all entries"),
dict(id="c40-delete-last", prop="C40", pkg=CX,
 edits=[(CX+"/file.go", '''	var errs []error
	for _, k := range keys {
		fp := f.getFilePath(k)
''', '''	var lastErr error
	for _, k := range keys {
		fp := f.getFilePath(k)
'''), (CX+"/file.go", '''		if err == nil || os.IsNotExist(err) {
			continue
		}
		errs = append(errs, err)
	}
	if len(errs) == 0 {
		return nil
	}
	return errors.Join(errs...)
}

// gc ''', '''		if os.IsNotExist(err) {
			err = nil
		}
		lastErr = err
	}
	return lastErr
}

// gc ''')],
 demo='''
package cachex

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	f := &FileStore[string, string]{Dir: t.TempDir()}
	ctx := context.Background()
	f.Set(ctx, "b", "x", time.Hour)
	fp := f.getFilePath("a")
	os.MkdirAll(filepath.Join(fp, "x"), 0777)
	if err := f.Delete(ctx, "a", "b"); err == nil {
		t.Fatal("Delete reports success although the first key could not be deleted")
	}
}
''', needs="a multi-key Delete in which one key fails and a later one succeeds", breaks="Delete reports success although an entry is still there"),
dict(id="c20-link-self", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''	if s != nil {
		p := s.Prev()
''', '''	if s != nil && s != r {
		p := s.Prev()
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](4)
	rest := r.Link(r) // takes out everything between r and r
	if r.Len() != 1 || rest.Len() != 3 {
		t.Fatalf("Link(r) left %d and gave %d", r.Len(), rest.Len())
	}
}
''', needs="an element linked to itself in a ring of several", breaks="nothing is taken out of the ring"),
dict(id="c18-move-neighbour", prop="C18", pkg=GL,
 edits=[(GL+"/list.go", '''	if e == at {
		return
	}
	e.prev.next = e.next
''', '''	if e == at || e.list != at.list {
		return
	}
	e.prev.next = e.next
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	l.PushBack(1)
	b := l.PushBack(2)
	l.MoveToFront(b)
	if l.Front() != b {
		t.Fatal("MoveToFront did nothing")
	}
}
''', needs="", breaks="moves to the ends are lost"),
dict(id="c27-entity-count", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''		if i == 0 {
			continue
		}
''', '''		if i == 0 || s == "" {
			continue
		}
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	for _, s := range []string{`\\\\u`, `a\\\\u\\\\u41`, `x\\\\u`} {
		if got := CodePointToUTF8(s, 16); len(got) < 2 || got[0] != s[0] {
			t.Fatalf("%q became %q", s, got)
		}
	}
	if got := CodePointToUTF8("a\\\\u", 16); got != "a\\\\u" {
		t.Fatalf("%q", got)
	}
}
''', needs="a mark without a code at the end or directly before another mark", breaks="the mark disappears from the text"),
]
