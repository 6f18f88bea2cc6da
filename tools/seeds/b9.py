GR = "gogenerics/gcontainers/gring"
SX = "library/stringx"
GN = "gogenerics/gnumerics"
SEEDS = [
dict(id="c27-int64", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)''', '''var htmlEntityRegexp = regexp.MustCompile(`&#0*([0-9a-zA-Z]{1,12});*`)'''),
  (SX+"/stringx.go", '''strings.TrimRight(s[len("&#"):], ";"), base, 32)''', '''strings.TrimRight(s[len("&#"):], ";"), base, 64)''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	const s = "&#100000041;"
	if got := HTMLEntityToUTF8(s, 16); got != s && got != "\\uFFFD" {
		t.Fatalf("%s became %q", s, got)
	}
}
''', needs="a code beyond 32 bits whose lower bits are those of a character", breaks="an entity of no character becomes some other character"),
dict(id="c27-semicolon", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)''', '''var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]{1,6});*`)''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if got := HTMLEntityToUTF8("&#0020013;", 10); got != "\\u4e2d" {
		t.Fatalf("got %q", got)
	}
}
''', needs="an entity written with more than six digits, zeros in front", breaks="a code is read as a shorter one and its last digits stay in the text"),
dict(id="c20-unlink-round", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''	return r.Link(r.Move(n + 1))
''', '''	last := r.Next()
	for ; n > 0 && last != r; n-- {
		last = last.next // r itself stays
	}
	return r.Link(last)
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](4)
	r.Unlink(6) // once around and two more
	if r.Len() != 2 {
		t.Fatalf("%d elements left, want 2", r.Len())
	}
}
''', needs="a count larger than the ring", breaks="Unlink takes out the whole rest of the ring instead of n modulo its length"),
dict(id="c20-move-half", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''	case n > 0:
		for ; n > 0; n-- {
			r = r.next
		}
''', '''	case n > 0:
		start := r
		for left := n; left > 0; left-- {
			if r = r.next; r == start {
				left %= n - left + 1 // skip full rounds
				left++
			}
		}
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	for l := 1; l < 8; l++ {
		r := New[int](l)
		for i := 0; i < l; i++ {
			r.Value = i
			r = r.Next()
		}
		for n := 0; n < 40; n++ {
			if got := r.Move(n).Value; got != n%l {
				t.Fatalf("Move(%d) in a ring of %d reaches %d", n, l, got)
			}
		}
	}
}
''', needs="moving more than once around", breaks="Move ends at the wrong element"),
dict(id="c33-min-by", prop="C33", pkg=GN,
 edits=[(GN+"/math.go", '''	minC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if cmp(c, minC) {
			minC = c
		}
	}
	return minC
''', '''	minC = collection[0]
	for lo, hi := 1, l-1; lo <= hi; lo, hi = lo+1, hi-1 {
		if c := collection[lo]; cmp(c, minC) {
			minC = c
		} else if c := collection[hi]; cmp(c, minC) {
			minC = c
		}
	}
	return minC
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	got := MinBy([]int{9, 5, 7, 2}, func(a, b int) bool { return a < b })
	if got != 2 {
		t.Fatalf("got %d", got)
	}
}
''', needs="the smallest element opposite one that is also a new minimum", breaks="MinBy misses the smallest element"),
]
