GR = "gogenerics/gcontainers/gring"
SEEDS = [
dict(id="c20-link-zero", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''		p := s.Prev()
''', '''		p := s.prev
		if p == nil {
			p = s // a ring of one
		}
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	// the zero value is a ring of one: linking it to itself must leave it so
	var z Ring[int]
	z.Link(&z)
	if z.Len() != 1 || z.Prev() != &z {
		t.Fatal("zero ring linked to itself")
	}
	// the first Move of a zero ring, too
	var y Ring[int]
	if y.Move(-1) != &y || y.Move(3) != &y {
		t.Fatal("zero ring moved")
	}
	r := New[int](2)
	var s Ring[int]
	r.Link(&s)
	if r.Len() != 3 || r.Move(-2) != &s {
		t.Fatalf("Len %d", r.Len())
	}
}
''', needs="", breaks=""),
dict(id="c20-prev-zero", prop="C20", pkg=GR,
 edits=[(GR+"/ring.go", '''	if r.next == nil {
		return r.init()
	}
	return r.prev
''', '''	if r.prev == nil {
		r.prev = r
	}
	return r.prev
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	var z, s Ring[int]
	z.Prev()
	z.Link(&s)
	if z.Len() != 2 || s.Prev() != &z || z.Prev() != &s {
		t.Fatalf("Len %d", z.Len())
	}
	var y Ring[int]
	if y.Prev() != &y || y.Move(1) != &y || y.Len() != 1 {
		t.Fatal("zero ring")
	}
	var a, b Ring[int]
	b.Value = 1
	a.Link(&b)
	if a.Len() != 2 || a.Next() != &b || a.Prev() != &b || b.Next() != &a {
		t.Fatal("two zero rings linked")
	}
}
''', needs="a ring of one made from the zero value, joined to another before Next was called on it", breaks="the backward links of the joined ring are wrong"),
]
