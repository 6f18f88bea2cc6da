SY = "gogenerics/gconcurrent/sync"
SEEDS = [
dict(id="c01-expunged-unit", prop="C01", pkg=SY,
 edits=[(SY+"/map.go", '''var expunged = unsafe.Pointer(new(any))
''', '''var expunged = unsafe.Pointer(new(struct{}))
''')],
 demo='''
package sync

import "testing"

func TestSeededDemo(t *testing.T) {
	var m Map[int, struct{}]
	for i := 0; i < 4; i++ {
		m.Store(i, struct{}{})
		m.Load(i)
		m.Load(100)
	}
	n := 0
	for i := 0; i < 4; i++ {
		if _, ok := m.Load(i); ok {
			n++
		}
	}
	if n != 4 {
		t.Fatalf("%d of 4 keys are there", n)
	}
}
''', needs="a value type without size", breaks="stored values count as deleted"),
]
