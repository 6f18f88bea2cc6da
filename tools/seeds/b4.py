B = "library/bitset"
SEEDS=[
dict(id="c13-clear-alloc", prop="C13", pkg=B,
 edits=[(B+"/bitset.go", '''	b.mu.Lock()
	for i := range b.set {
		b.set[i] = 0
	}
	b.mu.Unlock()
''', '''	// allocate outside of the lock
	fresh := make([]byte, b.Size()/8)
	b.mu.Lock()
	b.set = fresh
	b.mu.Unlock()
''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		b := New(make([]byte, 1<<16)...)
		start, done := make(chan bool), make(chan bool)
		go func() {
			<-start
			for j := 0; j < i%100; j++ {
				b.Size()
			}
			b.Set(1<<19, true)
			close(done)
		}()
		close(start)
		b.Clear()
		<-done
		if n := b.Size(); n != 1<<19+8 {
			t.Fatal(i, "size after Set and Clear:", n)
		}
	}
}
''', needs="a Set that grows the set between Clear's allocation and its locking", breaks="the growth and the bit set by another goroutine are lost"),
]
