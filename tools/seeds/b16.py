# Bugs of machines with 32-bit words.
SEEDS = [
dict(id="c31-int63-word", prop="C31", pkg="hack/fastrand", arch="386",
 edits=[("hack/fastrand/fastrand.go", '''	return int64(Uint64() & (1<<63 - 1))
''', '''	return int64(uint(Uint64()) << 1 >> 1) // clear the sign bit
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	var or int64
	for i := 0; i < 200; i++ {
		or |= Int63()
	}
	if or != 1<<63-1 {
		t.Fatalf("bits seen in 200 values: %x", or)
	}
}
''', needs="a machine with 32-bit words", breaks="Int63 gives 31 random bits and Int63n of larger bounds never reaches most of its range"),
dict(id="c12-count-word", prop="C12", pkg="library/bitset", arch="386",
 edits=[("library/bitset/bitset.go", '''	for _, v := range b.set[sgi+1 : egi] {
		n += bits.OnesCount8(v)
	}
''', '''	mid := b.set[sgi+1 : egi]
	for ; len(mid) >= 8; mid = mid[8:] {
		var w uint // eight bytes at a time
		for _, v := range mid[:8] {
			w = w<<8 | uint(v)
		}
		n += bits.OnesCount(w)
	}
	for _, v := range mid {
		n += bits.OnesCount8(v)
	}
''')],
 demo='''
package bitset

import "testing"

func TestSeededDemo(t *testing.T) {
	b := New(255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255)
	if n := b.Count(0, -1); n != 96 {
		t.Fatal(n)
	}
}
''', needs="a machine with 32-bit words and a set of at least ten bytes", breaks="Count forgets half of the bits in the middle"),
]
