# Wraps, buffers with a limit, fast paths, caches of one entry.
CR = "library/cryptox/cryptox.go"
SX = "library/stringx/stringx.go"
MR = "gogenerics/gconcurrent/mr/mr.go"
RB = "gogenerics/gds/grbt/rbt.go"
SEEDS = [
dict(id="c23-ctr32", prop="C23", pkg="library/cryptox",
 edits=[(CR, '''	stream := cipher.NewCTR(block, iv)
	stream.XORKeyStream(ciphertext[aes.BlockSize:], plainText)
''', '''	xorKeyStream(block, iv, ciphertext[aes.BlockSize:], plainText)
'''), (CR, '''	stream := cipher.NewCTR(block, iv)
	plainText := ciphertext
	// XORKeyStream can work in-place if the two arguments are the same.
	stream.XORKeyStream(plainText, ciphertext)
''', '''	plainText := ciphertext
	xorKeyStream(block, iv, plainText, ciphertext)
'''), (CR, '''func mustNewCipher(''', '''// xorKeyStream works in-place if dst and src are the same.
func xorKeyStream(block cipher.Block, iv, dst, src []byte) {
	var counter, pad [aes.BlockSize]byte
	copy(counter[:], iv)
	low := counter[aes.BlockSize-4:]
	for n := binary.BigEndian.Uint32(low); len(src) > 0; n++ {
		binary.BigEndian.PutUint32(low, n)
		block.Encrypt(pad[:], counter[:])
		i := 0
		for ; i < len(pad) && i < len(src); i++ {
			dst[i] = src[i] ^ pad[i]
		}
		dst, src = dst[i:], src[i:]
	}
}

func mustNewCipher('''), (CR, '''	"encoding/base64"
''', '''	"encoding/base64"
	"encoding/binary"
''')],
 demo='''
package cryptox

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	text := bytes.Repeat([]byte("x"), 64)
	for _, last := range []byte{0, 0xff} {
		iv := bytes.Repeat([]byte{last}, 16)
		block, _ := aes.NewCipher(key)
		out := make([]byte, 64)
		cipher.NewCTR(block, iv).XORKeyStream(out, text)
		got, err := AESCTRDecrypt(key, []byte(hex.EncodeToString(append(iv, out...))))
		if err != nil || !bytes.Equal(got, text) {
			t.Fatal(last, got, err)
		}
	}
}
''', needs="a first counter block that ends with 32 set bits or nearly so", breaks="not standard CTR; other implementations cannot read it"),

dict(id="c28-scanner", prop="C28", pkg="library/stringx",
 edits=[(SX, '''	text = prefix + strings.ReplaceAll(text, "\\n", "\\n"+prefix)
	if has {
		return text[:len(text)-len(prefix)]
	}
	return text
''', '''	if text == "" {
		return prefix
	}
	var out strings.Builder
	for lines := bufio.NewReaderSize(strings.NewReader(text), 1<<15); ; {
		line, err := lines.ReadSlice('\\n')
		if len(line) > 0 {
			out.WriteString(prefix)
			out.Write(line)
		}
		if err == io.EOF {
			break
		}
	}
	if strings.HasSuffix(out.String(), "\\n") && !has {
		return strings.TrimSuffix(out.String(), "\\n")
	}
	return out.String()
'''), (SX, '''import (
''', '''import (
	"bufio"
	"io"
''')],
 demo='''
package stringx

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for _, n := range []int{0, 1, 100, 40000} {
		line := strings.Repeat("x", n)
		if got := Indent(line+"\\n"+line, "> "); got != "> "+line+"\\n> "+line && n > 0 {
			t.Fatal(n, strings.Count(got, ">"))
		}
	}
}
''', needs="a line of more than 32768 bytes", breaks="the prefix also stands inside the line"),

dict(id="c04-typed-nil", prop="C04", pkg="gogenerics/gconcurrent/mr",
 edits=[(MR, '''		if err != nil {
			retErr.Set(err)
		} else {
''', '''		if v := reflect.ValueOf(err); v.IsValid() && (v.Kind() != reflect.Ptr || !v.IsNil()) {
			retErr.Set(err)
		} else {
'''), (MR, '''import (
''', '''import (
	"reflect"
''')],
 demo='''
package mr

import "testing"

type codeError struct{ code int }

func (e *codeError) Error() string { return "code" }

func TestSeededDemo(t *testing.T) {
	for _, want := range []error{&codeError{}, (*codeError)(nil)} {
		_, err := MapReduce(func(source chan<- int) { source <- 1 }, func(_ int, _ Writer[int], cancel func(error)) {
			cancel(want)
		}, func(pipe <-chan int, w Writer[int], _ func(error)) {
			for range pipe {
			}
			w.Write(1)
		})
		if err != want {
			t.Fatal(err)
		}
	}
}
''', needs="cancelling with an error that is a nil pointer", breaks="another error is returned"),

dict(id="c16-mirror", prop="C16", pkg="gogenerics/gds/grbt",
 edits=[(RB, '''					s = x.parent.left
				}

				s.color = x.parent.color
				x.parent.color = black
''', '''					s = x.parent.left
				}

				s.color, x.parent.color = black, black
''')],
 demo='''
package rbt

import (
	"math/rand"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	less := func(a, b int) bool { return a < b }
	for seed := int64(0); seed < 200; seed++ {
		tree := New[int, int](less)
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < 200; i++ {
			tree.Insert(i, i)
		}
		for i := 0; i < 1000; i++ {
			tree.Delete(r.Intn(200))
			tree.Insert(r.Intn(200), 0)
		}
		var walk func(n *rbNode[int, int]) int
		walk = func(n *rbNode[int, int]) int {
			if n == tree.sentinel || n == nil {
				return 0
			}
			if !n.color && (!n.left.color || !n.right.color) {
				t.Fatal("red below red")
			}
			l, rr := walk(n.left), walk(n.right)
			if l != rr {
				t.Fatal("black heights", l, rr)
			}
			if n.color {
				l++
			}
			return l
		}
		walk(tree.root)
	}
}
''', needs="deleting below a right child whose parent is red", breaks="the paths through it get one black entry too many"),

dict(id="c11-hitmap-drop", prop="C11", pkg="library/cachex",
 edits=[("library/cachex/cache.go", '''	result := make(map[K]V, len(mr.keys))
	mr.RangeHit(func(key K, val V) bool {
		result[key] = val
		return true
	})
	return result
''', '''	result := make(map[K]V, len(mr.keys))
	mr.Range(func(key K, hit bool, val V) bool {
		if hit {
			result[key] = val
		} else {
			delete(result, key) // no longer there
		}
		return true
	})
	return result
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](4, 1)
	_ = c.Set(ctx, "a", 1, time.Hour)
	r, _ := MGet[string, int](ctx, c, "a", "a")
	if len(r.HitKeys()) != 1 || len(r.HitMapValues()) != 1 {
		t.Fatal(r.HitKeys(), r.HitMapValues())
	}
}
''', needs="a key asked for twice that is there only the first time", breaks="the hit map lacks a key the hit list has"),

dict(id="c18-len16", prop="C18", pkg="gogenerics/gcontainers/glist",
 edits=[("gogenerics/gcontainers/glist/list.go", '''func (l *List[T]) Len() int { return l.len }
''', '''func (l *List[T]) Len() int { return int(uint16(l.len)) } // lists are short
''')],
 demo='''
package glist

import "testing"

func TestSeededDemo(t *testing.T) {
	l := New[int]()
	for i := 0; i < 70000; i++ {
		l.PushBack(i)
	}
	if l.Len() != 70000 {
		t.Fatal(l.Len())
	}
}
''', needs="more than 65535 elements", breaks="the length starts over"),

dict(id="c29-last-name", prop="C29", pkg="library/stringx",
 edits=[(SX, '''	runes := []rune(name)
	var i int
	for k, v := range runes {
''', '''	if last, ok := lastLint.Load().([2]string); ok && strings.EqualFold(last[0], name) {
		return last[1] // usually converted several times in a row
	}
	var i int
	runes := []rune(name)
	for k, v := range runes {
'''), (SX, '''	r := string(toInitialisms(runes[i:]))
	return r
''', '''	r := string(toInitialisms(runes[i:]))
	lastLint.Store([2]string{name, r})
	return r
'''), (SX, '''func LintCamelString(''', '''var lastLint atomic.Value

func LintCamelString('''), (SX, '''import (
''', '''import (
	"sync/atomic"
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if a, b := LintCamelString("fooBar"), LintCamelString("foobar"); a != "FooBar" || b != "Foobar" {
		t.Fatal(a, b)
	}
}
''', needs="two names in a row that differ only in case", breaks="the second gets the first one's conversion"),

dict(id="c31-float32-round", prop="C31", pkg="hack/fastrand",
 edits=[("hack/fastrand/fastrand.go", '''	// EQ
	return float32(Int31n(1<<24)) / (1 << 24)
''', '''	return float32(Float64())
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	old32, old64 := Uint32, Uint64
	defer func() { Uint32, Uint64 = old32, old64 }()
	Uint32 = func() uint32 { return 1<<32 - 1 }
	Uint64 = func() uint64 { return 1<<64 - 1 }
	if f := Float32(); f < 0 || f >= 1 {
		t.Fatal(f)
	}
}
''', needs="a draw within 2^-25 of 1", breaks="Float32 returns 1"),

dict(id="c19-iter-feed", prop="C19", pkg="gogenerics/gcontainers/gqueue",
 edits=[("gogenerics/gcontainers/gqueue/fifo.go", '''	ch := make(chan T, q.length)
	defer close(ch)
	for {
		val, err := q.Pop()
		if err != nil {
			break
		}
		ch <- val
	}
	return ch
''', '''	const room = 512
	ch := make(chan T, room)
	feed := func() {
		defer close(ch)
		for {
			val, err := q.Pop()
			if err != nil {
				break
			}
			ch <- val
		}
	}
	if q.length <= room {
		feed()
	} else {
		go feed() // no need for a channel that large
	}
	return ch
''')],
 demo='''
package gqueue

import "testing"

func TestSeededDemo(t *testing.T) {
	for _, n := range []int{3, 600, 5000} {
		q := New[int]()
		for i := 0; i < n; i++ {
			_ = q.Push(i)
		}
		ch := Iterator(q)
		if q.Len() != 0 {
			t.Fatal(n, q.Len())
		}
		i := 0
		for v := range ch {
			if v != i {
				t.Fatal(v)
			}
			i++
		}
	}
}
''', needs="more than 512 elements", breaks="Iterator does not leave the queue empty, later calls race with it"),

dict(id="c30-symbol-table", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", '''		} else if (c >= '!' && c <= '/') ||
			(c >= ':' && c <= '@') ||
			(c >= '[' && c <= '`') ||
			(c >= '{' && c <= '~') {
			r |= S
		} else {
''', '''		} else if unicode.IsPunct(c) || unicode.IsSymbol(c) {
			r |= S
		} else {
'''), ("library/password/password.go", '''package password
''', '''package password

import "unicode"
''')],
 demo='''
package password

import "testing"

func TestSeededDemo(t *testing.T) {
	for c := rune('!'); c < 0x3000; c++ {
		if ok := CheckPassword("a"+string(c)+"a", L|S, 0); ok && c > '~' {
			t.Fatalf("%q", c)
		}
	}
	if !CheckPassword("a-a", L|S, 0) {
		t.Fatal()
	}
}
''', needs="a symbol outside ASCII", breaks="it is accepted"),

dict(id="c32-array-zero", prop="C32", pkg="gogenerics/gcontainers/gpool",
 edits=[("gogenerics/gcontainers/gpool/syncpool.go", '''	return p.pool.Get().([]T)
''', '''	x := p.pool.Get().([]T)
	if len(x) == cap(x) {
		x = x[:0:len(x)] // a full one is of no use
	}
	return x
''')],
 demo='''
package gpool

import "testing"

func TestSeededDemo(t *testing.T) {
	p := NewArrayPool[int](4)
	for i := 0; i < 200; i++ {
		x := append(p.Get()[:0], 1, 2, 3, 4)
		p.Put(x[:4:4])
		if y := p.Get(); len(y) != 4 && cap(y) == 4 && y[:4][3] == 4 {
			t.Fatal(y)
		}
	}
}
''', needs="a slice put back with its length equal to its capacity", breaks="it comes back with another length"),

dict(id="c21-union-alias", prop="C21", pkg="gogenerics/gcontainers/gset",
 edits=[], demo="", needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
