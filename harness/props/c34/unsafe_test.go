// Monitor for C34: zero-copy conversions.
package c34

import (
	"bytes"
	"runtime"
	"strings"
	"sync"
	"testing"
	"unsafe"

	"github.com/miniLCT/gosb/hack/unsafex"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

func content(c *mon.C, max int) []byte {
	n := c.Idx
	if n >= 300 {
		n = c.Size(max)
		if b := c.Big(200, 1000*max); b > 0 {
			n = b
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Uint32())
	}
	if c.Chance(3) {
		for i := range b {
			b[i] = mon.Pick[byte](c, 0, 'a', 0xff, 0x80)
		}
	}
	return b
}

// viewOf checks a byte view of s.
func viewOf(c *mon.C, s, want string) []byte {
	b := unsafex.StringToSlice(s)
	if len(b) != len(want) || cap(b) != len(want) {
		c.Violate("StringToSlice of %d bytes has length %d and capacity %d", len(want), len(b), cap(b))
	}
	for i := range b {
		if b[i] != want[i] {
			c.Violate("StringToSlice of %d bytes has %#x at %d, want %#x", len(want), b[i], i, want[i])
		}
	}
	if len(b) > 0 && unsafe.SliceData(b) != unsafe.StringData(s) {
		c.Violate("StringToSlice of %d bytes does not share the storage", len(want))
	}
	return b
}

func stringOf(c *mon.C, b, want []byte) string {
	s := unsafex.SliceToString(b)
	if len(s) != len(want) {
		c.Violate("SliceToString of %d bytes has length %d", len(want), len(s))
	}
	for i := 0; i < len(s); i++ {
		if s[i] != want[i] {
			c.Violate("SliceToString of %d bytes has %#x at %d, want %#x", len(want), s[i], i, want[i])
		}
	}
	if len(b) > 0 && unsafe.StringData(s) != unsafe.SliceData(b) {
		c.Violate("SliceToString of %d bytes does not share the storage", len(want))
	}
	return s
}

// lasting keeps only views; what they were made from is garbage.
type lasting struct {
	b    []byte
	s    string
	want string
}

var views []lasting

func (l lasting) check(c *mon.C) {
	if l.b != nil && string(l.b) != l.want || l.b == nil && l.s != l.want {
		c.Violate("a view of %d bytes changed after garbage collections", len(l.want))
	}
}

//go:noinline
func fresh(b []byte) string { return string(append(make([]byte, 0, len(b)), b...)) }

func churn(c *mon.C) {
	for i := 0; i < 50; i++ {
		b := make([]byte, 1+c.IntN(600))
		for j := range b {
			b[j] = 0xee
		}
		runtime.KeepAlive(b)
	}
}

func TestView(t *testing.T) {
	mon.Cases(t, "view", mon.Num(60000, 2000000), func(c *mon.C) {
		max := mon.Pick(c, 16, 100, 600, 600)
		if c.Chance(500) {
			max = 1 << 20
		}
		data := content(c, max)
		want := string(data)
		c.Op("%d bytes", len(data))
		// inside a larger array and a larger string, with capacity to spare
		lead, tail := c.IntN(20), c.IntN(20)
		back := append(bytes.Repeat([]byte{0x11}, lead), data...)
		back = append(back, bytes.Repeat([]byte{0x22}, tail)...)
		b := back[lead : lead+len(data)]
		if c.Chance(2) {
			b = b[:len(b):len(b)]
		}
		if len(b) == 0 && c.Chance(2) {
			b = nil
		}
		s := stringOf(c, b, data)
		// the string follows the bytes: it is the same storage
		if len(b) > 0 {
			i := c.IntN(len(b))
			b[i] ^= 0x5a
			if s[i] != b[i] {
				c.Violate("SliceToString of %d bytes is a copy", len(b))
			}
			b[i] ^= 0x5a
		}
		sub := strings.Repeat("\x33", lead) + want + strings.Repeat("\x44", tail)
		v := viewOf(c, sub[lead:lead+len(want)], want)
		// appending to the view moves away and changes nothing
		grown := append(v, 'X', 'Y')
		if len(grown) != len(want)+2 || string(grown[:len(want)]) != want || sub[lead+len(want):] != strings.Repeat("\x44", tail) {
			c.Violate("appending to a view of %d bytes changed what follows it", len(want))
		}
		// there and back
		if got := unsafex.SliceToString(unsafex.StringToSlice(want)); got != want || len(want) > 0 && unsafe.StringData(got) != unsafe.StringData(want) {
			c.Violate("there and back: %d bytes become %d", len(want), len(got))
		}
		if got := unsafex.StringToSlice(unsafex.SliceToString(b)); !bytes.Equal(got, b) {
			c.Violate("back and there: %d bytes become %d", len(b), len(got))
		}
		if !bytes.Equal(back[lead:lead+len(data)], data) {
			c.Violate("the bytes changed")
		}
		// used as a key and in comparisons
		m := map[string]int{s: 1}
		if m[want] != 1 || s != want {
			c.Violate("a view of %d bytes does not compare equal", len(want))
		}
		// views whose origin nobody else holds
		l := lasting{want: want}
		if c.Chance(2) {
			l.b = unsafex.StringToSlice(fresh(data))
			if l.b == nil {
				l.b = []byte{}
			}
		} else {
			l.s = unsafex.SliceToString(append(make([]byte, 0, len(data)+c.IntN(3)), data...))
		}
		if len(views) < 128 {
			views = append(views, l)
		} else {
			i := c.IntN(128)
			views[i].check(c)
			views[i] = l
		}
		if c.Chance(300) {
			churn(c)
			runtime.GC()
			churn(c)
			for _, l := range views {
				l.check(c)
			}
			mon.Count("views checked after a collection", len(views))
		}
		if len(want) > 0 {
			c.Distinct(want)
		}
		mon.Max("bytes", len(want))
		c.SampleTrace()
	})
}

func TestReaders(t *testing.T) {
	mon.Cases(t, "readers", mon.Num(200, 8000), func(c *mon.C) {
		data := content(c, 2000)
		want := string(data)
		s := fresh(data)
		b := append([]byte(nil), data...)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					for i := 0; i < 30; i++ {
						mon.Beat()
						viewOf(c, s, want)
						stringOf(c, b, data)
						if i == 10 && g == 0 {
							runtime.GC()
						}
					}
				})
			}()
		}
		wg.Wait()
		mon.Count("parallel views", 240)
		c.Distinct(want)
	})
}
