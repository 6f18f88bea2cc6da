// Monitor for C30: the password policy.
package c30

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/library/password"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

const (
	lower   = "abcdefghijklmnopqrstuvwxyz"
	upper   = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	symbols = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
)

// want is the policy, written from the property.
func want(pw string, flag, minLen int, maxLen ...int) bool {
	if len(pw) < minLen || len(maxLen) > 0 && len(pw) > maxLen[0] {
		return false
	}
	for i := 0; i < len(pw); i++ {
		if pw[i] <= ' ' || pw[i] >= 0x7f {
			return false
		}
	}
	has := func(set string) bool { return strings.ContainsAny(pw, set) }
	n, letter, l, u, s := flag&1 != 0, flag&(2|4|8) != 0, flag&4 != 0, flag&8 != 0, flag&16 != 0
	return has(digits) == n && has(symbols) == s && has(lower+upper) == letter &&
		(!l || has(lower)) && (!u || has(upper))
}

func gen(c *mon.C) string {
	sets := []string{}
	all := []string{lower, upper, digits, symbols}
	mask := 1 + c.IntN(15)
	for i, s := range all {
		if mask>>i&1 != 0 {
			if c.Chance(4) { // one character of the class only, often from an end
				s = mon.Pick(c, s[:1], s[len(s)-1:], string(s[c.IntN(len(s))]))
			}
			sets = append(sets, s)
		}
	}
	var b []byte
	n := max(c.Size(mon.Pick(c, 4, 12, 12, 100)), c.Big(400, 5000))
	for len(b) < n {
		s := sets[c.IntN(len(sets))]
		b = append(b, s[c.IntN(len(s))])
	}
	if c.Chance(6) { // one of another class somewhere
		s := all[c.IntN(4)]
		i := c.IntN(len(b) + 1)
		b = append(b[:i], append([]byte{s[c.IntN(len(s))]}, b[i:]...)...)
	}
	if c.Chance(5) { // something outside the policy
		bad := mon.Pick(c, " ", "\t", "\n", "\x00", "\x1f", "\x7f", "\x80", "\xff", "é", "中", "😀", "\u00a0", "\u0661", "\uff11", "\u0131", "\u212a", "\xc3", "\u2028", "\ufffd")
		i := mon.Pick(c, 0, len(b), c.IntN(len(b)+1))
		b = append(b[:i], append([]byte(bad), b[i:]...)...)
	}
	return string(b)
}

func kinds(pw string) (f int) {
	for i, s := range []string{digits, lower + upper, lower, upper, symbols} {
		if strings.ContainsAny(pw, s) {
			f |= 1 << i
		}
	}
	return
}

func flagFor(c *mon.C, pw string) int {
	f := kinds(pw)
	switch c.IntN(6) {
	case 0:
		return c.IntN(256)
	case 1: // close
		f ^= 1 << c.IntN(5)
	case 2: // letters asked for in another way
		if f&2 != 0 {
			f = f&^(2|4|8) | mon.Pick(c, 2, 4, 8, 6, 10, 12, 14)
		}
	case 3:
		if f&(4|8) != 0 {
			f &^= 2
		}
	}
	if c.Chance(3) {
		f |= c.IntN(8) << 5
	}
	return f
}

func TestC30(t *testing.T) {
	mon.Cases(t, "policy", mon.Num(300000, 8000000), func(c *mon.C) {
		var pw string
		var flag int
		switch {
		case c.Idx < 256*32: // every single byte under every flag
			pw, flag = string([]byte{byte(c.Idx)}), c.Idx>>8
		case c.Idx < 2*256*32: // every byte after a compliant start
			i := c.Idx - 256*32
			pw, flag = mon.Pick(c, "a", "A", "0", "~", "aA", "aA0~")+string([]byte{byte(i)})+mon.Pick(c, "", "z"), i>>8
		default:
			pw = gen(c)
			flag = flagFor(c, pw)
		}
		minLen := mon.Pick(c, 0, 0, 1, -1, len(pw), len(pw)-1, len(pw)+1, c.IntN(20))
		if c.Chance(30) {
			minLen = mon.Pick(c, math.MinInt, math.MaxInt, math.MaxInt>>31, c.DictInt())
		}
		var maxLen []int
		if c.Chance(2) {
			maxLen = []int{mon.Pick(c, len(pw), len(pw), len(pw)-1, len(pw)+1, 20, math.MaxInt, 0, -1, c.IntN(30))}
		}
		c.Op("CheckPassword(%q, %#x, %d, %v)", pw, flag, minLen, maxLen)
		got := password.CheckPassword(pw, password.Flag(flag), minLen, maxLen...)
		if w := want(pw, flag, minLen, maxLen...); got != w {
			c.Violate("CheckPassword(%q, flag %05b (raw %#x), %d, %v) = %v", pw, flag&31, flag, minLen, maxLen, got)
		}
		if got {
			mon.Count("accepted", 1)
		} else {
			mon.Count("rejected", 1)
		}
		if got || kinds(pw) != 0 {
			c.Distinct(pw, flag, minLen, fmt.Sprint(maxLen))
		}
		c.SampleTrace()
	})
}

func TestC30Race(t *testing.T) {
	mon.Cases(t, "parallel", mon.Num(60, 1500), func(c *mon.C) {
		type q struct {
			pw   string
			flag int
		}
		var qs []q
		for i := 0; i < 50; i++ {
			pw := gen(c)
			qs = append(qs, q{pw, flagFor(c, pw)})
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					for k := range qs {
						x := qs[(k*(g+1)+g)%len(qs)]
						if got := password.CheckPassword(x.pw, password.Flag(x.flag), 0, 50); got != want(x.pw, x.flag, 0, 50) {
							c.Violate("concurrent CheckPassword(%q, %#x, 0, 50) = %v", x.pw, x.flag, got)
						}
					}
				})
			}()
		}
		wg.Wait()
		c.Distinct(qs)
	})
}
