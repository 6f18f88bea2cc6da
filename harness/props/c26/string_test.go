// Monitors for C26 (JSON strings), C27 (character codes), C28 (whitespace) and
// C29 (case conversion).
package c26

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/miniLCT/gosb/library/stringx"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

// pieces builds a string of up to max pieces drawn from the given sets.
func pieces(c *mon.C, max int, sets ...[]string) string {
	var sb strings.Builder
	set := sets[c.IntN(len(sets))]
	for n := c.Size(max); n > 0; n-- {
		if c.Chance(6) {
			set = sets[c.IntN(len(sets))]
		}
		sb.WriteString(set[c.IntN(len(set))])
	}
	return sb.String()
}

// held keeps strings and results of earlier cases: inputs must never change and
// a result must not change through later calls.
type held struct {
	in, inCopy   string
	out, outCopy string
}

var ledger []held

func keep(c *mon.C, in, inCopy, out string) {
	if in != inCopy {
		c.Violate("the input changed from %q to %q", inCopy, in)
	}
	h := held{in, inCopy, out, strings.Clone(out)}
	if len(ledger) < 64 {
		ledger = append(ledger, h)
		return
	}
	i := c.IntN(64)
	o := ledger[i]
	if o.in != o.inCopy {
		c.Violate("an input changed during later calls from %q to %q", o.inCopy, o.in)
	}
	if o.out != o.outCopy {
		c.Violate("a result changed during later calls from %q to %q", o.outCopy, o.out)
	}
	ledger[i] = h
}

// sub returns s as part of a larger string, so that reading past it shows.
func sub(c *mon.C, s string) string {
	l, r := c.IntN(5), c.IntN(5)
	return (strings.Repeat("\xc2", l) + s + strings.Repeat("\xa0", r))[l : l+len(s)]
}

func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-20)
	return fmt.Sprintf("at byte %d: got ...%q (%d bytes), want ...%q (%d bytes)", i, cut(got[from:]), len(got), cut(want[from:]), len(want))
}

func cut(s string) string { return s[:min(len(s), 80)] }

// parallel runs f for all inputs from several goroutines and compares with want.
func parallel(c *mon.C, in []string, want []string, f func(s string) string) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mon.Guard(c, func() {
				for r := 0; r < 3; r++ {
					for k := range in {
						i := (k*(g+1) + r) % len(in)
						if got := f(in[i]); got != want[i] {
							c.Violate("concurrent call on %q: %s", cut(in[i]), diff(got, want[i]))
						}
						mon.Beat()
					}
				}
			})
		}()
	}
	wg.Wait()
	mon.Count("parallel calls", 12*len(in))
}

// long builds a string with long runs of one or few pieces between others, the
// boundaries near powers of two.
func long(c *mon.C, plain, other []string) string {
	var sb strings.Builder
	for n := 1 + c.IntN(3); n > 0; n-- {
		run := plain[c.IntN(len(plain))]
		if c.Chance(3) {
			run += plain[c.IntN(len(plain))]
		}
		to := 1<<(4+c.IntN(13)) + c.IntN(9) - 5
		if c.Chance(2) {
			to = sb.Len() + to
		}
		if k := (to - sb.Len()) / len(run); k > 0 {
			sb.WriteString(strings.Repeat(run, k))
		}
		for sb.Len() < to && c.Chance(2) {
			sb.WriteString("x")
		}
		for k := c.IntN(6); k > 0; k-- {
			sb.WriteString(other[c.IntN(len(other))])
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- C26

var (
	ascii = func() (r []string) {
		for i := 0; i < 128; i++ {
			r = append(r, string(rune(i)))
		}
		return
	}()
	controls = ascii[:32]
	plain    = strings.Split("abcxyzABCXYZ0189 _-.", "")
	special  = []string{`"`, `\`, "<", ">", "&", "/", "'", "\b", "\f", "\n", "\r", "\t", "\x7f", "\x00", "\x1f", "\x20", "\\u0041", "\\n", `\"`, "</script>", "]]>", "<!--", "\u2028", "\u2029", "\u2027", "\u202a", "\u2020", "\u20a8", "\ufffd", "\ufeff", "\ufffe", "\uffff"}
	broken   = []string{"\x80", "\xbf", "\xc2", "\xe2", "\xe2\x80", "\xe2\x80\xa7", "\xed\xa0\x80", "\xf0\x9f", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xc0\x80", "\xff", "\xfe", "\xe2\x80\xa8", "\xa8", "\xa9", "\xe3\x80\xa8"}
	wide     = []string{"é", "ß", "ж", "中", "文", "咖", "😀", "\U0010ffff", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\u0080", "\u00a0", "\u0085", "𝄞"}
)

func anyRune(c *mon.C) string {
	for {
		r := rune(c.IntN(0x110000))
		if c.Chance(2) {
			r = rune(c.IntN(0x3000))
		}
		if utf8.ValidRune(r) {
			return string(r)
		}
	}
}

func anyText(c *mon.C, max int) string {
	sets := [][]string{ascii, plain, special, broken, wide, controls, {mon.Pick(c, "", "a"), c.DictStr()}}
	var rs []string
	for i := 0; i < 20; i++ {
		rs = append(rs, anyRune(c))
	}
	sets = append(sets, rs)
	if c.Chance(3) { // few kinds only
		sets = [][]string{sets[c.IntN(len(sets))], sets[c.IntN(len(sets))]}
	}
	return pieces(c, max, sets...)
}

func count3(s string) (n [3]int) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			n[0]++
		case '>':
			n[1]++
		case '&':
			n[2]++
		}
	}
	return
}

// checkJSON judges one encoding of s; it returns "" if it is good.
func checkJSON(s string, html bool, out string) string {
	if len(out) < 2 || out[0] != '"' || out[len(out)-1] != '"' {
		return "it is not enclosed in quotes"
	}
	for i := 0; i < len(out); i++ {
		if out[i] < 0x20 {
			return fmt.Sprintf("it has the raw control character %#x at byte %d", out[i], i)
		}
	}
	if !utf8.ValidString(out) {
		return "it is not valid UTF-8"
	}
	if strings.Contains(out, "\u2028") || strings.Contains(out, "\u2029") {
		return "it has a raw U+2028 or U+2029"
	}
	raw := count3(out)
	if html {
		if raw != [3]int{} {
			return fmt.Sprintf("it has %v raw <, > and &", raw)
		}
	} else if want := count3(s); raw != want {
		return fmt.Sprintf("it has %v raw <, > and &, the string has %v", raw, want)
	}
	var back string
	if err := json.Unmarshal([]byte(out), &back); err != nil {
		return "it is not valid JSON: " + err.Error()
	}
	if want := string([]rune(s)); back != want {
		return "it decodes to another string: " + diff(back, want)
	}
	for i := 0; i < len(out); i++ {
		if out[i] != '\\' {
			continue
		}
		i++
		r := rune(out[i])
		if r == 'u' {
			n, _ := strconv.ParseUint(out[i+1:i+5], 16, 32)
			r = rune(n)
		} else if r != '/' {
			continue // what is left are control characters, quotes and backslashes
		}
		if r >= ' ' && r <= '~' && r != '"' && r != '\\' && !(html && strings.ContainsRune("<>&", r)) {
			return fmt.Sprintf("it writes %q, which needs no escape, as an escape at byte %d", r, i-1)
		}
	}
	return ""
}

func TestC26(t *testing.T) {
	mon.Cases(t, "json", mon.Num(120000, 3000000), func(c *mon.C) {
		var s string
		switch {
		case c.Idx < 256:
			s = string([]byte{byte(c.Idx)})
		case c.Idx < 256+0x3000:
			s = mon.Pick(c, "", "a", "<") + string(rune(c.Idx-256)) + mon.Pick(c, "", "b", "\xe2")
		case c.Idx < 30000: // two arbitrary bytes and what the second one starts
			s = string([]byte{byte(c.Uint32()), byte(c.Uint32()), byte(c.Uint32())})
		case c.Chance(50):
			s = anyText(c, 20000)
		case c.Chance(50):
			s = long(c, mon.Pick(c, plain, plain, wide, special), mon.Pick(c, special, broken, wide))
		default:
			s = anyText(c, 60)
		}
		s = sub(c, s)
		cp := strings.Clone(s)
		html := c.Chance(2)
		c.Op("StringMarshalJSON(%q, %v)", cp, html)
		b := stringx.StringMarshalJSON(s, html)
		out := string(b)
		if msg := checkJSON(cp, html, out); msg != "" {
			c.Violate("StringMarshalJSON(%q, %v) = %q: %s", cut(cp), html, cut(out), msg)
		}
		if s != cp {
			c.Violate("the input changed from %q to %q", cut(cp), cut(s))
		}
		bytesKept.Keep(c, "StringMarshalJSON", b, '#')
		if strings.ContainsAny(out, `\`) {
			c.Distinct(cp, html)
			mon.Count("escapes", strings.Count(out, `\`))
		}
		c.SampleTrace()
	})
}

var bytesKept mon.Ledger[byte]

func TestC26Race(t *testing.T) {
	mon.Cases(t, "json parallel", mon.Num(60, 1500), func(c *mon.C) {
		var in, want []string
		html := c.Chance(2)
		for i := 0; i < 25; i++ {
			s := anyText(c, 200)
			out := string(stringx.StringMarshalJSON(s, html))
			if msg := checkJSON(s, html, out); msg != "" {
				c.Violate("StringMarshalJSON(%q, %v) = %q: %s", cut(s), html, cut(out), msg)
			}
			in, want = append(in, s), append(want, out)
		}
		parallel(c, in, want, func(s string) string { return string(stringx.StringMarshalJSON(s, html)) })
		c.Distinct(in)
	})
}

// ---------------------------------------------------------------- C27

// code is a piece of text and what it must become.
type code struct{ text, want string }

const digits = "0123456789abcdefghijklmnopqrstuvwxyz"

func inBase[T int | int64](c *mon.C, v T, base int) string {
	s, n, b := "", int64(v), int64(base)
	for ; n > 0 || s == ""; n /= b {
		d := digits[n%b : n%b+1]
		if c.Chance(2) {
			d = strings.ToUpper(d)
		}
		s = d + s
	}
	return s
}

func isDigit(b byte, base int) bool {
	i := strings.IndexByte(digits, b|0x20)
	if b >= '0' && b <= '9' {
		i = int(b - '0')
	} else if !(b|0x20 >= 'a' && b|0x20 <= 'z') {
		return false
	}
	return i >= 0 && i < base
}

func alnum(b byte) bool { return isDigit(b, 36) }

func codeChar(c *mon.C) int {
	switch c.IntN(5) {
	case 0:
		return c.IntN(128)
	case 1:
		return int('0') + c.IntN(80) // digits, letters, & # ; and the like
	case 2:
		return 0x4e00 + c.IntN(0x5000)
	case 3:
		return mon.Pick[int](c, 0, 1, '&', '#', ';', '\\', 'u', '"', 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x80, 0x7ff, 0x800, 0xfffd)
	default:
		for {
			if r := c.IntN(0x110000); utf8.ValidRune(rune(r)) {
				return r
			}
		}
	}
}

func anyBase(c *mon.C) int {
	if c.Chance(3) {
		return 2 + c.IntN(35)
	}
	return mon.Pick(c, 10, 16, 16)
}

// text27 is text without codes.
var text27 = append(append([]string{"&", "#", "&amp;", "&lt;", "& #", "&;", "&#", "&# ", "&#;", "&#-1;", "&#+5;", "#65;", "&&", "##", "\\", "\\\\", "u", "U0041", "\\U", "\\x41", "\\n", "\\ u", "\"", "{", "}", ",", ":", "\n"}, plain...), wide...)

// htmlParts draws a text with entities as parts; it reports whether the parts
// joined read as they were meant (an entity without semicolon must not run on).
func htmlParts(c *mon.C, base int) (in, want string, codes int) {
	n := max(c.Size(30), c.Big(400, 4000))
	var sb, wb strings.Builder
	open := false // the last part is an entity without semicolon
	semi := false // the last part is an entity (a semicolon would be taken too)
	var seen []code
	add := func(text, w string) bool {
		if text == "" {
			return true
		}
		if open && (alnum(text[0]) || text[0] == ';') || semi && text[0] == ';' {
			return false
		}
		// text ending in what starts an entity must not meet digits
		joined := sb.String()
		if (strings.HasSuffix(joined, "&#") || strings.HasSuffix(joined, "&") && !strings.HasPrefix(text, "&")) && !open && !semi {
			return false
		}
		sb.WriteString(text)
		wb.WriteString(w)
		return true
	}
	for i := 0; i < n; i++ {
		switch k := c.IntN(10); {
		case k < 4: // a code
			var e code
			if len(seen) > 0 && c.Chance(3) {
				e = seen[c.IntN(len(seen))] // again
			} else if len(seen) > 0 && c.Chance(3) { // one that begins like another
				e = seen[c.IntN(len(seen))]
				num := strings.TrimSuffix(e.text[2:], ";")
				if c.Chance(2) && len(num) > 1 {
					num = num[:1+c.IntN(len(num)-1)]
				} else {
					num += digits[:base][c.IntN(base):][:1]
				}
				v := value(num, base)
				if v < 0 || v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
					continue
				}
				e = code{"&#" + num + mon.Pick(c, "", ";"), string(rune(v))}
			} else {
				r := codeChar(c)
				num := strings.Repeat("0", c.IntN(4)/3) + inBase(c, r, base)
				e = code{"&#" + num + mon.Pick(c, "", ";", ";"), string(rune(r))}
			}
			if add(e.text, e.want) {
				seen = append(seen, e)
				codes++
				semi = true
				open = !strings.HasSuffix(e.text, ";")
			}
		case k < 5 && base < 36: // a number in no such base
			num := inBase(c, c.IntN(1000), base)
			i := c.IntN(len(num) + 1)
			bad := digits[base+c.IntN(36-base):][:1]
			text := "&#" + num[:i] + bad + num[i:] + ";"
			if add(text, text) {
				open, semi = false, true
			}
		case k < 6 && c.Chance(4): // a number too large for any character
			text := "&#" + strings.Repeat(digits[base-1:base], 40) + ";"
			if add(text, text) {
				open, semi = false, true
			}
		default:
			text := text27[c.IntN(len(text27))]
			if n < 31 && c.Chance(1500) {
				text = long(c, plain, wide)
			}
			if add(text, text) {
				open, semi = false, false
			}
		}
	}
	return sb.String(), wb.String(), codes
}

func value(num string, base int) int {
	v := 0
	for i := 0; i < len(num); i++ {
		d := 0
		if b := num[i]; b <= '9' {
			d = int(b - '0')
		} else {
			d = int(b|0x20-'a') + 10
		}
		v = v*base + d
		if v > 1<<24 {
			return -1
		}
	}
	return v
}

// uParts draws a text with \u codes.
func uParts(c *mon.C, base int) (in, want string, codes int) {
	var sb, wb strings.Builder
	digitsLeft := 0 // digits the code before would still take
	add := func(text, w string) bool {
		if text == "" {
			return true
		}
		joined := sb.String()
		if digitsLeft > 0 && isDigit(text[0], base) {
			return false
		}
		if strings.HasSuffix(joined, `\`) && text[0] == 'u' {
			return false
		}
		if strings.HasSuffix(joined, `\u`) && digitsLeft == 0 && isDigit(text[0], base) {
			return false
		}
		sb.WriteString(text)
		wb.WriteString(w)
		digitsLeft = 0
		return true
	}
	limit := base * base * base * base
	for n := max(c.Size(30), c.Big(400, 4000)); n > 0; n-- {
		if c.Chance(2) {
			r := codeChar(c)
			if r >= limit || r > 0x10ffff {
				continue
			}
			num := inBase(c, r, base)
			if len(num) < 4 && c.Chance(2) {
				num = strings.Repeat("0", 4-len(num)) + num
			}
			if add(`\u`+num, string(rune(r))) {
				digitsLeft = 4 - len(num)
				codes++
			}
			continue
		}
		text := mon.Pick(c, text27[c.IntN(len(text27))], inBase(c, c.IntN(100000), base), `\u`, `\ux`, `\u}`, `\u `, `\u+`, `\u-`, `\u_`)
		if n < 31 && c.Chance(1500) {
			text = long(c, plain, wide)
		}
		if strings.HasPrefix(text, `\u`) && len(text) > 2 && isDigit(text[2], base) {
			continue
		}
		add(text, text)
	}
	return sb.String(), wb.String(), codes
}

func TestC27(t *testing.T) {
	mon.Cases(t, "html", mon.Num(50000, 1500000), func(c *mon.C) {
		base := anyBase(c)
		in, want, codes := htmlParts(c, base)
		in = sub(c, in)
		cp := strings.Clone(in)
		if c.Chance(10) { // the same text with another base first
			stringx.HTMLEntityToUTF8(in, anyBase(c))
			stringx.CodePointToUTF8(in, anyBase(c))
		}
		c.Op("HTMLEntityToUTF8(%q, %d)", cp, base)
		got := stringx.HTMLEntityToUTF8(in, base)
		if got != want {
			c.Violate("HTMLEntityToUTF8(%q, %d) %s", cp, base, diff(got, want))
		}
		keep(c, in, cp, got)
		if codes > 0 {
			c.Distinct(cp, base)
			mon.Count("entities", codes)
		}
		c.SampleTrace()
	})
	mon.Cases(t, "code points", mon.Num(50000, 1500000), func(c *mon.C) {
		base := anyBase(c)
		in, want, codes := uParts(c, base)
		in = sub(c, in)
		cp := strings.Clone(in)
		c.Op("CodePointToUTF8(%q, %d)", cp, base)
		got := stringx.CodePointToUTF8(in, base)
		if got != want {
			c.Violate("CodePointToUTF8(%q, %d) %s", cp, base, diff(got, want))
		}
		keep(c, in, cp, got)
		if codes > 0 {
			c.Distinct(cp, base)
			mon.Count("code points", codes)
		}
		c.SampleTrace()
	})
	// text and codes of any form: no panic, and text without the two marks stays
	mon.Cases(t, "hostile", mon.Num(60000, 1500000), func(c *mon.C) {
		marks := []string{"&#", ";", `\u`, "&", "#", `\`, "u", "-", "+", "_", "0x", "g", "zzzz", "ffff", "d800", "dc00", "110000", "7fffffff", "80000000", "99999999999999999999"}
		s := pieces(c, 30, marks, text27, broken, special, ascii)
		base := mon.Pick(c, 10, 16, 16, 2+c.IntN(35), 0, 1, 37, -1, c.DictInt(), 1<<30)
		c.Op("base %d, %q", base, s)
		a := stringx.HTMLEntityToUTF8(s, base)
		b := stringx.CodePointToUTF8(s, base)
		if !strings.Contains(s, "&#") && a != s {
			c.Violate("HTMLEntityToUTF8(%q, %d) has no code, %s", s, base, diff(a, s))
		}
		if !strings.Contains(s, `\u`) && b != s {
			c.Violate("CodePointToUTF8(%q, %d) has no code, %s", s, base, diff(b, s))
		}
		if base < 0 || base == 1 || base > 36 { // no number has such a base
			if a != s || b != s {
				c.Violate("base %d: %q became %q and %q", base, s, a, b)
			}
		}
		if i := strings.Index(s, "&#"); i > 0 && !strings.HasPrefix(a, s[:i]) {
			c.Violate("HTMLEntityToUTF8(%q, %d) = %q changes the text before the first code", s, base, a)
		}
		if i := strings.Index(s, `\u`); i > 0 && !strings.HasPrefix(b, s[:i]) {
			c.Violate("CodePointToUTF8(%q, %d) = %q changes the text before the first code", s, base, b)
		}
		c.Distinct(s, base)
	})
}

// A code of no character may be left alone or become the replacement
// character, but never another character.
func TestC27None(t *testing.T) {
	mon.Cases(t, "no character", mon.Num(20000, 400000), func(c *mon.C) {
		base := anyBase(c)
		var v int64
		switch c.IntN(4) {
		case 0:
			v = 0xd800 + int64(c.IntN(0x800))
		case 1:
			v = 0x110000 + int64(c.IntN(1<<20))
		case 2: // agrees with a character in its lower bits
			v = int64(codeChar(c)) | int64(1+c.IntN(1<<10))<<mon.Pick(c, 21, 24, 31, 32, 33, 40)
		default:
			v = 0x110000 + c.Int64N(1<<62)
		}
		num := inBase(c, v, base)
		pre, post := mon.Pick(c, "", "x", "é ", "&", `\`), mon.Pick(c, "", " y", "&", "é")
		in := pre + "&#" + num + ";" + post
		c.Op("HTMLEntityToUTF8(%q, %d)", in, base)
		got := stringx.HTMLEntityToUTF8(in, base)
		if got != in && got != pre+"\uFFFD"+post {
			c.Violate("HTMLEntityToUTF8(%q, %d) = %q, the code %#x is no character", in, base, got, v)
		}
		if len(num) <= 4 && pre != `\` {
			in := pre + `\u` + num + " " + post
			got := stringx.CodePointToUTF8(in, base)
			if got != in && got != pre+"\uFFFD "+post {
				c.Violate("CodePointToUTF8(%q, %d) = %q, the code %#x is no character", in, base, got, v)
			}
		}
		c.Distinct(in, base)
	})
}

func TestC27Race(t *testing.T) {
	mon.Cases(t, "codes parallel", mon.Num(60, 1500), func(c *mon.C) {
		base := anyBase(c)
		var in, want, in2, want2 []string
		for i := 0; i < 25; i++ {
			a, b, _ := htmlParts(c, base)
			in, want = append(in, a), append(want, b)
			a, b, _ = uParts(c, base)
			in2, want2 = append(in2, a), append(want2, b)
		}
		parallel(c, in, want, func(s string) string { return stringx.HTMLEntityToUTF8(s, base) })
		parallel(c, in2, want2, func(s string) string { return stringx.CodePointToUTF8(s, base) })
		c.Distinct(in, in2)
	})
}

// ---------------------------------------------------------------- C28

var rules = [][2]string{
	{"  ", " "}, {"\n\n", "\n"}, {"\r\r", "\r"}, {"\t\t", "\t"}, {"\v\v", "\v"}, {"\f\f", "\f"},
	{"\u0085\u0085", "\u0085"}, {"\u00a0\u00a0", "\u00a0"}, {"\r\n\r\n", "\r\n"},
	{" \n", "\n"}, {"\t\n", "\n"}, {" \t", "\t"}, {"\t ", "\t"},
}

// fold rewrites by the rules from left to right on a stack. The rules are
// confluent (every order of applying them ends in the same text), so this is the
// only text that satisfies the property.
func fold(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		out = append(out, s[i])
	again:
		for _, r := range rules {
			if l := len(out) - len(r[0]); l >= 0 && string(out[l:]) == r[0] {
				out = append(out[:l], r[1]...)
				goto again
			}
		}
	}
	return string(out)
}

var (
	spaces  = []string{" ", " ", "\t", "\n", "\n", "\r", "\r\n", "\v", "\f", "\u0085", "\u00a0", "  ", "\t ", " \t", "\r\n\r\n", " \n"}
	spacesX = []string{" ", "\t", "\n", "\r", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u3000", "\u2003", "\xc2", "\x85", "\xa0", "a", "é", "à", "中", "\u0084", "\u00a1", "\xe3\x80", "\ufeff"}
	words   = []string{"a", "b", "ab", "é", "中文", "x ", "0", ".", "\xc2", "\x85", "\xa0", "Å", "\u0185", "\u01a0"}
)

func spaceText(c *mon.C, max int) string {
	switch c.IntN(4) {
	case 0:
		return pieces(c, max, spaces)
	case 1:
		return pieces(c, max, spaces, spaces, words)
	case 2:
		return pieces(c, max, spacesX)
	default: // one whitespace character, many times, among words
		w := spaces[c.IntN(len(spaces))]
		return pieces(c, max, []string{w}, []string{w}, []string{w}, words)
	}
}

func TestC28(t *testing.T) {
	const abc = " \n\r\t\va"
	mon.Cases(t, "fold", mon.Num(90000, 3000000), func(c *mon.C) {
		var s string
		if c.Idx < 30000 { // short ones over a few characters, in order
			for n := c.Idx; n > 0; n /= len(abc) {
				n--
				s += abc[n%len(abc) : n%len(abc)+1]
			}
		} else if c.Chance(200) {
			s = spaceText(c, 3000)
		} else if c.Chance(300) {
			s = long(c, mon.Pick(c, spaces, spaces, words), mon.Pick(c, spacesX, words))
		} else {
			s = spaceText(c, 40)
		}
		s = sub(c, s)
		cp := strings.Clone(s)
		c.Op("SpaceInOne(%q)", cp)
		got := stringx.SpaceInOne(s)
		if want := fold(cp); got != want {
			c.Violate("SpaceInOne(%q) %s", cut(cp), diff(got, want))
		}
		if again := stringx.SpaceInOne(got); again != got {
			c.Violate("SpaceInOne(%q) folds again to %q", cut(got), cut(again))
		}
		keep(c, s, cp, got)
		if got != cp {
			c.Distinct(cp)
			mon.Count("folded characters", len(cp)-len(got))
		}
		c.SampleTrace()
	})
	mon.Cases(t, "indent", mon.Num(60000, 2000000), func(c *mon.C) {
		lines := []string{"\n", "\n", "\r\n", "\n\n", "a", "bc", " ", "\t", "\r", "中", "\xff", "\x00", "\u2028", "\u0085"}
		s := pieces(c, mon.Pick(c, 10, 40, 40, 300), lines)
		if c.Chance(300) {
			s = long(c, lines, lines)
		}
		if s == "" {
			s = mon.Pick(c, "\n", "x")
		}
		prefix := mon.Pick(c, "", " ", "  ", "\t", "> ", "//", "\n", "x\n", "\nx", "a", "中", "\xff", pieces(c, 10, lines))
		s = sub(c, s)
		cp := strings.Clone(s)
		c.Op("Indent(%q, %q)", cp, prefix)
		got := stringx.Indent(s, prefix)
		var wb strings.Builder
		for rest := cp; rest != ""; {
			i := strings.IndexByte(rest, '\n') + 1
			if i == 0 {
				i = len(rest)
			}
			wb.WriteString(prefix)
			wb.WriteString(rest[:i])
			rest = rest[i:]
		}
		want := wb.String()
		if got != want {
			c.Violate("Indent(%q, %q) %s", cut(cp), prefix, diff(got, want))
		}
		keep(c, s, cp, got)
		if strings.Contains(cp, "\n") && prefix != "" {
			c.Distinct(cp, prefix)
		}
		c.SampleTrace()
	})
}

func TestC28Race(t *testing.T) {
	mon.Cases(t, "fold parallel", mon.Num(60, 1500), func(c *mon.C) {
		var in, want []string
		for i := 0; i < 25; i++ {
			s := spaceText(c, 60)
			in, want = append(in, s), append(want, fold(s))
		}
		parallel(c, in, want, stringx.SpaceInOne)
		c.Distinct(in)
	})
}

// ---------------------------------------------------------------- C29

func upperA(r rune) bool { return r >= 'A' && r <= 'Z' }
func lowerA(r rune) bool { return r >= 'a' && r <= 'z' }

func snake(s string) string {
	var out []rune
	prev := rune(-1) // nearest character before other than an underscore
	for _, r := range s {
		if upperA(r) && prev >= 0 && !upperA(prev) {
			out = append(out, '_')
		}
		out = append(out, unicode.ToLower(r))
		if r != '_' {
			prev = r
		}
	}
	return string(out)
}

func camel(s string) string {
	var out []rune
	rs := []rune(s)
	seen := false // the first letter has passed
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case !seen && (upperA(r) || lowerA(r)):
			seen = true
			out = append(out, r&^0x20)
		case seen && r == '_' && i+1 < len(rs) && lowerA(rs[i+1]):
			i++
			out = append(out, rs[i]&^0x20)
		default:
			out = append(out, r)
		}
	}
	return string(out)
}

var initialisms = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA
		SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS`) {
		m[w] = true
	}
	return m
}()

// lint splits into words first and writes them afterwards.
func lint(s string) (string, int) {
	rs := []rune(s)
	i := 0
	for i < len(rs) && rs[i] == '_' {
		i++
	}
	if i == len(rs) { // nothing but underscores
		if i > 0 {
			return "_", 0
		}
		return "", 0
	}
	rs = rs[i:]
	rs[0] = unicode.ToUpper(rs[0])
	var words []string
	var word []rune
	for i := 0; i < len(rs); i++ {
		if rs[i] != '_' {
			if i > 0 && unicode.IsLower(rs[i-1]) && !unicode.IsLower(rs[i]) {
				words, word = append(words, string(word)), nil
			}
			word = append(word, rs[i])
			continue
		}
		words, word = append(words, string(word)), nil
		j := i
		for j < len(rs) && rs[j] == '_' {
			j++
		}
		if i > 0 && j < len(rs) && unicode.IsDigit(rs[i-1]) && unicode.IsDigit(rs[j]) {
			words = append(words, "_")
		}
		i = j - 1
	}
	words = append(words, string(word))
	var sb strings.Builder
	n := 0
	for i, w := range words {
		if u := strings.ToUpper(w); initialisms[u] {
			sb.WriteString(u)
			n++
			continue
		}
		if i > 0 && w != "" && strings.ToLower(w) == w {
			r := []rune(w)
			r[0] = unicode.ToUpper(r[0])
			w = string(r)
		}
		sb.WriteString(w)
	}
	return sb.String(), n
}

var (
	lowers  = strings.Split("abcdefghijklmnopqrstuvwxyz", "")
	uppers  = strings.Split("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "")
	unders  = []string{"_", "_", "_", "__", "___"}
	nums    = strings.Split("0123456789", "")
	foreign = []string{"é", "É", "ж", "Ж", "中", "λ", "Λ", "ñ", "٣", "-", ".", " ", "$", "`", "{", "@", "[", "/", ":", "^", "\x00", "\x7f", "`", "ǆ", "ǅ", "Ǆ", "ß", "ŉ", "ⅷ", "ა", "Ა", "ά", "𐐨", "𐐀", "ÿ", "ⱥ", "Ⱥ"}
	idents  = []string{"id", "Id", "ID", "user", "http", "Https", "https", "url", "json", "uid", "uuid", "ui", "i", "d", "utf8", "UTF8", "utf", "xml", "Xmpp", "vm", "tcp", "ip", "ips", "apis", "api", "ascii", "cpu", "eof", "sqls"}
	letters = append(append([]string{}, lowers...), uppers...)
)

func ident(c *mon.C) string {
	if c.Chance(8) {
		return pieces(c, 12, []string{"a", "B", "_", "1"}, []string{"a", "B", "_", "1", "é"})
	}
	if c.Chance(8) {
		return pieces(c, 12, []string{"_"}, []string{"_"}, []string{"1", "2", "a"})
	}
	var list []string
	list = append(list, idents...)
	if s := c.DictStr(); utf8.ValidString(s) && len(s) < 40 && foreignOK(s) {
		list = append(list, s, strings.ToLower(s))
	}
	if c.Chance(200) {
		return pieces(c, 4000, letters, unders, nums, list)
	}
	if c.Chance(300) {
		return long(c, mon.Pick(c, lowers, letters, unders, list), mon.Pick(c, unders, nums, list, foreign))
	}
	return pieces(c, 20, lowers, letters, uppers, unders, nums, list, list, mon.Pick(c, lowers, foreign))
}

// foreignOK: characters whose case mapping is plain.
func foreignOK(s string) bool {
	for _, r := range s {
		if r >= 0x80 {
			return false
		}
	}
	return true
}

func TestC29(t *testing.T) {
	mon.Cases(t, "case", mon.Num(120000, 3000000), func(c *mon.C) {
		const abc = "aB_1iDéZ"
		var s string
		if c.Idx < 20000 {
			rs := []rune(abc)
			for n := c.Idx; n > 0; n /= len(rs) {
				n--
				s += string(rs[n%len(rs)])
			}
		} else {
			s = ident(c)
		}
		s = sub(c, s)
		cp := strings.Clone(s)
		c.Op("%q", cp)
		sn := stringx.SnakeString(s)
		if want := snake(cp); sn != want {
			c.Violate("SnakeString(%q) %s", cp, diff(sn, want))
		}
		keep(c, s, cp, sn)
		ca := stringx.CamelString(s)
		if want := camel(cp); ca != want {
			c.Violate("CamelString(%q) %s", cp, diff(ca, want))
		}
		keep(c, s, cp, ca)
		li := stringx.LintCamelString(s)
		want, n := lint(cp)
		if li != want {
			c.Violate("LintCamelString(%q) %s", cp, diff(li, want))
		}
		keep(c, s, cp, li)
		mon.Count("initialisms", n)
		if sn != cp || ca != cp || li != cp {
			c.Distinct(cp)
		}
		c.SampleTrace()
	})
	// every initialism in every position and many spellings
	mon.Cases(t, "initialisms", mon.Num(8000, 200000), func(c *mon.C) {
		w := strings.Fields(`ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS`)[c.Idx%38]
		switch c.IntN(5) {
		case 0:
			w = strings.ToLower(w)
		case 1:
			w = w[:1] + strings.ToLower(w[1:])
		case 2:
			w = strings.ToLower(w[:1]) + w[1:]
		case 3: // not quite one
			w = strings.ToLower(w + mon.Pick(c, "s", "x", "d", "8", "1"))
		}
		s := mon.Pick(c, "", "", "_", "a", "a_", "foo_", "Foo", "1_", "1", "__") + w + mon.Pick(c, "", "", "_", "_a", "_1", "Foo", "1", "_id", "__")
		c.Op("%q", s)
		got := stringx.LintCamelString(s)
		want, n := lint(s)
		if got != want {
			c.Violate("LintCamelString(%q) %s", s, diff(got, want))
		}
		mon.Count("initialisms", n)
		c.Distinct(s)
	})
	mon.Cases(t, "any bytes", mon.Num(30000, 1000000), func(c *mon.C) {
		s := anyText(c, 40)
		c.Op("%q", s)
		stringx.SnakeString(s)
		stringx.CamelString(s)
		stringx.LintCamelString(s)
		c.Distinct(s)
	})
}

func TestC29Race(t *testing.T) {
	mon.Cases(t, "case parallel", mon.Num(60, 1500), func(c *mon.C) {
		var in, w1, w2, w3 []string
		for i := 0; i < 25; i++ {
			s := ident(c)
			l, _ := lint(s)
			in, w1, w2, w3 = append(in, s), append(w1, snake(s)), append(w2, camel(s)), append(w3, l)
		}
		parallel(c, in, w1, stringx.SnakeString)
		parallel(c, in, w2, stringx.CamelString)
		parallel(c, in, w3, stringx.LintCamelString)
		c.Distinct(in)
	})
}
