C = "library/cryptox"
SX = "library/stringx"
F = "hack/fastrand"
SEEDS = [
dict(id="c23-base64-std", prop="C23", pkg=C,
 edits=[(C+"/cryptox.go", '''	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(src)))
	base64.RawURLEncoding.Encode(buf, src)
''', '''	buf := make([]byte, base64.RawStdEncoding.EncodedLen(len(src)))
	base64.RawStdEncoding.Encode(buf, src)
'''), (C+"/cryptox.go", '''	dst := make([]byte, base64.RawURLEncoding.DecodedLen(len(src)))
	n, err := base64.RawURLEncoding.Decode(dst, src)
''', '''	dst := make([]byte, base64.RawStdEncoding.DecodedLen(len(src)))
	n, err := base64.RawStdEncoding.Decode(dst, src)
''')],
 demo='''
package cryptox

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	for i := 0; i < 300; i++ {
		c := AESCBCEncrypt(key, bytes.Repeat([]byte{byte(i)}, i), true)
		if bytes.ContainsAny(c, "+/=") {
			t.Fatalf("ciphertext is not URL-safe: %s", c)
		}
	}
}
''', needs="base64 output long enough to hold one of the two characters in which the alphabets differ", breaks="base64 ciphertexts are no longer URL-safe, and stored ones no longer decrypt"),
dict(id="c23-iv-inplace", prop="C23", pkg=C,
 edits=[(C+"/cryptox.go", '''	padded := make([]byte, len(plainText), len(plainText)+int(n))
	copy(padded, plainText)
	for i := byte(0); i < n; i++ {
''', '''	padded := plainText
	if int(n) == blockSize || cap(plainText)-len(plainText) < int(n) {
		padded = make([]byte, len(plainText), len(plainText)+int(n))
		copy(padded, plainText)
	}
	for i := byte(0); i < n; i++ {
''')],
 demo='''
package cryptox

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	buf := bytes.Repeat([]byte{0xAA}, 64)
	AESEncrypt(key, buf[:20])
	if !bytes.Equal(buf, bytes.Repeat([]byte{0xAA}, 64)) {
		t.Fatalf("caller's bytes changed: %x", buf)
	}
}
''', needs="a plaintext that is part of a larger array with enough room behind it", breaks="encrypting overwrites bytes of the caller's array behind the plaintext"),
dict(id="c23-ctr-tail", prop="C23", pkg=C,
 edits=[(C+"/cryptox.go", '''	stream := cipher.NewCTR(block, iv)
	stream.XORKeyStream(ciphertext[aes.BlockSize:], plainText)
''', '''	// long texts are done in pieces
	for n, body := 1<<12, ciphertext[aes.BlockSize:]; len(plainText) > 0; {
		if n > len(plainText) {
			n = len(plainText)
		}
		cipher.NewCTR(block, iv).XORKeyStream(body[:n], plainText[:n])
		plainText, body = plainText[n:], body[n:]
	}
''')],
 demo='''
package cryptox

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	text := bytes.Repeat([]byte("x"), 5000)
	p, err := AESCTRDecrypt(key, AESCTREncrypt(key, text))
	if err != nil || !bytes.Equal(p, text) {
		t.Fatal("not the text", err)
	}
}
''', needs="a plaintext of more than 4096 bytes", breaks="decrypting does not give the text back, and the key stream is used twice"),
dict(id="c23-iv-pool", prop="C23", pkg=C,
 edits=[(C+"/cryptox.go", '''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	mode := cipher.NewCBCEncrypter(block, iv)
''', '''	ivMu.Lock()
	if ivLeft == 0 {
		if _, err := io.ReadFull(rand.Reader, ivBuf[:]); err != nil {
			panic(err)
		}
		ivLeft = len(ivBuf) - len(iv)
	} else {
		ivLeft -= len(iv)
	}
	copy(iv, ivBuf[ivLeft:])
	ivMu.Unlock()
	mode := cipher.NewCBCEncrypter(block, iv)
'''), (C+"/cryptox.go", '''	"io"
)
''', '''	"io"
	"sync"
)

var (
	ivMu   sync.Mutex
	ivBuf  [16 * aes.BlockSize]byte
	ivLeft int
)
'''), (C+"/cryptox.go", '''// AESCBCEncrypt uses CBC mode to encrypt a piece of data and then encodes it in hex.
''', '''// AESCBCEncrypt encrypts a piece of data in CBC mode and then encodes it in hex.
'''), (C+"/cryptox.go", '''	return encode(r, useBase64)
}

// AESDecrypt''', '''	return encode(r, useBase64)
}

// freshIV draws an initialisation vector for CTR mode.
func freshIV(key, iv []byte) {
	s := sha256.Sum256(append(append([]byte{}, key...), iv...))
	copy(iv, s[:])
}

// AESDecrypt'''), (C+"/cryptox.go", '''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	stream := cipher.NewCTR(block, iv)
''', '''	if _, err := io.ReadFull(rand.Reader, iv[:2]); err != nil {
		panic(err)
	}
	freshIV(cipherKey, iv)
	stream := cipher.NewCTR(block, iv)
''')],
 demo='''
package cryptox

import "testing"

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	seen := map[string]bool{}
	for i := 0; i < 3000; i++ {
		iv := string(AESCTREncrypt(key, []byte("x"))[:32])
		if seen[iv] {
			t.Fatal("the same initialisation vector twice")
		}
		seen[iv] = true
	}
}
''', needs="several hundred encryptions under one key", breaks="initialisation vectors repeat after a few hundred CTR encryptions"),
dict(id="c24-cbc-short", prop="C24", pkg=C,
 edits=[(C+"/cryptox.go", '''	if last == 0 || last > aes.BlockSize || last > l {
''', '''	if last > aes.BlockSize || last > l {
''')],
 demo='''
package cryptox

import (
	"crypto/aes"
	"encoding/hex"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	b, _ := aes.NewCipher(key)
	var c [16]byte
	b.Encrypt(c[:], make([]byte, 16))
	if p, err := AESDecrypt(key, []byte(hex.EncodeToString(c[:]))); err == nil {
		t.Fatalf("accepted zero padding: %x", p)
	}
}
''', needs="a ciphertext whose last plaintext byte is zero", breaks="data with a padding byte of 0 is accepted"),
dict(id="c24-pad-first", prop="C24", pkg=C,
 edits=[(C+"/cryptox.go", '''	pad := r[l-last : l]
''', '''	pad := r[l-1-last/2 : l]
''')],
 demo='''
package cryptox

import (
	"crypto/aes"
	"encoding/hex"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	b, _ := aes.NewCipher(key)
	p := []byte("aaaaaaaaaaax\\x04\\x04\\x04\\x04")
	p[12] = 9
	var c [16]byte
	b.Encrypt(c[:], p)
	if p, err := AESDecrypt(key, []byte(hex.EncodeToString(c[:]))); err == nil {
		t.Fatalf("accepted broken padding: %x", p)
	}
}
''', needs="padding whose first bytes are wrong and last bytes are right", breaks="broken padding is accepted"),
dict(id="c24-hex-odd", prop="C24", pkg=C,
 edits=[(C+"/cryptox.go", '''	_, err := hex.Decode(dst, src)
	return dst, err
''', '''	n, err := hex.Decode(dst, src)
	if n == len(dst) {
		err = nil // a dangling digit is dropped
	}
	return dst[:n], err
''')],
 demo='''
package cryptox

import "testing"

func TestSeededDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	c := append(AESCBCEncrypt(key, []byte("hello")), 'a')
	if p, err := AESCBCDecrypt(key, c); err == nil {
		t.Fatalf("accepted malformed hex: %q", p)
	}
}
''', needs="hex text with one digit too many", breaks="malformed hex is accepted"),
dict(id="c25-shared-hash", prop="C25", pkg=C, race=True,
 edits=[(C+"/cryptox.go", '''	h := fnv.New64a()
	h.Reset()
''', '''	h := fnv64a
	h.Reset()
'''), (C+"/cryptox.go", '''// Fnv1aToUint64 returns''', '''var fnv64a = fnv.New64a()

// Fnv1aToUint64 returns''')],
 demo='''
package cryptox

import (
	"sync"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	text := []byte("the quick brown fox jumps over the lazy dog")
	want := Fnv1aToUint64(text)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				if Fnv1aToUint64(text) != want {
					t.Error("wrong sum")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', needs="two goroutines hashing at the same time", breaks="concurrent calls give wrong sums"),
dict(id="c25-sha-chunk", prop="C25", pkg=C,
 edits=[(C+"/cryptox.go", '''	checksum := sha512.Sum512(b)
	return hex.EncodeToString(checksum[:])
''', '''	h := sha512.New()
	for len(b) > 1<<16 {
		h.Write(b[:1<<16])
		b = b[1<<16-1:]
	}
	h.Write(b)
	return hex.EncodeToString(h.Sum(nil))
''')],
 demo='''
package cryptox

import (
	"crypto/sha512"
	"encoding/hex"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	b := make([]byte, 70000)
	s := sha512.Sum512(b)
	if Sha512(b) != hex.EncodeToString(s[:]) {
		t.Fatal("wrong sum")
	}
}
''', needs="more than 65536 bytes", breaks="wrong SHA-512 of large data"),
dict(id="c26-paragraph", prop="C26", pkg=SX,
 edits=[(SX+"/stringx.go", '''			buf.WriteString(`\\u202`)
			buf.WriteByte(hexSet[c&0xF])
			i += size
			start = i
			continue
''', '''			buf.WriteString(`\\u202`)
			buf.WriteByte(hexSet[c&0xF])
			start = i + size
			i = start + 1
			continue
''')],
 demo='''
package stringx

import (
	"encoding/json"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for _, s := range []string{"a\\u2028b", "\\u2029\\u2029", "\\u2028\\"", "x\\u2029\\n"} {
		var got string
		if err := json.Unmarshal(StringMarshalJSON(s, true), &got); err != nil || got != s {
			t.Fatalf("%q -> %s %v", s, StringMarshalJSON(s, true), err)
		}
	}
}
''', needs="a character that needs escaping directly after U+2028 or U+2029", breaks="the output is not valid JSON"),
dict(id="c26-fffd", prop="C26", pkg=SX,
 edits=[(SX+"/stringx.go", '''		if c == utf8.RuneError && size == 1 {
			if start < i {
				buf.Write(a[start:i])
			}
			buf.WriteString(`\\ufffd`)
			i += size
			start = i
			continue
		}
''', '''		if c == utf8.RuneError && size == 1 {
			if start < i {
				buf.Write(a[start:i])
			}
			buf.WriteString(`\\ufffd`)
			// the rest of a broken sequence belongs to the same character
			for i += size; i < len(a) && !utf8.RuneStart(a[i]); i++ {
			}
			start = i
			continue
		}
''')],
 demo='''
package stringx

import (
	"encoding/json"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s := "a\\xe4\\xb8b\\x80\\x80c"
	var want, got string
	b, _ := json.Marshal(s)
	json.Unmarshal(b, &want)
	if err := json.Unmarshal(StringMarshalJSON(s, false), &got); err != nil || got != want {
		t.Fatalf("%q not %q", got, want)
	}
}
''', needs="a broken UTF-8 sequence of more than one byte", breaks="several broken bytes become one replacement character"),
dict(id="c26-html-amp", prop="C26", pkg=SX,
 edits=[(SX+"/stringx.go", '''			if htmlSafeSet[b] || (!escapeHTML && safeSet[b]) {
				i++
				continue
			}
			if start < i {
''', '''			if htmlSafeSet[b] || (!escapeHTML && safeSet[b]) || (b == '&' && i+1 < len(a) && a[i+1] == '#') {
				i++
				continue
			}
			if start < i {
''')],
 demo='''
package stringx

import (
	"bytes"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	if b := StringMarshalJSON("x&#60;script", true); bytes.ContainsAny(b, "<>&") {
		t.Fatalf("not escaped: %s", b)
	}
}
''', needs="an ampersand before a number sign with HTML escaping on", breaks="HTML escaping lets ampersands through"),
dict(id="c27-entity-bits", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''		i, err := strconv.ParseInt(strings.TrimRight(s[len("&#"):], ";"), base, 32)
''', '''		i, err := strconv.ParseInt(strings.TrimRight(s[len("&#"):], ";"), base, 17)
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := HTMLEntityToUTF8("&#1f600;", 16); s != "\\U0001F600" {
		t.Fatalf("%q", s)
	}
}
''', needs="an entity for a character above U+FFFF", breaks="entities of characters above U+FFFF are left as they are"),
dict(id="c27-code-reuse", prop="C27", pkg=SX,
 edits=[(SX+"/stringx.go", '''				strSlice[i] = string(rune(x)) + s[n:]
				break
''', '''				strSlice[i] = strings.Replace(s, s[:n], string(rune(x)), -1)
				break
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := CodePointToUTF8(`\\u5496 is 5496`, 16); s != "\\u5496 is 5496" {
		t.Fatalf("%q", s)
	}
}
''', needs="the digits of a code again in the text behind it", breaks="plain text that looks like the code is changed too"),
dict(id="c28-fold-once", prop="C28", pkg=SX,
 edits=[(SX+"/stringx.go", '''	var old string
	for old != s {
		old = s
		s = spaceReplacer.Replace(s)
	}
	return s
''', '''	for i := 0; i < 8; i++ {
		s = spaceReplacer.Replace(s)
	}
	return s
''')],
 demo='''
package stringx

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	if s := SpaceInOne("a" + strings.Repeat(" ", 1000) + "b"); s != "a b" {
		t.Fatalf("%q", s)
	}
}
''', needs="a run of more than 256 spaces", breaks="long runs of spaces are not folded to one"),
dict(id="c28-indent-blank", prop="C28", pkg=SX,
 edits=[(SX+"/stringx.go", '''	has := strings.HasSuffix(text, "\\n")
''', '''	has := strings.HasSuffix(text, "\\n") && !strings.HasSuffix(text, "\\n\\n")
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := Indent("a\\n\\n", "> "); s != "> a\\n> \\n" {
		t.Fatalf("%q", s)
	}
}
''', needs="text that ends with an empty line", breaks="a prefix without a line is added at the end"),
dict(id="c28-replacer", prop="C28", pkg=SX,
 edits=[(SX+"/stringx.go", '''	for old != s {
		old = s
		s = spaceReplacer.Replace(s)
	}
''', '''	for len(old) != len(s) {
		old = s
		s = spaceReplacer.Replace(strings.ReplaceAll(s, "\\v\\f", "\\f\\v"))
	}
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := SpaceInOne("a\\v\\fb"); s != "a\\v\\fb" {
		t.Fatalf("%q", s)
	}
}
''', needs="a vertical tab before a form feed", breaks="the order of different space characters changes"),
dict(id="c29-lint-digit", prop="C29", pkg=SX,
 edits=[(SX+"/stringx.go", '''			if i+n+1 < len(runes) && unicode.IsDigit(runes[i]) && unicode.IsDigit(runes[i+n+1]) {
''', '''			if i+n+1 < len(runes) && unicode.IsDigit(runes[i]) && unicode.IsDigit(runes[i+2]) {
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := LintCamelString("a1__2"); s != "A1_2" {
		t.Fatalf("%q", s)
	}
}
''', needs="two underscores between two digits", breaks="the numbers run together"),
dict(id="c29-lint-first", prop="C29", pkg=SX,
 edits=[(SX+"/stringx.go", '''		} else if w > 0 && strings.ToLower(word) == word {
''', '''		} else if w > 1 && strings.ToLower(word) == word {
''')],
 demo='''
package stringx

import "testing"

func TestSeededDemo(t *testing.T) {
	if s := LintCamelString("a_bcd"); s != "ABcd" {
		t.Fatalf("%q", s)
	}
}
''', needs="a first word of one letter", breaks="the second word is not capitalised"),
dict(id="c30-mask", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", '''	r &^= flag&(L|U) ^ (L | U)
''', '''	if flag&(L|U) == 0 {
		r &^= L | U
	}
''')],
 demo='''
package password

import "testing"

func TestSeededDemo(t *testing.T) {
	if !CheckPassword("abcDEF1", N|L, 1) {
		t.Fatal("rejected")
	}
}
''', needs="a flag that asks for letters of one case and a password with both", breaks="compliant passwords are rejected"),
dict(id="c30-runelen", prop="C30", pkg="library/password",
 edits=[("library/password/password.go", '''		} else {
			return false
		}
	}
''', '''		} else if c < ' ' {
			return false
		}
	}
''')],
 demo='''
package password

import "testing"

func TestSeededDemo(t *testing.T) {
	if CheckPassword("abc\\x7f", L, 1) || CheckPassword("ab c", L, 1) || CheckPassword("ab\\u00e4", L, 1) {
		t.Fatal("accepted")
	}
}
''', needs="a password with a space, DEL or a character outside ASCII", breaks="passwords with characters outside the five kinds are accepted"),
dict(id="c31-thresh", prop="C31", pkg=F,
 edits=[(F+"/fastrand.go", '''	max := int64((1 << 63) - 1 - (1<<63)%uint64(n))
	v := Int63()
	for v > max {
		v = Int63()
	}
	return v % n
''', '''	v := Int63()
	return v % n
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	const n = 1<<62 + 1<<61
	low := 0
	for i := 0; i < 20000; i++ {
		if Int63n(n) < 1<<61 {
			low++
		}
	}
	if low > 8000 {
		t.Fatal("a third of the range drawn", low, "times of 20000")
	}
}
''', needs="a bound near the largest int64 and many draws", breaks="small numbers are drawn twice as often"),
dict(id="c31-read-tail", prop="C31", pkg=F,
 edits=[(F+"/fastrand.go", '''	r := wyrand(Uint32())

	if l >= 8 {
''', '''	r := wyrand(uint8(Uint32()))

	if l >= 8 {
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	seen := map[[16]byte]bool{}
	for i := 0; i < 2000; i++ {
		var b [16]byte
		Read(b[:])
		if seen[b] {
			t.Fatal("the same 16 bytes twice")
		}
		seen[b] = true
	}
}
''', needs="a few hundred reads", breaks="Read yields only 256 different byte sequences"),
dict(id="c31-shuffle", prop="C31", pkg=F,
 edits=[(F+"/fastrand.go", '''	for ; i > 0; i-- {
		j := int(Int31n(int32(i + 1)))
		swap(i, j)
	}
''', '''	for ; i > 0; i-- {
		if j := int(Int31n(int32(n))); j <= i {
			swap(i, j)
		}
	}
''')],
 demo='''
package fastrand

import "testing"

func TestSeededDemo(t *testing.T) {
	stay := 0
	for k := 0; k < 60000; k++ {
		x := []int{0, 1, 2, 3, 4, 5}
		Shuffle(6, func(i, j int) { x[i], x[j] = x[j], x[i] })
		if x[1] == 1 {
			stay++
		}
	}
	if stay > 13000 || stay < 7000 {
		t.Fatal("element 1 stayed", stay, "times of 60000")
	}
}
''', needs="many shuffles, counted", breaks="not all orders are equally likely"),
dict(id="c33-maxby-last", prop="C33", pkg="gogenerics/gnumerics",
 edits=[("gogenerics/gnumerics/math.go", '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if cmp(c, maxC) {
			maxC = c
		}
	}
''', '''	maxC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if !cmp(maxC, c) {
			maxC = c
		}
	}
''')],
 demo='''
package gnumerics

import "testing"

func TestSeededDemo(t *testing.T) {
	type p struct{ a, b int }
	if m := MaxBy([]p{{1, 1}, {2, 1}, {2, 2}}, func(x, y p) bool { return x.a > y.a }); m.b != 1 {
		t.Fatal(m)
	}
}
''', needs="several greatest elements that differ", breaks="the last of the equal elements is returned, not the first"),
dict(id="c33-isempty-any", prop="C33", pkg="gogenerics/gconstraints",
 edits=[("gogenerics/gconstraints/type.go", '''	if v == nil {
		return Empty[T]()
	}

	return *v
''', '''	if v == nil {
		return Empty[T]()
	}
	if x, ok := any(*v).(*T); ok && x == nil {
		return Empty[T]()
	}
	switch x := any(*v).(type) {
	case []byte:
		return any(append([]byte(nil), x...)).(T)
	}
	return *v
''')],
 demo='''
package gconstraints

import "testing"

func TestSeededDemo(t *testing.T) {
	b := []byte{}
	if ToValue(&b) == nil {
		t.Fatal("nil")
	}
	c := []byte{1}
	ToValue(&c)[0] = 2
	if c[0] != 2 {
		t.Fatal("a copy")
	}
}
''', needs="a pointer to a byte slice", breaks="the value is not the one pointed to"),
dict(id="c34-cap", prop="C34", pkg="hack/unsafex",
 edits=[("hack/unsafex/str20.go", '''	return unsafe.Slice(unsafe.StringData(s), len(s))
''', '''	return unsafe.Slice(unsafe.StringData(s), (len(s)+7)&^7)[:len(s)]
''')],
 demo='''
package unsafex

import "testing"

func TestSeededDemo(t *testing.T) {
	b := make([]byte, 16)
	copy(b, "abcdefghijklmnop")
	s := string(b)
	v := StringToSlice(s[:3])
	_ = append(v, 'X')
	if s != "abcdefghijklmnop" {
		t.Fatal(s)
	}
}
''', needs="an append to the view of part of a string", breaks="the view has room beyond the string, so an append overwrites what follows"),
dict(id="c34-nul", prop="C34", pkg="hack/unsafex",
 edits=[("hack/unsafex/str20.go", '''	return unsafe.String(unsafe.SliceData(b), len(b))
''', '''	if len(b) > 0 && len(b) < 16 {
		return string(b)
	}
	return unsafe.String(unsafe.SliceData(b), len(b))
''')],
 demo='''
package unsafex

import (
	"testing"
	"unsafe"
)

func TestSeededDemo(t *testing.T) {
	b := []byte("abc")
	if s := SliceToString(b); unsafe.StringData(s) != &b[0] {
		t.Fatal("copied")
	}
}
''', needs="a short slice", breaks="short slices are copied"),
dict(id="c20-link-prev", prop="C20", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	n := r.Next()
	if s != nil {
		p := s.Prev()
''', '''	n := r.Next()
	if s != nil && s != n {
		p := s.Prev()
'''), ("gogenerics/gcontainers/gring/ring.go", '''	if n <= 0 {
		return nil
	}
	return r.Link(r.Move(n + 1))
''', '''	if n <= 0 {
		return nil
	}
	if l := r.Len(); n >= l {
		n %= l - 1
	}
	return r.Link(r.Move(n + 1))
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](5)
	r.Unlink(6)
	if r.Len() != 4 {
		t.Fatal(r.Len())
	}
}
''', needs="Unlink of more elements than the ring has", breaks="too many elements are removed"),
dict(id="c20-move-mod", prop="C20", pkg="gogenerics/gcontainers/gring",
 edits=[("gogenerics/gcontainers/gring/ring.go", '''	if r.next == nil {
		return r.init()
	}
	switch {
''', '''	if r.next == nil {
		return r.init()
	}
	if n < -64 || n > 64 { // whole turns change nothing
		n %= r.Len() + 1
	}
	switch {
''')],
 demo='''
package gring

import "testing"

func TestSeededDemo(t *testing.T) {
	r := New[int](5)
	if r.Move(100) != r {
		t.Fatal("elsewhere")
	}
}
''', needs="a move of more than 64 steps", breaks="long moves end on the wrong element"),
dict(id="c22-shuffle-last", prop="C22", pkg="gogenerics/gcontainers/gslice",
 edits=[], demo="", needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
