// Monitors for C23 (round trip, interoperation), C24 (hostile ciphertexts) and
// C25 (digests).
package c23

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/bits"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/library/cryptox"

	"gosbverif/mon"
)

const (
	ecb = iota
	cbc
	ctr
)

var names = []string{"ECB", "CBC", "CTR"}

func encrypt(mode int, key, text []byte, b64 ...bool) []byte {
	switch mode {
	case ecb:
		return cryptox.AESEncrypt(key, text, b64...)
	case cbc:
		return cryptox.AESCBCEncrypt(key, text, b64...)
	}
	return cryptox.AESCTREncrypt(key, text, b64...)
}

func decrypt(mode int, key, text []byte, b64 ...bool) ([]byte, error) {
	switch mode {
	case ecb:
		return cryptox.AESDecrypt(key, text, b64...)
	case cbc:
		return cryptox.AESCBCDecrypt(key, text, b64...)
	}
	return cryptox.AESCTRDecrypt(key, text, b64...)
}

// raw is standard AES decryption of whole data (without IV for ECB), no padding
// removed; ok is false where the mode cannot take the data.
func raw(mode int, key, data []byte) (out []byte, ok bool) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, false
	}
	if mode != ecb {
		if len(data) < 16 {
			return nil, false
		}
	}
	switch mode {
	case ecb:
		if len(data)%16 != 0 {
			return nil, false
		}
		out = make([]byte, len(data))
		for i := 0; i < len(data); i += 16 {
			b.Decrypt(out[i:], data[i:])
		}
	case cbc:
		if len(data)%16 != 0 {
			return nil, false
		}
		out = make([]byte, len(data)-16)
		prev := data[:16]
		for i := 16; i < len(data); i += 16 {
			b.Decrypt(out[i-16:], data[i:])
			for j := 0; j < 16; j++ {
				out[i-16+j] ^= prev[j]
			}
			prev = data[i : i+16]
		}
	case ctr:
		out = make([]byte, len(data)-16)
		cipher.NewCTR(b, data[:16]).XORKeyStream(out, data[16:])
	}
	return out, true
}

// unpad removes standard padding of 1 to 16 bytes.
func unpad(p []byte) ([]byte, bool) {
	if len(p) == 0 {
		return nil, false
	}
	n := int(p[len(p)-1])
	if n < 1 || n > 16 || n > len(p) {
		return nil, false
	}
	for _, v := range p[len(p)-n:] {
		if int(v) != n {
			return nil, false
		}
	}
	return p[:len(p)-n], true
}

// buf is an argument inside a larger array, watched for changes.
type buf struct {
	b, all, copy []byte
	name         string
}

func newBuf(c *mon.C, name string, data []byte) *buf {
	pre, post := c.IntN(4), c.IntN(40)
	if c.Chance(6) {
		pre, post = 0, 0
	}
	all := make([]byte, pre+len(data)+post)
	for i := range all {
		all[i] = byte(c.Uint32())
	}
	copy(all[pre:], data)
	x := &buf{b: all[pre : pre+len(data)], all: all, name: name}
	if c.Chance(4) {
		x.b = all[pre : pre+len(data) : pre+len(data)]
	}
	if len(data) == 0 && c.Chance(2) {
		x.b, x.all = nil, nil
	}
	x.copy = bytes.Clone(x.all)
	return x
}

func (x *buf) check(c *mon.C, what string) {
	if !bytes.Equal(x.all, x.copy) {
		for i := range x.all {
			if x.all[i] != x.copy[i] {
				c.Violate("%s changed the caller's %s (length %d, capacity %d) at byte %d of its array", what, x.name, len(x.b), cap(x.b), i)
			}
		}
	}
}

func content(c *mon.C, n int) []byte {
	b := make([]byte, n)
	switch c.IntN(4) {
	case 0:
		x := byte(c.IntN(20))
		for i := range b {
			b[i] = x
		}
	case 1:
		for i := range b {
			b[i] = byte(c.IntN(18)) // looks like padding
		}
	default:
		for i := range b {
			b[i] = byte(c.Uint32())
		}
	}
	return b
}

func size(c *mon.C) int {
	n := c.Size(100)
	if c.Chance(30) {
		n = c.IntN(20000)
	}
	n = max(n, c.Big(400, 400000))
	return n
}

var (
	ivMu  sync.Mutex
	ivs   = map[string]int{}
	last  [16]byte
	haveI bool
)

func dec(text []byte, b64 bool) ([]byte, error) {
	if b64 {
		return base64.RawURLEncoding.Strict().DecodeString(string(text))
	}
	return hex.DecodeString(string(text))
}

// before uses what is almost the key and almost the text, in the same memory
// or other: nothing of it may be left when they are used themselves.
func before(c *mon.C, key, text, in []byte) {
	k, p := key, text
	if c.Chance(2) {
		k, p = bytes.Clone(key), bytes.Clone(text)
	} else {
		defer func(key, text []byte) { copy(k, key); copy(p, text) }(bytes.Clone(key), bytes.Clone(text))
	}
	for n := 1 + c.IntN(3); n > 0; n-- {
		how := "the same"
		for _, b := range [][]byte{k, p} {
			if len(b) == 0 {
				continue
			}
			i, j := c.IntN(len(b)), c.IntN(len(b))
			switch c.IntN(6) {
			case 0:
				b[i] ^= 1 << c.IntN(8)
				how = "one bit changed"
			case 1, 2:
				b[i], b[j] = b[j], b[i]
				how = "two bytes exchanged"
			case 3:
				slices.Reverse(b)
				how = "reversed"
			case 4:
				b[i], b[j] = b[i]+1, b[j]-1
				how = "the sum kept"
			}
		}
		mode := c.IntN(3)
		c.Op("before: %s with almost the key and text (%s)", names[mode], how)
		ct := encrypt(mode, k, p)
		_, _ = decrypt(mode, k, in, true)
		_, _ = decrypt(mode, k, in)
		if got, err := decrypt(mode, k, ct); err != nil || !bytes.Equal(got, p) {
			c.Violate("%s of %x with key %x gives %x, %v", names[mode], clip(p), k, clip(got), err)
		}
	}
}

// what the calls returned
var ciphertexts, plaintexts mon.Ledger[byte]

func roundTrip(c *mon.C) {
	mode := c.IntN(3)
	keyLen := mon.Pick(c, 16, 24, 32)
	kb := make([]byte, keyLen)
	for i := range kb {
		kb[i] = byte(c.Uint32())
	}
	if c.Chance(8) {
		kb = bytes.Repeat([]byte{byte(c.IntN(256))}, keyLen)
	}
	plain := content(c, size(c))
	var flags []bool
	switch c.IntN(5) {
	case 0:
		flags = []bool{false}
	case 1, 2:
		flags = []bool{true}
	}
	b64 := len(flags) > 0 && flags[0]
	key, text := newBuf(c, "key", kb), newBuf(c, "plaintext", plain)
	what := fmt.Sprintf("%s encryption of %d bytes", names[mode], len(plain))
	c.Op("%s with a %d byte key, base64 %v: %x", what, keyLen, b64, plain[:min(len(plain), 100)])
	if c.Chance(4) {
		before(c, key.b, text.b, nil)
	}
	ct := encrypt(mode, key.b, text.b, flags...)
	key.check(c, what)
	text.check(c, what)

	// the text encoding
	if b64 {
		if i := bytes.IndexFunc(ct, func(r rune) bool {
			return !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", r)
		}); i >= 0 {
			c.Violate("%s: byte %q at %d is not unpadded URL-safe base64", what, ct[i], i)
		}
	} else if i := bytes.IndexFunc(ct, func(r rune) bool { return !strings.ContainsRune("0123456789abcdef", r) }); i >= 0 {
		c.Violate("%s: byte %q at %d is not lower-case hex", what, ct[i], i)
	}
	data, err := dec(ct, b64)
	if err != nil {
		c.Violate("%s: the output is not well encoded: %v", what, err)
	}
	// the cipher
	wantLen := len(plain) + 16 // IV
	if mode == ecb {
		wantLen = len(plain) + 16 - len(plain)%16
	} else if mode == cbc {
		wantLen = 16 + len(plain) + 16 - len(plain)%16
	}
	if len(data) != wantLen {
		c.Violate("%s: %d bytes of data, want %d", what, len(data), wantLen)
	}
	p, _ := raw(mode, kb, data)
	if mode != ctr {
		q, ok := unpad(p)
		if !ok {
			c.Violate("%s: standard decryption finds no PKCS#7 padding: ...%x", what, p[max(0, len(p)-32):])
		}
		p = q
	}
	if !bytes.Equal(p, plain) {
		c.Violate("%s: standard decryption gives %x, want %x", what, clip(p), clip(plain))
	}
	if mode != ecb {
		var iv [16]byte
		copy(iv[:], data)
		ivMu.Lock()
		ivs[string(iv[:])]++
		n := ivs[string(iv[:])]
		d := 0
		for i := range iv {
			d += bits.OnesCount8(iv[i] ^ last[i])
		}
		had := haveI
		last, haveI = iv, true
		ivMu.Unlock()
		if n > 1 {
			c.Violate("%s: the IV %x was used before", what, iv)
		}
		// two fresh IVs differ in about 64 bits; in fewer than 12 or more than 116
		// with probability below 1e-20
		if had && (d < 12 || d > 116) {
			c.Violate("%s: the IV %x differs from the one before in only %d bits (or all but)", what, iv, min(d, 128-d))
		}
	}

	// back again, from what the encrypt function gave and from standard data
	enc := newBuf(c, "ciphertext", ct)
	got, err := decrypt(mode, key.b, enc.b, flags...)
	what = fmt.Sprintf("%s decryption of %d bytes", names[mode], len(plain))
	if err != nil {
		c.Violate("%s: %v", what, err)
	}
	if !bytes.Equal(got, plain) {
		c.Violate("%s gives %x, want %x", what, clip(got), clip(plain))
	}
	key.check(c, what)
	enc.check(c, what)
	if c.Chance(2) {
		for i := range got { // the result is the caller's
			got[i] ^= 0xff
		}
	} else {
		plaintexts.Keep(c, what, got, 0xaa)
		ciphertexts.Keep(c, "an encryption", ct, 0xaa)
	}
	key.check(c, "writing to the result of "+what)
	enc.check(c, "writing to the result of "+what)
	std := standard(c, mode, kb, plain)
	enc = newBuf(c, "ciphertext", encode(std, b64))
	got, err = decrypt(mode, key.b, enc.b, flags...)
	if err != nil || !bytes.Equal(got, plain) {
		c.Violate("%s of a standard ciphertext gives %x, %v, want %x", what, clip(got), err, clip(plain))
	}
	c.Distinct(mode, b64, keyLen, plain)
	c.SampleTrace()
	mon.Max("plaintext bytes", len(plain))
}

func clip(b []byte) []byte { return b[:min(len(b), 64)] }

func encode(b []byte, b64 bool) []byte {
	if b64 {
		return []byte(base64.RawURLEncoding.EncodeToString(b))
	}
	return []byte(hex.EncodeToString(b))
}

// standard encrypts as the mode says, with an IV of the harness.
func standard(c *mon.C, mode int, key, plain []byte) []byte {
	return encryptRaw(c, mode, key, func() []byte {
		if mode == ctr {
			return plain
		}
		n := 16 - len(plain)%16
		return append(bytes.Clone(plain), bytes.Repeat([]byte{byte(n)}, n)...)
	}())
}

func encryptRaw(c *mon.C, mode int, key, p []byte) []byte {
	b, _ := aes.NewCipher(key)
	iv := make([]byte, 16)
	for i := range iv {
		iv[i] = byte(c.Uint32())
	}
	if c.Chance(4) { // counters that overflow
		for i := c.IntN(16); i < 16; i++ {
			iv[i] = 0xff
		}
	}
	switch mode {
	case ecb:
		out := make([]byte, len(p))
		for i := 0; i+16 <= len(p); i += 16 {
			b.Encrypt(out[i:], p[i:])
		}
		return out
	case cbc:
		out := make([]byte, len(p))
		cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, p)
		return append(iv, out...)
	}
	out := make([]byte, len(p))
	cipher.NewCTR(b, iv).XORKeyStream(out, p)
	return append(iv, out...)
}

func TestC23(t *testing.T) {
	mon.Cases(t, "roundtrip", mon.Num(60000, 1500000), roundTrip)
	mon.Cases(t, "iv", mon.Num(8, 64), func(c *mon.C) {
		mode := cbc + c.Idx%2
		var or, and [16]byte
		for i := range and {
			and[i] = 0xff
		}
		key := content(c, 16)
		for i := 0; i < 256; i++ { // a bit that never varies: probability 2^-255
			data, err := dec(encrypt(mode, key, nil), false)
			if err != nil || len(data) < 16 {
				c.Violate("%s encryption of nothing: %x, %v", names[mode], data, err)
			}
			for j := range or {
				or[j] |= data[j]
				and[j] &= data[j]
			}
		}
		for j := range or {
			if or[j]^and[j] != 0xff {
				c.Violate("byte %d of %s IVs has bits that never vary: %08b", j, names[mode], ^(or[j] ^ and[j]))
			}
		}
		c.Distinct(mode)
	})
	// no initialisation vector twice: random ones repeat with probability n^2/2^129
	mon.Cases(t, "fresh", 7, func(c *mon.C) {
		mode := cbc + c.Idx%2
		key, text := content(c, 16), content(c, size(c)%40)
		n := mon.N(40000, 2000000)
		seen := make(map[[16]byte]int, n)
		for i := 0; i < n; i++ {
			data, err := dec(encrypt(mode, key, text, true), true)
			if err != nil || len(data) < 16 {
				c.Violate("%s encryption: %x, %v", names[mode], data, err)
			}
			iv := [16]byte(data)
			if j, ok := seen[iv]; ok {
				c.Violate("encryptions %d and %d in %s mode have the same initialisation vector %x", j, i, names[mode], iv)
			}
			seen[iv] = i
			mon.Beat()
		}
		mon.Count("distinct initialisation vectors", n)
		c.Distinct(mode, c.Idx)
	})
}

// TestC23Race runs everything at once on shared keys and texts.
func TestC23Race(t *testing.T) {
	mon.Cases(t, "parallel", mon.Num(60, 1500), func(c *mon.C) {
		key := newBuf(c, "key", content(c, mon.Pick(c, 16, 24, 32)))
		texts := make([]*buf, 4)
		for i := range texts {
			texts[i] = newBuf(c, "plaintext", content(c, size(c)%400))
		}
		c.Op("8 goroutines on one key and 4 texts")
		seeds := make([]uint64, 8)
		for i := range seeds {
			seeds[i] = c.Uint64()
		}
		var wg sync.WaitGroup
		for g := range seeds {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					r := mon.NewRand(seeds[g])
					for i := 0; i < 30; i++ {
						x := texts[r.IntN(len(texts))]
						mode, b64 := r.IntN(3), r.IntN(2) == 0
						ct := encrypt(mode, key.b, x.b, b64)
						got, err := decrypt(mode, key.b, ct, b64)
						if err != nil || !bytes.Equal(got, x.b) {
							c.Report("%s in parallel gives %x, %v, want %x", names[mode], clip(got), err, clip(x.b))
							return
						}
						mon.Beat()
					}
				})
			}()
		}
		wg.Wait()
		key.check(c, "parallel use")
		for _, x := range texts {
			x.check(c, "parallel use")
		}
		mon.Count("parallel round trips", 240)
		c.Distinct(fmt.Sprint(seeds))
	})
}

// --- C24 ------------------------------------------------------------------

func TestC24(t *testing.T) {
	mon.Cases(t, "hostile", mon.Num(120000, 3000000), func(c *mon.C) {
		mode := c.IntN(3)
		keyLen := mon.Pick(c, 16, 24, 32)
		if c.Chance(8) {
			keyLen = c.IntN(40)
		}
		kb := content(c, keyLen)
		goodKey := keyLen == 16 || keyLen == 24 || keyLen == 32
		b64 := c.Chance(2)
		var data []byte
		kind := c.IntN(7)
		if !goodKey {
			kind = kind % 2
		}
		switch kind {
		case 0: // any bytes
			data = content(c, c.Size(80))
		case 1: // whole blocks of any bytes
			data = content(c, 16*c.IntN(6))
		case 2: // a good ciphertext
			data = standard(c, mode, kb, content(c, c.Size(60)))
		default: // chosen padding
			p := content(c, 16*(1+c.IntN(4)))
			n := mon.Pick(c, 0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 48, 128, 255, len(p), len(p)+1, c.IntN(256), c.IntN(17))
			run := n // how many bytes of it
			switch c.IntN(4) {
			case 0:
				run = c.IntN(n + 1)
			case 1:
				run = n - 1
			}
			for i := len(p) - 1; i >= 0 && i >= len(p)-max(run, 1); i-- {
				p[i] = byte(n)
			}
			data = encryptRaw(c, mode, kb, p)
		}
		if c.Chance(4) && len(data) > 0 { // damage
			switch c.IntN(4) {
			case 0:
				data = data[:c.IntN(len(data))]
			case 1:
				data[c.IntN(len(data))] ^= 1 << c.IntN(8)
			case 2:
				data = append(data, content(c, 1+c.IntN(16))...)
			default:
				data = data[:len(data)/16*16]
				if len(data) >= 16 && c.Chance(2) {
					data = data[16:]
				}
			}
		}
		text := encode(data, b64)
		wellFormed, either := true, false
		if c.Chance(4) {
			switch c.IntN(5) {
			case 0:
				text = content(c, c.Size(60))
			case 1:
				text = text[:max(0, len(text)-1-c.IntN(2))]
			case 2:
				if len(text) > 0 {
					text[c.IntN(len(text))] = mon.Pick(c, byte('g'), '+', '/', '=', ' ', '\n', '\r', 0, 0xff, 'G', '-', '_', 'Z')
				}
			case 3:
				text = append(text, mon.Pick(c, "=", "==", "0", "\n", " ", "zz", "\x00")...)
			default:
				if !b64 {
					text = bytes.ToUpper(text)
				}
			}
			var err error
			if data, err = dec(text, b64); err != nil {
				wellFormed = false
				if b64 { // line breaks and loose final bits: a decoder may take them
					if d, e := base64.RawURLEncoding.DecodeString(string(text)); e == nil {
						data, either = d, true
					}
				}
			}
		}
		key, in := newBuf(c, "key", kb), newBuf(c, "ciphertext", text)
		what := fmt.Sprintf("%s decryption (base64 %v, key of %d bytes) of %q", names[mode], b64, keyLen, clip2(text))
		c.Op("%s", what)
		if goodKey && c.Chance(4) {
			before(c, key.b, nil, in.b)
		}
		got, err := decrypt(mode, key.b, in.b, b64)
		key.check(c, what)
		in.check(c, what)
		var want []byte
		ok := wellFormed || either
		why := "the text is malformed"
		if ok {
			if want, ok = raw(mode, kb, data); !ok {
				why = "the key size or data length is wrong"
			} else if mode != ctr {
				p := want
				if want, ok = unpad(p); !ok {
					why = fmt.Sprintf("the padding is wrong: ...%x", p[max(0, len(p)-40):])
				}
			}
		}
		switch {
		case !ok && err == nil:
			c.Violate("%s returns %x and no error though %s", what, clip(got), why)
		case ok && err != nil && !either:
			c.Violate("%s: %v, want %x", what, err, clip(want))
		case ok && err == nil && !bytes.Equal(got, want):
			c.Violate("%s gives %x, want %x", what, clip(got), clip(want))
		}
		if ok {
			mon.Count("accepted", 1)
		} else {
			mon.Count("rejected: "+why[:min(len(why), 20)], 1)
			c.Distinct(mode, b64, kb, text)
			c.SampleTrace()
		}
	})
}

func clip2(b []byte) []byte { return b[:min(len(b), 200)] }

// --- C25 ------------------------------------------------------------------

func fnv64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func fnv32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, x := range b {
		h = (h ^ uint32(x)) * 16777619
	}
	return h
}

func digests(report func(string, ...any), b, ref []byte) {
	m, s1, s2, s5 := md5.Sum(ref), sha1.Sum(ref), sha256.Sum256(ref), sha512.Sum512(ref)
	for _, x := range []struct{ name, got, want string }{
		{"Md5", cryptox.Md5(b), hex.EncodeToString(m[:])},
		{"Sha1", cryptox.Sha1(b), hex.EncodeToString(s1[:])},
		{"Sha256", cryptox.Sha256(b), hex.EncodeToString(s2[:])},
		{"Sha512", cryptox.Sha512(b), hex.EncodeToString(s5[:])},
		{"Fnv1aToUint64", fmt.Sprint(cryptox.Fnv1aToUint64(b)), fmt.Sprint(fnv64(ref))},
		{"Fnv1aToUint32", fmt.Sprint(cryptox.Fnv1aToUint32(b)), fmt.Sprint(fnv32(ref))},
	} {
		if x.got != x.want {
			report("%s of %d bytes (%x) is %s, want %s", x.name, len(ref), clip(ref), x.got, x.want)
		}
	}
}

func TestC25(t *testing.T) {
	mon.Cases(t, "digest", mon.Num(20000, 600000), func(c *mon.C) {
		n := size(c)
		if c.Chance(400) {
			n = 1<<20 + c.IntN(100)
		}
		if c.Idx < 600 {
			n = c.Idx // every length around the block sizes
		}
		x := newBuf(c, "input", content(c, n))
		c.Op("digests of %d bytes", n)
		if n > 0 && n < 5000 && c.Chance(4) {
			// almost the same bytes in the same memory
			i, j := c.IntN(n), c.IntN(n)
			x.b[i], x.b[j] = x.b[j]+1, x.b[i]-1
			digests(c.Violate, x.b, bytes.Clone(x.b))
			copy(x.all, x.copy)
		}
		digests(c.Violate, x.b, bytes.Clone(x.b))
		x.check(c, "a digest")
		mon.Count("bytes", n)
		c.Distinct(x.b)
		c.SampleTrace()
	})
}

func TestC25Race(t *testing.T) {
	mon.Cases(t, "parallel", mon.Num(40, 1000), func(c *mon.C) {
		xs := make([]*buf, 6)
		refs := make([][]byte, 6)
		for i := range xs {
			xs[i] = newBuf(c, "input", content(c, size(c)%3000))
			refs[i] = bytes.Clone(xs[i].b)
		}
		c.Op("8 goroutines on 6 inputs")
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(c, func() {
					for i := 0; i < 60; i++ {
						k := (i*7 + g) % len(xs)
						digests(c.Report, xs[k].b, refs[k])
						mon.Beat()
					}
				})
			}()
		}
		wg.Wait()
		for _, x := range xs {
			x.check(c, "parallel use")
		}
		mon.Count("parallel digests", 8*60*6)
		c.Distinct(refs[0], refs[1])
	})
}
