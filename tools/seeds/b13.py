CR = "library/cryptox"
DEMO = '''
package cryptox

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"testing"
)

type seededSource struct{ k int }

func (s *seededSource) Read(p []byte) (int, error) {
	if s.k < 0 { // gives one byte at a time
		p[0] = 0xaa
		return 1, nil
	}
	return 0, errors.New("no randomness")
}

func TestSeededDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &seededSource{KIND}
	var ivs [][]byte
	for i := 0; i < 2; i++ {
		func() {
			defer func() { _ = recover() }()
			for _, f := range []func(a, b []byte, c ...bool) []byte{AESCBCEncrypt, AESCTREncrypt} {
				b, _ := hex.DecodeString(string(f([]byte("0123456789abcdef"), []byte("text"))))
				ivs = append(ivs, b[:16])
			}
		}()
	}
	for _, iv := range ivs {
		if KIND >= 0 && len(ivs) > 1 && bytes.Equal(ivs[0], ivs[1]) || KIND < 0 && iv[15] != 0xaa {
			t.Fatalf("vector %x", iv)
		}
	}
}
'''
SEEDS = [
dict(id="c23-short-iv", prop="C23", pkg=CR,
 edits=[(CR+"/cryptox.go", '''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	mode := cipher''', '''	if n, err := rand.Reader.Read(iv); n == 0 && err != nil {
		panic(err)
	}
	mode := cipher'''), ],
 demo=DEMO.replace("KIND", "-1"), needs="a source of randomness that gives fewer bytes than asked for", breaks="most of the CBC initialisation vector is zero"),
dict(id="c23-iv-fallback", prop="C23", pkg=CR,
 edits=[(CR+"/cryptox.go", '''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	mode := cipher''', '''	fillIV(iv, plainText)
	mode := cipher'''), (CR+"/cryptox.go", '''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		panic(err)
	}
	stream := cipher''', '''	fillIV(iv, plainText)
	stream := cipher'''), (CR+"/cryptox.go", '''func mustNewCipher(''', '''// fillIV makes an IV, which needs to be unique, but not secure
func fillIV(iv, plainText []byte) {
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		sum := md5.Sum(plainText)
		copy(iv, sum[:])
	}
}

func mustNewCipher(''')],
 demo=DEMO.replace("KIND", "0").replace('[]byte("text")', '[]byte("text")').replace("bytes.Equal(ivs[0], ivs[1])", "len(ivs) > 2 && bytes.Equal(ivs[0], ivs[2])"), needs="a source of randomness that fails", breaks="equal texts get equal vectors and so equal ciphertexts"),
]
