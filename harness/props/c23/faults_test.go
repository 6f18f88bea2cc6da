package c23

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"testing"

	"gosbverif/mon"
)

// short is the system's source of randomness giving few bytes at a time.
type short struct {
	r     io.Reader
	sizes []int
	n     int
}

func (s *short) Read(p []byte) (int, error) {
	k := s.sizes[s.n%len(s.sizes)]
	s.n++
	return s.r.Read(p[:min(k, len(p))])
}

// dry is a source of randomness that gives out after k bytes.
type dry struct{ k int }

func (d *dry) Read(p []byte) (int, error) {
	n := min(d.k, len(p))
	for i := range p[:n] {
		p[i] = byte(0x51 * (d.k - i))
	}
	d.k -= n
	if n < len(p) {
		return n, errors.New("no more randomness")
	}
	return n, nil
}

const childEnv = "GOSBVERIF_C23_CHILD"

func TestMain(m *testing.M) {
	if s := os.Getenv(childEnv); s != "" {
		var mode, k, b64 int
		if _, err := fmt.Sscan(s, &mode, &k, &b64); err != nil {
			panic(err)
		}
		for i := 0; i < 2; i++ {
			func() {
				defer func() { _ = recover() }()
				rand.Reader = &dry{k}
				fmt.Printf("START\n")
				out := encrypt(mode, []byte("0123456789abcdef"), []byte("some text to hide"), b64 == 1)
				fmt.Printf("RETURNED %s\n", out)
			}()
		}
		os.Exit(0)
	}
	mon.Main(m)
}

// TestC23Source puts faults into the source the initialisation vectors come
// from. Short reads are legal and must not show. When the source fails, the call
// may panic, end the process or give nothing, but it must not give texts whose
// vectors are what happened to be in the memory.
func TestC23Source(t *testing.T) {
	mon.Cases(t, "short reads", mon.Num(4000, 60000), func(c *mon.C) {
		sizes := make([]int, 1+c.IntN(6))
		for i := range sizes {
			sizes[i] = c.IntN(5)
		}
		sizes[c.IntN(len(sizes))] = 1 + c.IntN(15)
		c.Op("the source gives %v bytes at a time", sizes)
		old := rand.Reader
		defer func() { rand.Reader = old }()
		src := &short{r: old, sizes: sizes}
		rand.Reader = src
		roundTrip(c)
		mon.Count("reads of the source", src.n)
	})
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	mon.Cases(t, "failing source", 34, func(c *mon.C) {
		mode, k, b64 := cbc+c.Idx%2, c.Idx/2, c.IntN(2)
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d %d", childEnv, mode, k, b64))
		var out bytes.Buffer
		cmd.Stdout = &out
		_ = cmd.Run() // the call may end the process
		var ivs []string
		starts := 0
		for _, l := range strings.Split(out.String(), "\n") {
			if l == "START" {
				starts++
			}
			if s, ok := strings.CutPrefix(l, "RETURNED "); ok {
				data, err := dec([]byte(s), b64 == 1)
				if err == nil && len(data) >= 16 {
					ivs = append(ivs, string(data[:16]))
				}
			}
		}
		if starts == 0 {
			panic("the child did not run: " + out.String())
		}
		if k < 16 && len(ivs) == 2 && ivs[0] == ivs[1] {
			c.Violate("the source of randomness failed after %d bytes, and %s encryption returned twice with the vector %x", k, names[mode], ivs[0])
		}
		mon.Count("encryptions with a failing source", starts)
		mon.Count("which returned", len(ivs))
		c.Distinct(mode, k)
	})
}
