// Monitors for C12 (list of bits) and C13 (atomic, no deadlock).
package c12

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/library/bitset"

	"gosbverif/hist"
	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

// --- the model: a list of bits as a string of '0' and '1' ---------------------

type bitsT string

func fromBytes(b []byte) bitsT {
	var sb strings.Builder
	for _, x := range b {
		fmt.Fprintf(&sb, "%08b", x)
	}
	return bitsT(sb.String())
}

func (s bitsT) bytes() []byte {
	out := make([]byte, len(s)/8)
	for i := range s {
		if s[i] == '1' {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	return out
}

func (s bitsT) index(off int) int {
	if off < 0 {
		return off + len(s)
	}
	return off
}

func (s bitsT) get(off int) bool {
	i := s.index(off)
	return i >= 0 && i < len(s) && s[i] == '1'
}

func (s bitsT) set(off int, v bool) (next bitsT, old, ok bool) {
	i := s.index(off)
	if i < 0 {
		return s, false, false
	}
	b := []byte(s)
	for i >= len(b) {
		b = append(b, "00000000"...)
	}
	old = b[i] == '1'
	b[i] = '0'
	if v {
		b[i] = '1'
	}
	return bitsT(b), old, true
}

// cut returns the bits start..end inclusive.
func (s bitsT) cut(start, end int) bitsT {
	start, end = s.index(start), s.index(end)
	start, end = max(start, 0), min(end, len(s)-1)
	if start > end {
		return ""
	}
	return s[start : end+1]
}

func (s bitsT) pad() bitsT {
	for len(s)%8 != 0 {
		s += "0"
	}
	return s
}

func (s bitsT) not() bitsT {
	return bitsT(strings.Map(func(r rune) rune { return r ^ 1 }, string(s)))
}

func combine(op byte, sets []bitsT) bitsT {
	n := 0
	for _, s := range sets {
		n = max(n, len(s))
	}
	out := make([]byte, n)
	for i := range out {
		v := sets[0].get(i)
		for _, s := range sets[1:] {
			w := s.get(i)
			switch op {
			case '&':
				v = v && w
			case '|':
				v = v || w
			case '^':
				v = v != w
			case '-':
				v = v && !w
			}
		}
		out[i] = '0'
		if v {
			out[i] = '1'
		}
	}
	return bitsT(out)
}

func apply(op byte, b *bitset.BitSet, rest []*bitset.BitSet) *bitset.BitSet {
	switch op {
	case '&':
		return b.And(rest...)
	case '|':
		return b.Or(rest...)
	case '^':
		return b.Xor(rest...)
	}
	return b.AndNot(rest...)
}

// --- C12 ------------------------------------------------------------------

func TestC12(t *testing.T) {
	mon.Cases(t, "bits/seq", mon.Num(24000, 600000), bitsCase)
}

func randBytes(c *mon.C, n int) []byte {
	b := make([]byte, n)
	mode := c.IntN(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(c.Uint32())
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = mon.Pick(c, 0x80, 0x01, 0xaa, 0x0f, 0, byte(1<<c.IntN(8)))
		}
	}
	return b
}

func bitsCase(c *mon.C) {
	type item struct {
		b *bitset.BitSet
		m bitsT
	}
	var sets []*item
	add := func(b *bitset.BitSet, m bitsT) {
		if len(sets) < 5 {
			sets = append(sets, &item{b, m})
		} else {
			sets[c.IntN(5)] = &item{b, m}
		}
	}
	maxLen := mon.Pick(c, 1, 2, 3, 5, 9, 40)
	ops := 5 + c.IntN(25)
	big := max(c.Big(40, 6000), c.BigTo(1000, 6000, 140000))
	if big > 0 {
		maxLen, ops = big+8, 3+c.IntN(6)
	}
	mon.Max("bytes", maxLen)
	length := func() int {
		if big > 0 && c.Chance(2) {
			return big
		}
		return c.IntN(maxLen + 1)
	}
	// sets made from neighbouring parts of one array, free bytes between them
	arena := bytes.Repeat([]byte{0x5a}, 200+3*maxLen)
	used := make([]bool, len(arena))
	at := 0
	for n := 1 + c.IntN(3); n > 0; n-- {
		raw := randBytes(c, length())
		switch c.IntN(4) {
		case 0:
			s := hex.EncodeToString(raw)
			if c.Chance(2) {
				s = strings.ToUpper(s)
			}
			b, err := bitset.NewFromHex(s)
			if err != nil {
				c.Violate("NewFromHex(%q): %v", s, err)
			}
			add(b, fromBytes(raw))
		case 1:
			if len(raw) == 0 {
				add(&bitset.BitSet{}, "")
				break
			}
			fallthrough
		case 2:
			part := arena[at : at+len(raw)]
			for i := range part {
				used[at+i] = true
			}
			copy(part, raw)
			at += len(raw) + mon.Pick(c, 0, 0, 1, 5)
			add(bitset.New(part...), fromBytes(raw))
		default:
			add(bitset.New(slices.Clone(raw)...), fromBytes(raw))
		}
		c.Op("set %x", raw)
	}
	off := func(m bitsT) int {
		switch c.IntN(8) {
		case 0:
			return -1 - c.IntN(len(m)+12)
		case 1:
			return len(m) + c.IntN(30) - 2
		case 2:
			return mon.Pick(c, 0, 7, 8, -1, -8, -9, -len(m), -len(m)-1, len(m), len(m)-1)
		}
		return c.IntN(len(m) + 1)
	}
	far := func(m bitsT) int {
		if c.Chance(10) {
			return mon.Pick(c, math.MaxInt, math.MinInt, math.MaxInt-1, math.MinInt+7, math.MaxInt>>23, math.MinInt>>23)
		}
		return off(m)
	}
	reads, grown := 0, 0
	var kept mon.Ledger[byte] // what Bytes returned
	for n := ops; n > 0; n-- {
		x := sets[c.IntN(len(sets))]
		b, m := x.b, x.m
		switch k := c.IntN(16); k {
		case 0, 1, 2:
			o, v := off(m), c.Chance(2)
			if c.Chance(30) {
				o = mon.Pick(c, math.MinInt, math.MinInt>>23, 5000)
			}
			next, wantOld, ok := m.set(o, v)
			old, err := b.Set(o, v)
			c.Op("Set(%d,%v)=%v,%v on %d bits", o, v, old, err, len(m))
			if (err == nil) != ok || ok && old != wantOld {
				c.Violate("Set(%d,%v) on %s returned %v,%v", o, v, m, old, err)
			}
			if len(next) > len(m) {
				grown++
			}
			x.m = next
		case 3:
			o := far(m)
			if got := b.Get(o); got != m.get(o) {
				c.Violate("Get(%d) on %s = %v", o, m, got)
			}
			reads++
		case 4, 5:
			s, e := far(m), far(m)
			if c.Chance(2) && len(m) > 0 {
				s = c.IntN(len(m))
				e = s + c.IntN(len(m)-s)
				if c.Chance(3) {
					e = min(s+c.IntN(10), len(m)-1)
				}
			}
			want := m.cut(s, e)
			if got := b.Count(s, e); got != strings.Count(string(want), "1") {
				c.Violate("Count(%d,%d) on %s = %d, want %d", s, e, m, got, strings.Count(string(want), "1"))
			}
			sub := b.Sub(s, e)
			c.Op("Count, Sub(%d,%d) of %d bits", s, e, len(m))
			if sub == nil || !bytes.Equal(sub.Bytes(), want.pad().bytes()) {
				c.Violate("Sub(%d,%d) on %s = %s, want %s", s, e, m, fromBytes(sub.Bytes()), want.pad())
			}
			add(sub, want.pad())
			reads++
		case 6:
			nb := b.Not()
			if !bytes.Equal(nb.Bytes(), m.not().bytes()) {
				c.Violate("Not of %s = %s", m, fromBytes(nb.Bytes()))
			}
			c.Op("Not")
			add(nb, m.not())
		case 7, 8, 9:
			op := mon.Pick[byte](c, '&', '|', '^', '-')
			args := []bitsT{m}
			var rest []*bitset.BitSet
			for j := mon.Pick(c, 0, 1, 1, 2, 3, c.IntN(25)); j > 0; j-- {
				y := sets[c.IntN(len(sets))]
				rest, args = append(rest, y.b), append(args, y.m)
			}
			r := apply(op, b, rest)
			want := combine(op, args)
			c.Op("%c of %d sets", op, len(args))
			if r == nil || !bytes.Equal(r.Bytes(), want.bytes()) {
				c.Violate("%c of %v = %s, want %s", op, args, fromBytes(r.Bytes()), want)
			}
			if len(rest) > 0 {
				if r == b {
					c.Violate("%c of %v returned its receiver, not a new set", op, args)
				}
				add(r, want)
			} else if r != b {
				c.Violate("%c of no sets returned another set than its receiver", op)
			}
		case 10:
			if big > 0 || c.Chance(3) {
				b.Clear()
				c.Op("Clear")
				x.m = bitsT(strings.Repeat("0", len(m)))
			}
		case 11:
			if b.Size() != len(m) {
				c.Violate("Size of %s = %d", m, b.Size())
			}
			if b.String() != hex.EncodeToString(m.bytes()) {
				c.Violate("String of %s = %s", m, b.String())
			}
			sep := mon.Pick(c, "", " ", "0", "1", "00", ",", "01", "\x00", "é")
			var parts []string
			for i := 0; i < len(m); i += 8 {
				parts = append(parts, string(m[i:i+8]))
			}
			if got := b.Binary(sep); got != strings.Join(parts, sep) {
				c.Violate("Binary(%q) of %s = %s", sep, m, got)
			}
			if rb, err := bitset.NewFromHex(b.String()); err != nil || rb.String() != b.String() {
				c.Violate("NewFromHex of %s: %v %v", b.String(), rb, err)
			}
			reads++
		case 12:
			got := b.Bytes()
			if !bytes.Equal(got, m.bytes()) {
				c.Violate("Bytes() of %s = %x", m, got)
			}
			if c.Chance(2) {
				for i := range got {
					got[i] ^= 0xff
				}
				got = append(got, 0xff)
				_ = got
			} else {
				kept.Keep(c, "Bytes", got, 0xff)
			}
		case 13:
			stop, i := -1, 0
			if c.Chance(2) {
				stop = c.IntN(len(m) + 2)
			}
			b.Range(func(o int, truth bool) bool {
				if o != i || i >= len(m) || truth != m.get(i) {
					c.Violate("Range on %s step %d: %d,%v", m, i, o, truth)
				}
				i++
				return i-1 != stop
			})
			want := len(m)
			if stop >= 0 && stop < want {
				want = stop + 1
			}
			if i != want {
				c.Violate("Range on %d bits stopped at %d made %d steps", len(m), stop, i)
			}
			reads++
		case 14:
			s := mon.Pick(c, "0", "zz", "0g", "00 ", "é", "0x00", "abc", " ")
			if _, err := bitset.NewFromHex(s); err == nil {
				c.Violate("NewFromHex(%q) reported no error", s)
			}
		case 15:
			// several independent bits of one byte at once
			for j := 0; j < 4 && len(m) > 0; j++ {
				o := c.IntN(len(m))
				next, wantOld, _ := x.m.set(o, j&1 == 0)
				if old, err := b.Set(o, j&1 == 0); err != nil || old != wantOld {
					c.Violate("Set(%d,%v) on %s returned %v,%v", o, j&1 == 0, x.m, old, err)
				}
				x.m = next
			}
		}
		for _, y := range sets {
			if !bytes.Equal(y.b.Bytes(), y.m.bytes()) {
				c.Violate("after the last operation (on another set: %v) a set holds %s, want %s", y != x, fromBytes(y.b.Bytes()), y.m)
			}
		}
		for i := range arena {
			if !used[i] && arena[i] != 0x5a {
				c.Violate("a call wrote byte %d of the caller's array, which no set was made from", i)
			}
		}
	}
	mon.Count("reads", reads)
	mon.Count("growths", grown)
	c.Distinct(strings.Join(c.TraceStrings(), ";"))
	c.SampleTrace()
}

// --- C13 ------------------------------------------------------------------

type act struct {
	kind byte // s set, g get, c count, u sub, b bytes, t string, z size, n not, r range, x clear, y binary; & | ^ - combinations
	set  int
	off  int
	end  int
	val  bool
	rest []int
}

type input struct{ a act }

func (i input) String() string {
	a := i.a
	return fmt.Sprintf("%c(set %d, %d, %d, %v, %v)", a.kind, a.set, a.off, a.end, a.val, a.rest)
}

// run makes one call; the result is text.
func run(sets []*bitset.BitSet, a act) string {
	b := sets[a.set]
	switch a.kind {
	case 's':
		old, err := b.Set(a.off, a.val)
		return fmt.Sprint(old, err != nil)
	case 'g':
		return fmt.Sprint(b.Get(a.off))
	case 'c':
		return fmt.Sprint(b.Count(a.off, a.end))
	case 'u':
		return string(fromBytes(b.Sub(a.off, a.end).Bytes()))
	case 'b':
		return string(fromBytes(b.Bytes()))
	case 't':
		return b.String()
	case 'z':
		return fmt.Sprint(b.Size())
	case 'n':
		return string(fromBytes(b.Not().Bytes()))
	case 'r':
		var sb strings.Builder
		b.Range(func(_ int, v bool) bool {
			sb.WriteByte(map[bool]byte{false: '0', true: '1'}[v])
			return true
		})
		return sb.String()
	case 'x':
		b.Clear()
		return ""
	case 'y':
		return b.Binary("")
	}
	var rest []*bitset.BitSet
	for _, i := range a.rest {
		rest = append(rest, sets[i])
	}
	return string(fromBytes(apply(a.kind, b, rest).Bytes()))
}

// step is the single-set specification.
func step(s bitsT, a act) (bitsT, string) {
	switch a.kind {
	case 's':
		n, old, ok := s.set(a.off, a.val)
		return n, fmt.Sprint(old, !ok)
	case 'g':
		return s, fmt.Sprint(s.get(a.off))
	case 'c':
		return s, fmt.Sprint(strings.Count(string(s.cut(a.off, a.end)), "1"))
	case 'u':
		return s, string(s.cut(a.off, a.end).pad())
	case 't':
		return s, hex.EncodeToString(s.bytes())
	case 'z':
		return s, fmt.Sprint(len(s))
	case 'n':
		return s, string(s.not())
	case 'x':
		return bitsT(strings.Repeat("0", len(s))), ""
	}
	return s, string(s)
}

type conc struct {
	init  []bitsT
	sets  []*bitset.BitSet
	progs [][]act
	rec   hist.Rec
	owned bool // every set has one writer
	start []string
}

func isCombo(k byte) bool { return strings.IndexByte("&|^-", k) >= 0 }

func newConc(c *mon.C, clients, calls int) *conc {
	r := &conc{owned: c.Chance(2)}
	ns := 1 + c.IntN(mon.Pick(c, 1, 3, 3))
	for i := 0; i < ns; i++ {
		raw := randBytes(c, c.IntN(4))
		r.init = append(r.init, fromBytes(raw))
		r.sets = append(r.sets, bitset.New(raw...))
		r.start = append(r.start, fmt.Sprintf("%x", raw))
	}
	pw, pc := 1+c.IntN(4), 1+c.IntN(4)
	// often only one or two kinds of reading calls, counting from the end
	// while the set grows
	reads := []byte{'g', 'c', 'u', 'b', 't', 'z', 'n', 'r', 'y', 'b'}
	if c.Chance(2) {
		c.Shuffle(len(reads), func(i, j int) { reads[i], reads[j] = reads[j], reads[i] })
		reads = reads[:1+c.IntN(2)]
		pw, pc = 2, 20
	}
	tail := c.Chance(3)
	for i := 0; i < clients; i++ {
		var p []act
		for n := 1 + c.IntN(calls); n > 0; n-- {
			a := act{set: c.IntN(ns), off: c.IntN(34) - 4, val: !c.Chance(3)}
			a.end = a.off + c.IntN(12)
			if tail && c.Chance(2) {
				a.off = -1 - c.IntN(mon.Pick(c, 1, 9, 30))
				a.end = mon.Pick(c, -1, -1-c.IntN(-a.off))
			}
			switch {
			case c.Chance(pw):
				a.kind = mon.Pick[byte](c, 's', 's', 's', 's', 's', 'x')
				if tail && c.Chance(2) {
					a.off = c.IntN(60)
				}
				if r.owned {
					// sets are owned round robin; a client without a set reads
					if a.set = i; i >= ns {
						a.set, a.kind = c.IntN(ns), 'b'
					}
				}
			case c.Chance(pc):
				a.kind = mon.Pick[byte](c, '&', '|', '^', '-')
				for j := 1 + c.IntN(3); j > 0; j-- {
					a.rest = append(a.rest, c.IntN(ns))
				}
			default:
				a.kind = reads[c.IntN(len(reads))]
			}
			p = append(p, a)
		}
		r.progs = append(r.progs, p)
	}
	return r
}

func (r *conc) do(client int, a act) {
	r.rec.Do(client, input{a}, func() any { return run(r.sets, a) })
}

func (r *conc) final() {
	for i := range r.sets {
		r.do(len(r.progs), act{kind: 'b', set: i})
	}
}

func (r *conc) model() porcupine.Model {
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			out := make([][]porcupine.Operation, len(r.sets))
			for _, o := range h {
				if a := o.Input.(input).a; !isCombo(a.kind) {
					out[a.set] = append(out[a.set], o)
				}
			}
			var res [][]porcupine.Operation
			for _, p := range out {
				if len(p) > 0 {
					res = append(res, p)
				}
			}
			return res
		},
		Init: func() any { return nil },
		Step: func(st, in, out any) (bool, any) {
			a := in.(input).a
			s := r.init[a.set]
			if st != nil {
				s = st.(bitsT)
			}
			n, want := step(s, a)
			return out.(string) == want, n
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

// combos checks, when each set has one writer and hence a known sequence of
// states, that each combined result is explained by states of the operands
// during the call.
func (r *conc) combos(c *mon.C) {
	if !r.owned {
		return
	}
	type state struct {
		s          bitsT
		from, till int64 // earliest start, latest end
	}
	seqs := make([][]state, len(r.sets))
	for i, s := range r.init {
		seqs[i] = []state{{s, 0, math.MaxInt64}}
	}
	ops := slices.Clone(r.rec.Ops)
	slices.SortFunc(ops, func(a, b porcupine.Operation) int { return int(a.Call - b.Call) })
	for _, o := range ops {
		a := o.Input.(input).a
		if a.kind != 's' && a.kind != 'x' {
			continue
		}
		q := seqs[a.set]
		last := &q[len(q)-1]
		next, _ := step(last.s, a)
		last.till = o.Return
		seqs[a.set] = append(q, state{next, o.Call, math.MaxInt64})
	}
	for _, o := range ops {
		a := o.Input.(input).a
		if !isCombo(a.kind) {
			continue
		}
		cand := make([][]bitsT, 0, 4)
		for _, i := range append([]int{a.set}, a.rest...) {
			var cs []bitsT
			for _, st := range seqs[i] {
				if st.from < o.Return && st.till > o.Call && !slices.Contains(cs, st.s) {
					cs = append(cs, st.s)
				}
			}
			cand = append(cand, cs)
		}
		if n := len(cand[0]); n > 1 {
			mon.Count("combinations_during_writes", 1)
		}
		mon.Count("combinations", 1)
		pick := make([]bitsT, len(cand))
		var try func(i int) bool
		try = func(i int) bool {
			if i == len(cand) {
				return string(combine(a.kind, pick)) == o.Output.(string)
			}
			for _, s := range cand[i] {
				pick[i] = s
				if try(i + 1) {
					return true
				}
			}
			return false
		}
		if !try(0) {
			c.Violate("%v returned %v; operand states during the call: %v\ninitial %v\n%s", o.Input, o.Output, cand, r.start, r.rec.String())
		}
	}
}

func (r *conc) check(c *mon.C) {
	c.Op("initial %v", r.start)
	r.combos(c)
	r.rec.Check(c, r.model())
}

func TestC13Sched(t *testing.T) {
	mon.Cases(t, "atomic/sched", mon.Num(60000, 600000), func(c *mon.C) {
		r := newConc(c, 2+c.IntN(4), 5)
		var ws []func()
		for i := range r.progs {
			ws = append(ws, func() {
				for _, a := range r.progs[i] {
					r.do(i, a)
				}
			})
		}
		sched.Run(t, c, nil, ws, r.final)
		r.check(c)
	})
}

func TestC13Stress(t *testing.T) {
	mon.Cases(t, "atomic/stress", mon.Num(12000, 200000), func(c *mon.C) {
		r := newConc(c, 2+c.IntN(4), 8)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range r.progs {
			nap := c.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					for j, a := range r.progs[i] {
						if nap>>uint(2*j)&3 == 0 {
							runtime.Gosched()
						}
						r.do(i, a)
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		r.final()
		r.check(c)
	})
}

// Sets that grow by a lot while others set and read bits in them.
func TestC13SchedHuge(t *testing.T) {
	mon.Cases(t, "atomic/growing", mon.Num(2000, 40000), func(c *mon.C) {
		clients := 2 + c.IntN(3)
		limit := 64 + 8*c.Size(10000)
		b := bitset.New(make([]byte, c.IntN(min(20, limit/8)))...)
		size := b.Size()
		c.Op("%d clients on a set of %d bits, to grow to %d", clients, size, limit)
		type op struct {
			off int
			set bool
			v   bool
		}
		var ws []func()
		own := make([]map[int]bool, clients)
		end := size
		for i := 0; i < clients; i++ {
			var ops []op
			for n := 1 + c.IntN(4); n > 0; n-- {
				off := c.IntN(1 + c.IntN(limit))
				if c.Chance(2) {
					off = c.IntN(size + 64)
				}
				off = off/clients*clients + i
				ops = append(ops, op{off, !c.Chance(4), !c.Chance(3)})
				if o := ops[len(ops)-1]; o.set {
					end = max(end, o.off+1)
				}
			}
			own[i] = map[int]bool{}
			ws = append(ws, func() {
				for _, o := range ops {
					if !o.set {
						if got := b.Get(o.off); got != own[i][o.off] {
							c.Violate("client %d: Get(%d) = %v", i, o.off, got)
						}
						continue
					}
					if old, err := b.Set(o.off, o.v); err != nil || old != own[i][o.off] {
						c.Violate("client %d: Set(%d, %v) = %v, %v, the bit was %v", i, o.off, o.v, old, err, own[i][o.off])
					}
					own[i][o.off] = o.v
				}
			})
		}
		sched.Run(t, c, nil, ws, func() {
			got := b.Bytes()
			if len(got) != (end+7)/8 {
				c.Violate("the set has %d bytes, bits were set up to offset %d", len(got), end-1)
			}
			for off := 0; off < 8*len(got); off++ {
				if v := got[off/8]&(0x80>>(off%8)) != 0; v != own[off%clients][off] {
					c.Violate("bit %d is %v, client %d left it %v", off, v, off%clients, !v)
				}
			}
		})
		mon.Max("bits", end)
		c.Distinct(c.Idx, end)
	})
}

// Large sets: every client has bits of its own, spread over all bytes, which must
// be as it left them in everything it reads, whatever the others do and however
// the sets grow meanwhile.
func TestC13StressHuge(t *testing.T) {
	mon.Cases(t, "atomic/huge", mon.Num(60, 2000), func(c *mon.C) {
		clients := 2 + c.IntN(5)
		limit := 64 + 8*c.Big(1, mon.Pick(c, 3000, 3000, 12000))
		ops := 60 + c.IntN(200)
		sets := []*bitset.BitSet{bitset.New(), bitset.New(randZero(c, limit/8)...)}
		c.Op("%d clients on two sets of up to %d bits, %d calls each", clients, limit, ops)
		mon.Max("bits", limit)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < clients; i++ {
			seed := c.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					rnd := mon.NewRand(seed)
					own := [2]map[int]bool{{}, {}}
					end := [2]int{} // bits there must be
					get := func(b []byte, off int) bool {
						return off/8 < len(b) && b[off/8]&(0x80>>(off%8)) != 0
					}
					judge := func(what string, b []byte, size int, want func(off int) bool) {
						if 8*len(b) < size {
							c.Violate("client %d: %s has %d bits, there must be %d", i, what, 8*len(b), size)
						}
						for off := i; off < size; off += clients {
							if get(b, off) != want(off) {
								c.Violate("client %d: bit %d of %s is %v, which is not how this client, the only one to change it, left it", i, off, what, get(b, off))
							}
						}
					}
					at := 0
					for n := 0; n < ops; n++ {
						x := rnd.IntN(2)
						b := sets[x]
						off := i + clients*rnd.IntN((limit-i+clients-1)/clients)
						if rnd.IntN(3) == 0 { // upwards, so that the set grows many times
							at += 1 + rnd.IntN(1+limit/ops)
							off = i + clients*(at%((limit-i+clients-1)/clients))
						}
						switch k := rnd.IntN(20); {
						case k < 12:
							v := rnd.IntN(3) > 0
							old, err := b.Set(off, v)
							if err != nil || old != own[x][off] {
								c.Violate("client %d: Set(%d, %v) = %v, %v, the bit was %v", i, off, v, old, err, own[x][off])
							}
							own[x][off] = v
							end[x] = max(end[x], off+1)
						case k < 15:
							if got := b.Get(off); got != own[x][off] {
								c.Violate("client %d: Get(%d) = %v", i, off, got)
							}
						case k == 15:
							judge("Bytes", b.Bytes(), end[x], func(off int) bool { return own[x][off] })
						case k == 16:
							judge("Not", b.Not().Bytes(), end[x], func(off int) bool { return !own[x][off] })
						case k == 17:
							got := make([]byte, limit/8+1)
							b.Range(func(off int, v bool) bool {
								if v {
									got[off/8] |= 0x80 >> (off % 8)
								}
								return true
							})
							judge("what Range visits", got, end[x], func(off int) bool { return own[x][off] })
						default:
							op := "&|^-"[rnd.IntN(4)]
							other := sets[1-x]
							judge(fmt.Sprintf("%c of both", op), apply(op, b, []*bitset.BitSet{other}).Bytes(), max(end[0], end[1]), func(off int) bool {
								p, q := own[x][off], own[1-x][off]
								switch op {
								case '&':
									return p && q
								case '|':
									return p || q
								case '^':
									return p != q
								}
								return p && !q
							})
						}
						mon.Beat()
					}
					for x, b := range sets {
						judge("the set in the end", b.Bytes(), end[x], func(off int) bool { return own[x][off] })
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		n := sets[0].Count(0, -1)
		if want := strings.Count(string(fromBytes(sets[0].Bytes())), "1"); n != want {
			c.Violate("Count(0, -1) = %d, the bytes hold %d bits", n, want)
		}
		c.Distinct(clients, limit, ops, n)
	})
}

// randZero returns up to max zero bytes.
func randZero(c *mon.C, max int) []byte { return make([]byte, c.IntN(max+1)) }

// Whole-range reads of large sets: every result must be that of one moment during
// the call, also when the read takes long and bits far apart change meanwhile.
type scan struct {
	c     *mon.C
	b     *bitset.BitSet
	init  []byte
	progs [][]scanOp
	begun []atomic.Int64 // changes begun, by writer
	done  []atomic.Int64
}

type scanOp struct {
	off   int
	v     bool
	clear bool
}

// newScan makes sets of up to max bytes; under the scheduler, where every byte
// read may be a place to switch, they are kept small enough for a call to end.
func newScan(c *mon.C, max int) *scan {
	n := mon.Pick(c, 40, max/4, max)
	s := &scan{c: c, init: make([]byte, 1+c.IntN(n))}
	for k := c.IntN(4); k > 0; k-- {
		s.init[c.IntN(len(s.init))] = byte(c.Uint64())
	}
	writers := 1 + c.IntN(2)
	size := 8 * len(s.init)
	for w := 0; w < writers; w++ {
		var ops []scanOp
		own := func(off int) int { return off/writers*writers + w }
		at := own(c.IntN(size))
		mode := c.IntN(4)
		for k := 2 + c.IntN(8); k > 0; k-- {
			switch mode {
			case 0: // one bit wandering: set the next, clear the last
				next := own(c.IntN(size))
				if c.Chance(2) {
					next = own(c.IntN(min(64, size)))
					if at < size/2 {
						next = own(size - 1 - c.IntN(min(64, size)))
					}
				}
				if next != at {
					ops = append(ops, scanOp{off: next, v: true}, scanOp{off: at})
				}
				at = next
			case 1: // from either end towards the other
				off := own(k * size / 10 % size)
				ops = append(ops, scanOp{off: off, v: true})
			case 2:
				ops = append(ops, scanOp{off: own(size - 1 - k*size/11), v: true})
			default: // anywhere, also beyond the end
				ops = append(ops, scanOp{off: own(c.IntN(size + size/4)), v: !c.Chance(3)})
				if writers == 1 && c.Chance(6) {
					ops = append(ops, scanOp{clear: true})
				}
			}
		}
		s.progs = append(s.progs, ops)
	}
	s.begun, s.done = make([]atomic.Int64, writers), make([]atomic.Int64, writers)
	s.b = bitset.New(slices.Clone(s.init)...)
	c.Op("set of %d bytes, writers %+v", len(s.init), s.progs)
	return s
}

func (s *scan) write(w int) {
	for _, o := range s.progs[w] {
		s.begun[w].Add(1)
		if o.clear {
			s.b.Clear()
		} else if _, err := s.b.Set(o.off, o.v); err != nil {
			s.c.Violate("Set(%d, %v): %v", o.off, o.v, err)
		}
		s.done[w].Add(1)
	}
}

// state returns the bytes after the first upto[w] changes of every writer.
func (s *scan) state(upto []int) []byte {
	b := slices.Clone(s.init)
	for w, n := range upto {
		for _, o := range s.progs[w][:n] {
			if o.clear {
				clear(b)
				continue
			}
			for o.off/8 >= len(b) {
				b = append(b, 0)
			}
			if m := byte(0x80) >> (o.off % 8); o.v {
				b[o.off/8] |= m
			} else {
				b[o.off/8] &^= m
			}
		}
	}
	return b
}

type scanRead struct {
	kind       string
	start, end int
	other      []byte
}

func (s *scan) newRead(rnd *rand.Rand) scanRead {
	q := scanRead{kind: []string{"Count", "Count", "Sub", "Bytes", "Binary", "Range", "Not", "Or", "Xor", "AndNot", "Size+"}[rnd.IntN(11)], end: -1}
	size := 8 * len(s.init)
	switch rnd.IntN(4) {
	case 0:
		q.start = rnd.IntN(size)
	case 1:
		q.start = rnd.IntN(min(size, 9))
		q.end = -1 - rnd.IntN(min(size, 9))
	case 2:
		q.start = rnd.IntN(size)
		q.end = q.start + rnd.IntN(size)
	}
	if q.kind == "Or" || q.kind == "Xor" || q.kind == "AndNot" {
		q.other = make([]byte, rnd.IntN(len(s.init)+2))
		for i := range q.other {
			q.other[i] = byte(rnd.Uint64())
		}
	}
	return q
}

func (q scanRead) do(b *bitset.BitSet) any {
	switch q.kind {
	case "Count":
		return b.Count(q.start, q.end)
	case "Sub":
		if r := b.Sub(q.start, q.end); r != nil {
			return string(r.Bytes())
		}
		return ""
	case "Bytes":
		return string(b.Bytes())
	case "Binary":
		var out []byte
		for _, w := range strings.Fields(b.Binary(" ")) {
			var x byte
			for _, r := range w {
				x = x<<1 | byte(r-'0')
			}
			out = append(out, x)
		}
		return string(out)
	case "Range":
		var out []byte
		b.Range(func(off int, v bool) bool {
			if off%8 == 0 {
				out = append(out, 0)
			}
			if v {
				out[off/8] |= 0x80 >> (off % 8)
			}
			return true
		})
		return string(out)
	case "Not":
		return string(b.Not().Bytes())
	case "Or":
		return string(b.Or(bitset.New(q.other...)).Bytes())
	case "Xor":
		return string(b.Xor(bitset.New(q.other...)).Bytes())
	case "AndNot":
		return string(b.AndNot(bitset.New(q.other...)).Bytes())
	}
	return b.Size()
}

func (q scanRead) want(b []byte) any {
	size := 8 * len(b)
	start, end := q.start, q.end
	if end < 0 {
		end += size
	}
	end = min(end, size-1)
	get := func(i int) byte { return b[i/8] >> (7 - i%8) & 1 }
	switch q.kind {
	case "Count":
		n := 0
		for i := start; i <= end; i++ {
			n += int(get(i))
		}
		return n
	case "Sub":
		var out []byte
		for i := start; i <= end; i++ {
			if (i-start)%8 == 0 {
				out = append(out, 0)
			}
			out[len(out)-1] |= get(i) << (7 - (i-start)%8)
		}
		return string(out)
	case "Not":
		out := slices.Clone(b)
		for i := range out {
			out[i] = ^out[i]
		}
		return string(out)
	case "Or", "Xor", "AndNot":
		out := slices.Clone(b)
		for len(out) < len(q.other) {
			out = append(out, 0)
		}
		for i, o := range q.other {
			switch q.kind {
			case "Or":
				out[i] |= o
			case "Xor":
				out[i] ^= o
			default:
				out[i] &^= o
			}
		}
		return string(out)
	case "Size+":
		return size
	}
	return string(b)
}

func (s *scan) read(rnd *rand.Rand) {
	q := s.newRead(rnd)
	from, till := make([]int, len(s.progs)), make([]int, len(s.progs))
	for w := range from {
		from[w] = int(s.done[w].Load())
	}
	got := q.do(s.b)
	states := 1
	for w := range till {
		till[w] = int(s.begun[w].Load())
		states *= till[w] - from[w] + 1
	}
	mon.Count("whole_range_reads", 1)
	if states > 1 {
		mon.Count("whole_range_reads_during_writes", 1)
	}
	upto := slices.Clone(from)
	for {
		if q.want(s.state(upto)) == got {
			return
		}
		w := 0
		for ; w < len(upto); w++ {
			if upto[w]++; upto[w] <= till[w] {
				break
			}
			upto[w] = from[w]
		}
		if w == len(upto) {
			break
		}
	}
	desc := fmt.Sprintf("%x", got)
	if len(desc) > 300 {
		desc = desc[:300] + "..."
	}
	s.c.Violate("%s(%d, %d) = %v (hex of the value), which is that of no moment during the call: changes done before it %v, begun before its end %v", q.kind, q.start, q.end, desc, from, till)
}

func TestC13SchedScan(t *testing.T) {
	mon.Cases(t, "atomic/scan", mon.Num(4000, 60000), func(c *mon.C) {
		s := newScan(c, 250)
		var ws []func()
		for w := range s.progs {
			ws = append(ws, func() { s.write(w) })
		}
		for k := 1 + c.IntN(2); k > 0; k-- {
			rnd := mon.NewRand(c.Uint64())
			ws = append(ws, func() {
				for n := 1 + rnd.IntN(3); n > 0; n-- {
					s.read(rnd)
				}
			})
		}
		sched.Run(t, c, nil, ws, func() {})
		c.Distinct(c.Idx, len(s.init))
	})
}

func TestC13StressScan(t *testing.T) {
	mon.Cases(t, "atomic/scanstress", mon.Num(400, 8000), func(c *mon.C) {
		s := newScan(c, 8000)
		var wg sync.WaitGroup
		start := make(chan struct{})
		spawn := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sched.Guard(c, "client", f)
			}()
		}
		for w := range s.progs {
			spawn(func() { s.write(w) })
		}
		for k := 2; k > 0; k-- {
			rnd := mon.NewRand(c.Uint64())
			spawn(func() {
				for n := 4; n > 0; n-- {
					s.read(rnd)
				}
			})
		}
		close(start)
		wg.Wait()
		c.Distinct(c.Idx, len(s.init))
	})
}
