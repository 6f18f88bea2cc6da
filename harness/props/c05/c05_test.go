// Monitor for C05: AtomicError is a linearizable register of non-nil errors.
package c05

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"

	"gosbverif/hist"
	"gosbverif/mon"
	"gosbverif/sched"
)

func TestMain(m *testing.M) { mon.Main(m) }

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprint("val", e.n) }

type ptrErr struct{ n int }

func (e *ptrErr) Error() string {
	if e == nil {
		return "nil ptrErr"
	}
	return fmt.Sprint("ptr", e.n)
}

type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint("slice", []int(e)) }

type intErr int

func (e intErr) Error() string { return fmt.Sprint("int", int(e)) }

type funcErr func() string

func (e funcErr) Error() string { return e() }

type bigErr struct {
	a, b, c int
	s       string
}

func (e bigErr) Error() string { return fmt.Sprint("big", e.a, e.b, e.c, e.s) }

type emptyErr struct{}

func (emptyErr) Error() string { return "empty" }

// alikeErr says the same as every other one and claims to be any error.
type alikeErr struct{ n int }

func (*alikeErr) Error() string   { return "timeout" }
func (*alikeErr) Is(error) bool   { return true }
func (e *alikeErr) Unwrap() error { return nil }

// mute cannot say anything.
type mute struct{ n int }

func (mute) Error() string { panic("no text") }

func genErr(c *mon.C, n int, one int) error {
	switch one {
	case 0:
		return &ptrErr{n}
	case 1:
		return errors.New("EOF")
	case 2:
		return &alikeErr{n}
	}
	switch c.IntN(17) {
	case 11:
		return &alikeErr{n}
	case 12:
		return (*os.PathError)(nil)
	case 13:
		return mute{n}
	case 14:
		return &os.PathError{Op: "open", Path: "a", Err: os.ErrNotExist}
	case 15:
		return errors.New("EOF")
	case 16:
		return fmt.Errorf("wrap: %w", os.ErrNotExist)
	case 0:
		return valErr{n}
	case 1:
		return &ptrErr{n}
	case 2:
		return sliceErr{n, n + 1}
	case 3:
		return intErr(n)
	case 4:
		return funcErr(func() string { return fmt.Sprint("func", n) })
	case 5:
		return bigErr{n, n + 1, n + 2, "x"}
	case 6:
		return emptyErr{}
	case 7:
		return (*ptrErr)(nil)
	case 8:
		return fmt.Errorf("wrap%d: %w", n, os.ErrNotExist)
	case 9:
		return errors.Join(errors.New("a"), valErr{n})
	}
	return errors.New(fmt.Sprint("plain", n))
}

// ident tells errors apart: type, text and, for pointers, the address. The plan
// keeps its errors alive, so no two have one address.
func ident(e error) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case mute:
		return fmt.Sprint("mute", e.n)
	}
	if v := reflect.ValueOf(e); v.Kind() == reflect.Pointer {
		return fmt.Sprintf("%T@%p", e, e)
	}
	return fmt.Sprintf("%T:%s", e, e.Error())
}

type op struct {
	Set string // "" for Load
}

var model = porcupine.Model{
	Init: func() any { return "nil" },
	Step: func(st, in, out any) (bool, any) {
		o := in.(op)
		if o.Set == "" {
			return out.(string) == st.(string), st
		}
		if o.Set == "nil" {
			return true, st
		}
		return true, o.Set
	},
	Equal: func(a, b any) bool { return a == b },
}

type plan struct {
	progs [][]error // a Load where absent
	load  [][]bool
}

func newPlan(c *mon.C, clients, calls int) *plan {
	p := &plan{}
	n := 0
	pNil, pLoad := 2+c.IntN(6), 2+c.IntN(3)
	one := c.IntN(10)
	for i := 0; i < clients; i++ {
		var es []error
		var ls []bool
		for j := 1 + c.IntN(calls); j > 0; j-- {
			n++
			ld := c.Chance(pLoad) || i == 0 && c.Chance(2)
			var e error
			if !ld && !c.Chance(pNil) {
				e = genErr(c, n, one)
			}
			es, ls = append(es, e), append(ls, ld)
		}
		p.progs, p.load = append(p.progs, es), append(p.load, ls)
	}
	return p
}

func (p *plan) worker(c *mon.C, ae *gconstraints.AtomicError, rec *hist.Rec, i int, nap func()) {
	for j, e := range p.progs[i] {
		nap()
		if p.load[i][j] {
			rec.Do(i, op{}, func() any { return ident(ae.Load()) })
		} else {
			rec.Do(i, op{ident(e)}, func() any { ae.Set(e); return "" })
		}
	}
}

func TestSched(t *testing.T) {
	mon.Cases(t, "register/sched", mon.Num(12000, 300000), func(c *mon.C) {
		p := newPlan(c, 1+c.IntN(5), 6)
		var ae gconstraints.AtomicError
		var rec hist.Rec
		var ws []func()
		for i := range p.progs {
			nap := c.Uint64()
			ws = append(ws, func() {
				p.worker(c, &ae, &rec, i, func() {
					nap = nap*6364136223846793005 + 1442695040888963407
					if nap>>62 == 0 {
						time.Sleep(time.Duration(nap>>40&1023 + 1))
					}
				})
			})
		}
		sched.Run(t, c, nil, ws, func() {
			rec.Do(len(p.progs), op{}, func() any { return ident(ae.Load()) })
		})
		rec.Check(c, model)
	})
}

func TestStress(t *testing.T) {
	mon.Cases(t, "register/stress", mon.Num(6000, 150000), func(c *mon.C) {
		p := newPlan(c, 2+c.IntN(4), 12)
		var ae gconstraints.AtomicError
		var rec hist.Rec
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range p.progs {
			nap := c.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sched.Guard(c, fmt.Sprint("client ", i), func() {
					p.worker(c, &ae, &rec, i, func() {
						nap = nap*6364136223846793005 + 1442695040888963407
						if nap>>62 == 0 {
							runtime.Gosched()
						}
					})
				})
			}()
		}
		close(start)
		wg.Wait()
		rec.Do(len(p.progs), op{}, func() any { return ident(ae.Load()) })
		rec.Check(c, model)
	})
}
