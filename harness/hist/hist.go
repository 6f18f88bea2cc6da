// Package hist records histories of calls at the client boundary and checks
// them for linearizability with porcupine.
package hist

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"gosbverif/mon"
)

type Rec struct {
	clock atomic.Int64
	mu    sync.Mutex
	Ops   []porcupine.Operation
}

// Do records one call.
func (r *Rec) Do(client int, in any, f func() any) any {
	t0 := r.clock.Add(1)
	out := f()
	t1 := r.clock.Add(1)
	r.mu.Lock()
	r.Ops = append(r.Ops, porcupine.Operation{ClientId: client, Input: in, Call: t0, Output: out, Return: t1})
	r.mu.Unlock()
	mon.Beat()
	return out
}

func (r *Rec) Now() int64 { return r.clock.Add(1) }

// String lists the history in call order.
func (r *Rec) String() string {
	ops := append([]porcupine.Operation(nil), r.Ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var sb strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&sb, "[%d..%d] client %d: %+v -> %+v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
	}
	return sb.String()
}

// Shape is the order of calls and returns by client: the observed interleaving.
func (r *Rec) Shape() string {
	type ev struct {
		t int64
		s string
	}
	var evs []ev
	for _, o := range r.Ops {
		evs = append(evs, ev{o.Call, fmt.Sprintf("c%d%v", o.ClientId, o.Input)}, ev{o.Return, fmt.Sprintf("r%d%v", o.ClientId, o.Output)})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	var sb strings.Builder
	for _, e := range evs {
		sb.WriteString(e.s)
	}
	return sb.String()
}

// Overlaps counts pairs of calls of different clients that overlap in time.
func (r *Rec) Overlaps() int {
	n := 0
	for i, a := range r.Ops {
		for _, b := range r.Ops[:i] {
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return n
}

// Check decides linearizability; a checker timeout is inconclusive.
func (r *Rec) Check(c *mon.C, model porcupine.Model) {
	n := r.Overlaps()
	mon.Count("operations", len(r.Ops))
	mon.Count("overlapping_call_pairs", n)
	if n > 0 {
		c.Distinct(r.Shape())
	}
	switch porcupine.CheckOperationsTimeout(model, r.Ops, 60*time.Second) {
	case porcupine.Illegal:
		c.Violate("history is not linearizable:\n%s", r.String())
	case porcupine.Unknown:
		mon.Count("inconclusive_histories", 1)
	}
	if n > 3 {
		mon.Sample("%s/%d: %s", c.Monitor, c.Idx, strings.ReplaceAll(r.String(), "\n", "; "))
	}
}
