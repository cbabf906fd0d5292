package main

import (
	"fmt"
	"time"

	"simrt"
)

// shrink minimises a failing plan: every candidate is a complete plan that is
// executed again and kept only when it fails with the same class.
func shrink(p *simrt.Plan, budget time.Duration) *simrt.Plan {
	t0 := time.Now()
	best := p.Clone()
	best.Fixed = true
	prelude := best.Prelude
	over := func() bool { return time.Since(t0) > budget }
	ok := func(q *simrt.Plan) bool {
		if over() {
			return false
		}
		q = q.Clone()
		q.Fixed = true
		for _, s := range prelude {
			execute(makePlan(p.Prop, s, false), false)
		}
		o := execute(q, false)
		if o.Fail != nil && o.Fail.Class == p.Class && !o.Tainted && o.Unsup == "" {
			q.Violation = o.Fail.Detail
			q.Hash = fmt.Sprintf("%016x", o.Hash)
			best = q
			return true
		}
		return false
	}
	if !ok(best) {
		return p // does not fail as a fixed plan: leave it alone
	}
	for round := 0; round < 6 && !over(); round++ {
		changed := false
		try := func(q *simrt.Plan) bool {
			if ok(q) {
				changed = true
				return true
			}
			return false
		}
		// chunks of scheduling decisions
		dd := func(n func() int, drop func(q *simrt.Plan, i, j int)) {
			for size := n(); size > 0 && !over(); size /= 2 {
				for i := 0; i < n() && !over(); {
					q := best.Clone()
					j := i + size
					if j > n() {
						j = n()
					}
					drop(q, i, j)
					if !try(q) {
						i += size
					}
				}
			}
		}
		dd(func() int { return len(best.Preempts) }, func(q *simrt.Plan, i, j int) {
			q.Preempts = append(append([]simrt.Preempt{}, q.Preempts[:i]...), q.Preempts[j:]...)
		})
		dd(func() int { return len(best.Faults) }, func(q *simrt.Plan, i, j int) {
			q.Faults = append(append([]simrt.Fault{}, q.Faults[:i]...), q.Faults[j:]...)
		})
		dd(func() int { return len(best.Jumps) }, func(q *simrt.Plan, i, j int) {
			q.Jumps = append(append([]simrt.Jump{}, q.Jumps[:i]...), q.Jumps[j:]...)
		})
		dd(func() int { return len(best.Standing) }, func(q *simrt.Plan, i, j int) {
			q.Standing = append(append([]simrt.Standing{}, q.Standing[:i]...), q.Standing[j:]...)
		})
		for t := len(best.Tasks) - 1; t >= 0 && !over(); t-- {
			// Task numbers name tasks in decisions, so tasks are emptied, not removed.
			if len(best.Tasks[t].Ops) > 1 {
				q := best.Clone()
				q.Tasks[t].Ops = nil
				try(q)
			}
			for i := len(best.Tasks[t].Ops) - 1; i >= 0 && !over(); i-- {
				if i >= len(best.Tasks[t].Ops) {
					continue
				}
				q := best.Clone()
				q.Tasks[t].Ops = append(append([]simrt.Op{}, q.Tasks[t].Ops[:i]...), q.Tasks[t].Ops[i+1:]...)
				try(q)
			}
		}
		for _, f := range []func(q *simrt.Plan){
			func(q *simrt.Plan) { q.DiskFree = 0 }, func(q *simrt.Plan) { q.FDLimit = 0 }, func(q *simrt.Plan) { q.Chunk = 0 },
			func(q *simrt.Plan) { q.RandLow = false }, func(q *simrt.Plan) { q.Tick = 0 },
		} {
			q := best.Clone()
			f(q)
			if fmt.Sprint(q.DiskFree, q.FDLimit, q.Chunk, q.RandLow, q.Tick) != fmt.Sprint(best.DiskFree, best.FDLimit, best.Chunk, best.RandLow, best.Tick) {
				try(q)
			}
		}
		if !changed {
			break
		}
	}
	best.Fixed = true
	best.Class = p.Class
	return best
}
