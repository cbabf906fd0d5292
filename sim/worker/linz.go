package main

import (
	"fmt"
	"sort"
	"strings"
)

// lop is a call in a history to be linearised: it takes effect atomically
// between inv and ret, turning the state into one of those step returns (none:
// its result contradicts the state).
type lop struct {
	e        *Event
	inv, ret int
	step     func(s string) []string
}

const never = 1 << 30

// newLop gives a call that did not return until the death of its process to
// take effect.
func (c *Ctx) newLop(e *Event, step func(s string) []string) *lop {
	l := &lop{e: e, inv: e.Inv, ret: e.Ret, step: step}
	if !e.Done {
		l.ret = never
		if p := c.W.Proc(e.Proc); p.Dead {
			l.ret = p.DeadSeq
		}
	}
	return l
}

// linearizable searches an order of the calls that respects real time and in
// which every result is explained.
func linearizable(init []string, ops []*lop) bool {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	if len(ops) > 60 {
		panic("history too long")
	}
	type key struct {
		m uint64
		s string
	}
	seen := map[key]bool{}
	full := uint64(1)<<uint(len(ops)) - 1
	budget := 2000000
	var rec func(m uint64, s string) bool
	rec = func(m uint64, s string) bool {
		if m == full {
			return true
		}
		k := key{m, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return true // too costly to decide: no alarm
		}
		min := never + 1
		for i, o := range ops {
			if m>>uint(i)&1 == 0 && o.ret < min {
				min = o.ret
			}
		}
		for i, o := range ops {
			if m>>uint(i)&1 != 0 || o.inv > min {
				continue
			}
			for _, t := range o.step(s) {
				if rec(m|1<<uint(i), t) {
					return true
				}
			}
		}
		return false
	}
	for _, s := range init {
		if rec(0, s) {
			return true
		}
	}
	return false
}

// explain prints a history that has no explanation.
func explain(what, init string, ops []*lop, res func(e *Event) string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "no order of the calls explains their results: %s started as %s;", what, clip(init))
	for _, o := range ops {
		fmt.Fprintf(&sb, " [%d-%s] task %d %s", o.inv, map[bool]string{true: fmt.Sprint(o.ret), false: "?"}[o.ret < never], o.e.Task, opString(o.e.Op))
		switch {
		case !o.e.Done:
			sb.WriteString(" (killed)")
		case !o.e.Res.OK():
			fmt.Fprintf(&sb, " = error %q", o.e.Res.Err)
		default:
			if r := res(o.e); r != "" {
				sb.WriteString(" = " + r)
			}
		}
		sb.WriteString(";")
	}
	return sb.String()
}

// unread stands for contents nobody looked at.
const unread = "\x00?"

func lcp(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}
