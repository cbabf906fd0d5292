package main

import (
	"fmt"
	"strings"

	"simapi"
	"simrt"
)

// ---- generation helpers ----

// op builds an operation.
func op(k string, s ...string) simrt.Op { return simrt.Op{K: k, S: s} }

func opI(k string, i []int64, s ...string) simrt.Op { return simrt.Op{K: k, S: s, I: i} }

func opB(k string, b string, s ...string) simrt.Op { return simrt.Op{K: k, S: s, B: []byte(b)} }

func (g *Gen) Uniq() int { g.uniq++; return g.uniq }

// Task appends a task and returns its index.
func (g *Gen) Task(proc, phase int, ops ...simrt.Op) int {
	g.P.Tasks = append(g.P.Tasks, simrt.TaskPlan{Proc: proc, Phase: phase, Ops: ops})
	return len(g.P.Tasks) - 1
}

func (g *Gen) File(path, content string) { g.P.Files[path] = []byte(content) }
func (g *Gen) Dir(path string)           { g.P.Files[path+"/"] = []byte{} }

// marks are what means something to some language or other.
var marks = []string{"Re: ", "Fw: ", "[R] ", "%", "%s", "%d", "%!", "\\", "\\n", "\"", "'", "`", "/", "..", "../", "<b>", "&amp;", "&", ":", "::", ": ", "$1", "${x}", "{}", "[]", "(", ")", "*", "?", "+", "|", ",", ";", "#", "~", "=", "!", "M.1.A", "<", ">", "null", "0", "-1", "--"}

// Text of n bytes made of letters, a few characters of the Big5 set and, now
// and then, marks.
func (g *Gen) Text(n int, wide bool) string {
	var sb strings.Builder
	l := 0
	marked := g.Chance(0.15)
	for l < n {
		if marked && g.Chance(0.25) {
			if m := marks[g.N(len(marks))]; len(m) <= n-l {
				sb.WriteString(m)
				l += len(m)
				continue
			}
		}
		if wide && marked && n-l >= 2 && g.Chance(0.3) {
			sb.WriteString(g.Pick("功", "許", "蓋", "育"))
			l += 2
			continue
		}
		if wide && n-l >= 2 && g.Chance(0.4) {
			sb.WriteString(g.Pick("測", "試", "看", "板"))
			l += 2
			continue
		}
		sb.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_"[g.N(65)])
		l++
	}
	return sb.String()
}

// Word is letters and digits only.
func (g *Gen) Word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[g.N(36)]
	}
	if n > 0 {
		b[0] = "abcdefghijklmnopqrstuvwxyz"[g.N(26)]
	}
	return string(b)
}

// Many is n, but sometimes very many.
func (g *Gen) Many(n int) int {
	if g.Chance(0.006) {
		n = int(g.PickI(31, 33, 65, 129, 257, 300))
		if g.Thorough {
			n = int(g.PickI(65, 257, 300, 1025, 1100))
		}
		if g.Chance(0.06) {
			n = int(g.PickI(1030, 1100, 2050, 4100))
		}
	}
	return n
}

// Long is a limit for the length of texts, sometimes a high one.
func (g *Gen) Long(max int) int {
	switch x := g.F(); {
	case x < 0.02:
		max = int(g.PickI(5000, 9000, 20000))
	case x < 0.03:
		max = int(g.PickI(40000, 70000, 140000))
	case x < 0.031:
		max = 1200000
	}
	return max
}

// pieces keeps the number of pieces in which long texts pass small.
func (g *Gen) pieces(max int) {
	if max > 1500 && g.P.Chunk > 0 {
		g.P.Chunk = g.PickI(128, 300, 512, 4096)
	}
	if max > 9000 && g.P.Chunk > 0 {
		g.P.Chunk = g.PickI(4096, 10000)
	}
	if max > 140000 {
		g.P.Chunk = 0
	}
}

// Schedule picks a scheduling strategy.
func (g *Gen) Schedule(statements bool) {
	statements = statements || g.Chance(0.3)
	s := &g.P.Sched
	switch g.N(6) {
	case 0:
		s.Kind = "seq"
		if statements {
			s.Kind, s.PY = "random", []float64{0.02, 0.1}[g.N(2)]
		}
	case 1, 2:
		s.Kind, s.Depth, s.Len = "pct", g.Range(1, 4), int(g.PickI(12, 30, 80, 200))
	default:
		s.Kind, s.P = "random", []float64{0.1, 0.3, 0.6, 0.9}[g.N(4)]
		if statements {
			s.PY = []float64{0, 0.01, 0.05, 0.2}[g.N(4)]
		}
	}
	if g.Chance(0.15) {
		g.P.Chunk = g.PickI(1, 7, 64, 128, 300, 4096)
	}
}

var hardKinds = []string{"eio", "enospc", "edquot", "emfile", "enfile", "eacces", "erofs", "estale", "enolck", "enomem", "shortnospc", "shorteio"}
var softKinds = []string{"short", "stall", "eintr"}
var crashKinds = []string{"crash", "crash-after", "torn"}

// faults adds one kind of adversity, or none.
func (g *Gen) FaultMix(crash, hard, soft float64) string {
	f := &g.P.Gen
	f.Kinds = map[string]float64{}
	x := g.F()
	switch {
	case x < crash:
		for _, k := range crashKinds {
			f.Kinds[k] = []float64{0.01, 0.03, 0.08}[g.N(3)]
		}
		f.Kinds["torn"] *= 4
		f.Max = g.Range(1, 2)
		if g.Chance(0.3) {
			f.Kinds["short"] = 0.1
			f.Max++
		}
		return "crash"
	case x < crash+hard:
		n := g.Range(1, 4)
		for i := 0; i < n; i++ {
			f.Kinds[hardKinds[g.N(len(hardKinds))]] = []float64{0.03, 0.1, 0.3}[g.N(3)]
		}
		f.Max = g.Range(1, 4)
		return "hard"
	case x < crash+hard+soft:
		for _, k := range softKinds {
			f.Kinds[k] = []float64{0.02, 0.1, 0.3}[g.N(3)]
		}
		f.Max = g.Range(1, 8)
		return "soft"
	}
	return "none"
}

// ---- paths ----

func boardDir(b string) string { return "@/boards/" + b[:1] + "/" + b }
func userDir(u string) string  { return "@/home/" + u[:1] + "/" + u }

func (c *Ctx) path(p string) string { return sub(c.Home, p) }

// rel shows a path without the scratch home.
func (c *Ctx) rel(p string) string { return strings.TrimPrefix(strings.TrimPrefix(p, c.Home), "/") }

func (c *Ctx) file(p string) string {
	b, ok := c.W.K.ReadFile(c.path(p))
	if !ok {
		return ""
	}
	return string(b)
}

func (c *Ctx) missing(p string) bool { return !c.W.K.Exists(c.path(p)) }

// ---- common judgements ----

// noSpurious: a call that met no fault must succeed.
func (c *Ctx) noSpurious(e *Event) bool {
	if e.Done && !e.Res.OK() && e.Hard == 0 {
		c.W.Violate("spurious-error", "%s failed although nothing went wrong", e)
		return false
	}
	return true
}

// allReturned: every call of a process that was not killed has returned.
func (c *Ctx) allReturned() bool {
	for _, e := range c.Ev {
		if !e.Done && !c.W.Proc(e.Proc).Dead && !c.W.Proc(e.Proc).Served {
			c.W.Violate("never-returned", "%s", e)
			return false
		}
	}
	return true
}

func (c *Ctx) events(k string) (r []*Event) {
	for _, e := range c.Ev {
		if e.Op.K == k {
			r = append(r, e)
		}
	}
	return
}

// appendLog is the checker of an append-only record file shared by everybody:
// the history of appends and reads must be explained by the final file.
type appendLog struct {
	what    string
	size    int // of a record
	initial string
	final   string
	appends []*Event
	key     func(e *Event) string // what identifies the appended record
	keyOf   func(raw string) string
	match   func(e *Event, raw string) string // why the stored record is not what was appended
	dec     func(raw string) []simapi.Rec
	reads   []*Event
}

func (a *appendLog) check(c *Ctx) {
	init := split(a.initial, a.size)
	fin := split(a.final, a.size)
	if len(fin) < len(init) {
		c.W.Violate("lost-initial", "%s had %d records at the start and %d at the end", a.what, len(init), len(fin))
		return
	}
	for i := range init {
		if fin[i] != init[i] {
			c.W.Violate("changed-initial", "record %d of %s, which nobody touched, changed from %s to %s", i, a.what, show(a.dec(init[i])[0]), show(a.dec(fin[i])[0]))
			return
		}
	}
	byKey := map[string]*Event{}
	for _, e := range a.appends {
		byKey[a.key(e)] = e
	}
	pos := map[string]int{}
	for i := len(init); i < len(fin); i++ {
		k := a.keyOf(fin[i])
		e := byKey[k]
		if e == nil {
			c.W.Violate("invented", "record %d of %s is %s, which nobody appended", i, a.what, show(a.dec(fin[i])[0]))
			return
		}
		if why := a.match(e, fin[i]); why != "" {
			c.W.Violate("garbled", "record %d of %s is %s, but %s (%s)", i, a.what, show(a.dec(fin[i])[0]), opString(e.Op), why)
			return
		}
		if p, ok := pos[k]; ok {
			c.W.Violate("duplicated", "%s was appended once but is both record %d and record %d of %s", opString(e.Op), p, i, a.what)
			return
		}
		if e.Done && !e.Res.OK() {
			c.W.Violate("failed-but-present", "%s, but it is record %d of %s", e, i, a.what)
			return
		}
		pos[k] = i
	}
	for _, e := range a.appends {
		if _, ok := pos[a.key(e)]; e.OK() && !ok {
			c.W.Violate("lost", "%s, but the record is not in %s, which has %d records", e, a.what, len(fin))
			return
		}
	}
	for _, e := range a.appends {
		for _, f := range a.appends {
			if e.Done && e.Ret < f.Inv {
				p, ok1 := pos[a.key(e)]
				q, ok2 := pos[a.key(f)]
				if ok1 && ok2 && p > q {
					c.W.Violate("reordered", "%s returned before %s began, but they are records %d and %d of %s", e, f, p, q, a.what)
					return
				}
			}
		}
	}
	want := a.dec(a.final)
	for _, r := range a.reads {
		if !r.OK() {
			continue
		}
		n := len(r.Res.Recs)
		if n > len(want) || !sameRecs(r.Res.Recs, want[:n]) {
			c.W.Violate("bad-read", "%s returned something that %s never contained: %s", r, a.what, firstDiff(r.Res.Recs, want))
			return
		}
		if n < len(init) {
			c.W.Violate("short-read", "%s returned %d records although %s always had at least %d", r, n, a.what, len(init))
			return
		}
		for _, e := range a.appends {
			p, ok := pos[a.key(e)]
			if ok && e.OK() && e.Ret < r.Inv && p >= n {
				c.W.Violate("stale-read", "%s began after %s but its result has only %d records and lacks it", r, e, n)
				return
			}
			if ok && r.Ret < e.Inv && p < n {
				c.W.Violate("early-read", "%s returned before %s began but its result contains it", r, e)
				return
			}
		}
		for _, s := range a.reads {
			if s.OK() && r.Ret < s.Inv && len(s.Res.Recs) < n {
				c.W.Violate("shrinking", "%s saw %d records and the later %s only %d", r, n, s, len(s.Res.Recs))
				return
			}
		}
		for _, e := range a.appends {
			if e.Inv < r.Inv && e.Ret > r.Ret {
				c.Hit("read during an append")
			}
		}
	}
}

func idx(s string, i int) string { return fmt.Sprintf("%s%d", s, i) }

// Stamp is a time as the files hold it, seconds in 32 bits.
func (g *Gen) Stamp() int64 {
	if g.Chance(0.03) {
		return g.PickI(1, 86399, 1<<31-1, 1<<31, 1<<31+1, 1<<32-1, 951782400, 4107542400)
	}
	return int64(1400000000 + g.N(2e8))
}

func (g *Gen) U32(n int) uint32 {
	if g.Chance(0.03) {
		return uint32(g.PickI(1<<31-1, 1<<31, 1<<32-1, 1<<16, 1<<24))
	}
	return uint32(g.N(n))
}
