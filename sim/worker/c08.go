package main

import (
	"fmt"
	"strings"

	"simapi"
	"simrt"
)

// C08: an update of an article record changes that record only, and in it only
// what the caller changed.

func init() {
	add("C08", &Scenario{Name: "update", Weight: 3, Gen: genC08, Check: checkC08})
	add("C08", &Scenario{Name: "position", Gen: genC08pos, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
}

// genC08pos: calls one after another at positions around the end of the list,
// with every byte of the storage compared before and after each.
func genC08pos(g *Gen) {
	n := g.Many(g.Range(0, 5))
	board := g.Pick("test", "SYSOP")
	other := map[string]string{"test": "SYSOP", "SYSOP": "test"}[board]
	switch s := g.articleSeed(n); {
	case n == 0 && g.Chance(0.5):
		g.Dir(boardDir(board))
	case g.Chance(0.3):
		g.File(boardDir(board)+"/.DIR", s+g.articleSeed(1)[:g.Range(1, 127)])
	default:
		g.File(boardDir(board)+"/.DIR", s)
	}
	g.File(boardDir(other)+"/.DIR", g.articleSeed(1))
	var ops []simrt.Op
	for k := g.Range(3, 9); k > 0; k-- {
		if g.Chance(0.15) {
			ops = append(ops, g.addOp(board))
			n++
			continue
		}
		i := int64(g.Range(0, n+1))
		if g.Chance(0.15) {
			i = g.PickI(-1, 1<<31, 1<<32, 1<<57, -1<<63)
		}
		f := g.Pick("title", "owner", "date", "recommend", "modified")
		v := map[string]string{"title": g.Text(g.Range(0, 50), true), "owner": g.Word(g.Range(2, 12)), "date": "12/01"}[f]
		num := g.Stamp()
		if f == "recommend" {
			num = int64(g.Range(-128, 127))
		}
		ops = append(ops, opI("update", []int64{i, num}, "@", board, f, v))
	}
	g.Task(0, 0, ops...)
	g.FaultMix(0.1, 0.25, 0.1)
}

func genC08(g *Gen) {
	n := g.Many(g.Range(1, 6))
	board := g.Pick("test", "SYSOP")
	s := g.articleSeed(n)
	if g.Chance(0.2) {
		s += g.articleSeed(1)[:g.Range(1, 127)]
	}
	g.File(boardDir(board)+"/.DIR", s)
	nt := g.Range(1, 4)
	for i := 0; i < nt; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			switch x := g.F(); {
			case x < 0.6:
				var own []int64
				for j := i; j < n; j += nt {
					own = append(own, int64(j))
				}
				if len(own) == 0 || g.Chance(0.06) {
					ops = append(ops, opI("update", []int64{g.PickI(100, 1<<57, 1<<58+3, 1<<62, -1, -1<<63), 1}, "@", board, "title", "nowhere"))
					continue
				}
				f := g.Pick("title", "owner", "date", "recommend", "modified")
				v := ""
				switch f {
				case "title":
					v = fmt.Sprintf("u%d %s", g.Uniq(), g.Text(g.Range(0, 50), true))
				case "owner":
					v = g.Word(g.Range(2, 12))
				case "date":
					v = fmt.Sprintf("%2d/%02d", g.Range(1, 12), g.Range(1, 28))
				}
				num := g.Stamp()
				if f == "recommend" {
					num = int64(g.Range(-120, 120))
				}
				ops = append(ops, opI("update", []int64{own[g.N(len(own))], num}, "@", board, f, v))
			case x < 0.8:
				ops = append(ops, op("list", "@", board))
			default:
				ops = append(ops, g.addOp(board))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	if g.Chance(0.25) { // at the same time, the same on another board
		m, b := g.Range(1, 4), "other"
		g.File(boardDir(b)+"/.DIR", g.articleSeed(m))
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			if g.Chance(0.3) {
				ops = append(ops, g.addOp(b))
				continue
			}
			ops = append(ops, opI("update", []int64{int64(g.N(m)), g.Stamp()}, "@", b, g.Pick("title", "modified"), fmt.Sprintf("o%d %s", g.Uniq(), g.Text(g.Range(0, 50), true))))
		}
		g.Task(g.N(2), 0, append(ops, op("list", "@", b))...)
	}
	g.Task(2, 1, op("list", "@", board), g.addOp(board), op("list", "@", board))
	g.Schedule(false)
	g.FaultMix(0.25, 0.25, 0.15)
	if g.Chance(0.05) {
		g.P.DiskFree = g.PickI(1, 60, 130, 200)
	}
}

// applied is the record after an update.
func applied(raw string, e *Event) string {
	b := []byte(raw)
	zero := func(from, to int) {
		for i := from; i < to; i++ {
			b[i] = 0
		}
	}
	switch e.Op.S[2] {
	case "title":
		zero(54, 119)
		put(b, 54, 65, toBig(e.Op.S[3]))
	case "owner":
		zero(34, 48)
		put(b, 34, 14, e.Op.S[3])
	case "date":
		zero(48, 54)
		put(b, 48, 6, e.Op.S[3])
	case "recommend":
		b[33] = byte(int8(b[33]) + int8(e.Op.I[1]))
	case "modified":
		put32(b, 28, uint32(e.Op.I[1]))
	}
	return string(b)
}

// tornTitle says that a title was torn by an earlier failure, in the middle of
// a character or so that zeros precede its rest: it is not written back as it
// was by the next update.
func tornTitle(raw string) bool {
	f := raw[54:119]
	t := toBig(fromBig(strings.Trim(f, "\x00")))
	return len(t) > len(f) || f != t+strings.Repeat("\x00", len(f)-len(t))
}

// alike compares two records, except for the title if that was torn in was.
func alike(was, a, b string) bool {
	return a == b || len(a) == len(b) && a[:54] == b[:54] && a[119:] == b[119:] && tornTitle(was)
}

func checkC08(c *Ctx) {
	if !c.allReturned() {
		return
	}
	all := c.Ev
	boards, names := map[string][]*Event{}, map[string]bool{}
	for _, e := range all {
		names[e.Op.S[1]] = true
		boards[e.Op.S[1]] = append(boards[e.Op.S[1]], e)
	}
	for _, b := range sorted(names) {
		c.Ev = boards[b]
		c.checkUpdates(b)
	}
	c.Ev = all
}

func (c *Ctx) checkUpdates(board string) {
	for _, e := range c.Ev {
		if e.Op.K != "update" && !c.noSpurious(e) {
			return
		}
	}
	p := boardDir(board) + "/.DIR"
	raw := c.file(p)
	init, fin := split(c.Init[c.path(p)], 128), split(raw, 128)
	if len(fin) < len(init) {
		c.W.Violate("lost", "there were %d records at the start and %d at the end", len(init), len(fin))
		return
	}
	type change struct {
		e        *Event
		inv, ret int
		states   []string // contents the record may have after it
	}
	for i := range init {
		states := []string{init[i]}
		var hist []change
		for _, e := range c.events("update") {
			if e.Op.I[0] != int64(i) {
				continue
			}
			var next []string
			for _, s := range states {
				n := applied(s, e)
				switch {
				case e.OK():
					next = append(next, n)
				case e.Done && e.Hard == 0:
					c.noSpurious(e)
					return
				default:
					next = append(next, s)
					for k := 1; k < 128; k++ {
						next = append(next, n[:k]+s[k:])
					}
					if !e.Done {
						next = append(next, n)
					}
				}
			}
			states = uniq(next)
			if len(states) > 600 {
				states = nil
				break
			}
			ret := e.Ret
			if !e.Done {
				ret = never
				if d := c.W.Proc(e.Proc); d.Dead {
					ret = d.DeadSeq
				}
			}
			hist = append(hist, change{e, e.Inv, ret, states})
		}
		if states == nil {
			continue // too many possibilities
		}
		in := func(l []string, f func(s string) bool) bool {
			for _, s := range l {
				if f(s) {
					return true
				}
			}
			return false
		}
		if !in(states, func(s string) bool { return alike(s, s, fin[i]) }) {
			why := "nobody changed it"
			for _, h := range hist {
				if why == "nobody changed it" {
					why = ""
				}
				why += h.e.String() + "; "
			}
			got := decArticle(fin[i])
			want := decArticle(states[0])
			c.W.Violate("wrong-record", "record %d is %s %x instead of %s (%s)", i, show(got.rec()), fin[i][119:], show(want.rec()), why)
			return
		}
		for _, l := range c.events("list") {
			if !l.OK() {
				continue
			}
			if i >= len(l.Res.Recs) {
				c.W.Violate("short-read", "%s returned only %d records", l, len(l.Res.Recs))
				return
			}
			allowed := []string{init[i]}
			for _, h := range hist {
				if h.ret < l.Inv {
					allowed = h.states
				} else if h.inv < l.Ret {
					allowed = append(append([]string{}, allowed...), h.states...)
					c.Hit("list during an update")
				}
			}
			if !in(allowed, func(s string) bool {
				a := decArticle(s)
				w := a.rec()
				if tornTitle(s) {
					w.Title = l.Res.Recs[i].Title // a title torn in the middle of a character
				}
				return sameRec(w, l.Res.Recs[i])
			}) {
				a := decArticle(allowed[0])
				c.W.Violate("bad-read", "%s shows record %d as %s instead of %s", l, i, show(l.Res.Recs[i]), show(a.rec()))
				return
			}
		}
	}
	for _, e := range c.events("update") {
		if (e.Op.I[0] < 0 || e.Op.I[0] >= int64(len(init))) && e.OK() {
			c.W.Violate("out-of-range", "%s succeeded on a list of %d records", e, len(fin))
			return
		}
	}
	// The records appended meanwhile.
	tail := func(s string) string {
		if len(s) < 128*len(init) {
			return ""
		}
		return s[128*len(init):]
	}
	a := &appendLog{what: "the article list", size: 128, initial: "", final: tail(raw), dec: decArticles}
	for _, e := range c.Ev {
		switch e.Op.K {
		case "add":
			a.appends = append(a.appends, e)
		case "list":
			if e.OK() && len(e.Res.Recs) >= len(init) {
				x := *e
				x.Res = simapi.Res{Recs: e.Res.Recs[len(init):]}
				a.reads = append(a.reads, &x)
			}
		}
	}
	a.key = func(e *Event) string { return e.Op.S[2] }
	a.keyOf = func(r string) string { return decArticle(r).File }
	a.match = func(e *Event, r string) string {
		if article(e).enc() != r {
			return "not what was appended"
		}
		return ""
	}
	a.check(c)
}
