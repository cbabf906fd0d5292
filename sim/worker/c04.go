package main

import (
	"fmt"
	"strings"

	"simrt"
)

// C04: the text of an article under concurrent replacement and reading.
// C05: comments appended to an article.

func init() {
	add("C04", &Scenario{Name: "rewrite", Weight: 4, Gen: genC04, Check: checkText})
	add("C05", &Scenario{Name: "comment", Weight: 3, Gen: genC05, Check: checkText})
	add("C05", &Scenario{Name: "mixed", Weight: 1, Gen: genC05mix, Check: checkText})
}

func (g *Gen) content(kind string, max int) string {
	u := g.Uniq()
	n := g.Range(0, max)
	if g.Chance(0.1) {
		n = 0
	}
	s := fmt.Sprintf("<%s%d:", kind, u)
	if len(s) < n {
		b := []byte(s)
		for len(b) < n {
			b = append(b, fmt.Sprintf("%s%d.%d ", kind, u, len(b))...)
		}
		s = string(b)
	}
	if n == 0 && g.Chance(0.3) {
		return ""
	}
	if n < len(s) && n > 6 {
		s = s[:n]
	}
	if g.Chance(0.15) { // what is taken for white space, marks or ends elsewhere
		s = g.Pick("\xef\xbb\xbf", "\x00", " ", "\n", "\r\n", "\x1b[31m", "\xff\xfe", "\t") + s
	}
	if g.Chance(0.2) {
		return s + ">" + g.Pick("", "", "\x00", "\n\x00\x00", "  ", "\n\n\n", "\r\n", "\n\x1a", "\xa4", "\xff", "\\", "\x1b[m")
	}
	return s + ">\n"
}

func genC04(g *Gen) {
	board := g.Pick("test", "SYSOP")
	g.Dir(boardDir(board))
	files := []string{"M.1600000000.A.001", "M.1600000000.A.002"}[:g.Range(1, 2)]
	max := int(g.PickI(40, 300, 1500, 9000))
	if g.Thorough && g.Chance(0.2) {
		max = 60000
	}
	max = g.Long(max)
	for _, f := range files {
		if g.Chance(0.8) {
			g.File(boardDir(board)+"/"+f, g.content("i", max))
		}
	}
	for i, nt := 0, g.Range(2, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 3); n > 0; n-- {
			f := files[g.N(len(files))]
			if g.Chance(0.5) {
				ops = append(ops, opB("write", g.content("w", max), "@", board, f))
			} else {
				ops = append(ops, op("read", "@", board, f))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	for _, f := range files {
		g.Task(2, 1, op("read", "@", board, f), opB("write", g.content("x", max), "@", board, f), op("read", "@", board, f))
	}
	g.Schedule(false)
	g.pieces(max)
	g.FaultMix(0.25, 0.2, 0.15)
	if g.Chance(0.08) {
		g.P.DiskFree = g.PickI(1, 50, 200, 600, 2000)
	}
}

func (g *Gen) comment() string {
	if g.Chance(0.2) {
		return g.content("c", 30)
	}
	return commentLine(g.Pick("alice", "bob", "carol1"), fmt.Sprintf("c%d %s", g.Uniq(), toBig(g.Text(g.Range(0, 30), g.Chance(0.3)))), fmt.Sprintf("%02d/%02d %02d:%02d", g.Range(1, 12), g.Range(1, 28), g.N(24), g.N(60)))
}

func genC05(g *Gen) {
	board := g.Pick("test", "SYSOP")
	g.Dir(boardDir(board))
	f := "M.1600000000.A.001"
	exists := g.Chance(0.9)
	if exists {
		g.File(boardDir(board)+"/"+f, g.content("i", 300))
	}
	comment := g.comment
	big := g.Chance(0.06)
	if big { // a comment may have any length
		max := g.Long(int(g.PickI(5000, 9000, 20000, 20000, 70000)))
		comment = func() string {
			if g.Chance(0.5) {
				return g.content("c", max)
			}
			return g.comment()
		}
	}
	if g.Chance(0.15) { // the same words again, as people do
		fresh, said := comment, []string(nil)
		comment = func() string {
			if len(said) > 0 && g.Chance(0.6) {
				return said[g.N(len(said))]
			}
			said = append(said, fresh())
			return said[len(said)-1]
		}
	}
	for i, nt := 0, g.Range(2, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 4); n > 0; n-- {
			if g.Chance(0.7) {
				ops = append(ops, opB("append", comment(), "@", board, f))
			} else {
				ops = append(ops, op("read", "@", board, f))
			}
		}
		if g.Chance(0.1) {
			ops = append(ops, opB("append", "x\n", "@", board, "M.1600000000.A.404"))
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(2, 1, opB("append", comment(), "@", board, f), op("read", "@", board, f))
	g.Schedule(false)
	if big {
		g.pieces(100000)
	}
	g.FaultMix(0.2, 0.3, 0.15)
	if g.Chance(0.1) {
		g.P.DiskFree = g.PickI(1, 20, 50, 90, 150)
	}
}

// genC05mix has replacements of the text in between.
func genC05mix(g *Gen) {
	board := g.Pick("test", "SYSOP")
	g.Dir(boardDir(board))
	f := "M.1600000000.A.001"
	g.File(boardDir(board)+"/"+f, g.content("i", 300))
	for i, nt := 0, g.Range(2, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 3); n > 0; n-- {
			switch g.N(5) {
			case 0:
				ops = append(ops, opB("write", g.content("w", 300), "@", board, f))
			case 1, 2:
				ops = append(ops, op("read", "@", board, f))
			default:
				ops = append(ops, opB("append", g.comment(), "@", board, f))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(2, 1, opB("append", g.comment(), "@", board, f), op("read", "@", board, f))
	g.Schedule(false)
	g.FaultMix(0, 0.15, 0.2)
}

const absent = "\x00absent"

// checkText: reads, replacements and appends of every article are linearisable,
// with failures that leave at most a beginning of the new text behind.
func checkText(c *Ctx) {
	if !c.allReturned() {
		return
	}
	files := map[string]bool{}
	for _, e := range c.Ev {
		files[e.Op.S[2]] = true
	}
	final := c.W.K.Walk()
	board := c.Ev[0].Op.S[1]
	for _, f := range sorted(files) {
		p := c.path(boardDir(board) + "/" + f)
		var ev []*Event
		appends := false
		for _, e := range c.Ev {
			if e.Op.S[2] == f {
				ev = append(ev, e)
				appends = appends || e.Op.K == "append"
			}
		}
		init, ok := c.Init[p]
		if !ok {
			init = absent
		}
		fin, ok := final[p]
		if !ok {
			fin = absent
		}
		var seen []string
		for _, e := range ev {
			if e.Op.K == "read" && e.OK() {
				seen = append(seen, string(e.Res.Raw))
			}
		}
		seen = uniq(append(seen, fin))
		var first [256]bool
		for _, e := range ev {
			if e.Op.K == "append" && len(e.Op.B) > 0 {
				first[e.Op.B[0]] = true
			}
		}
		// looked gives up texts that nobody looked at, nor any text they begin.
		looked := func(t string) []string {
			for _, v := range seen {
				if strings.HasPrefix(v, t) {
					return []string{t}
				}
			}
			return []string{unread}
		}
		// partial lists the texts that base followed by a beginning of s can be.
		partial := func(base, s string) []string {
			r := []string{base, unread}
			for _, v := range seen {
				if !strings.HasPrefix(v, base) {
					continue
				}
				n := lcp(v[len(base):], s)
				if !appends {
					if len(base)+n == len(v) {
						r = append(r, v)
					}
					continue
				}
				// What follows is the end or the first byte of another comment.
				for k := 1; k <= n; k++ {
					if at := len(base) + k; k == n || first[v[at]] {
						r = append(r, v[:at])
					}
				}
			}
			return uniq(r)
		}
		var ops []*lop
		for _, e := range ev {
			e := e
			s := string(e.Op.B)
			if e.Done && !e.Res.OK() && e.Hard == 0 {
				// Only the absence of the article excuses a failure.
				if e.Op.K == "write" {
					c.noSpurious(e)
					return
				}
			}
			switch e.Op.K {
			case "read":
				if !e.OK() {
					if e.Done && e.Hard == 0 {
						ops = append(ops, c.newLop(e, func(st string) []string {
							if st == absent {
								return []string{st}
							}
							return nil
						}))
					}
					continue
				}
				r := string(e.Res.Raw)
				ops = append(ops, c.newLop(e, func(st string) []string {
					if st == r {
						return []string{st}
					}
					if st == absent && r == "" {
						// The article is just being made.
						for _, o := range ev {
							if o.Op.K == "write" && o.Inv < e.Ret {
								return []string{""}
							}
						}
					}
					return nil
				}))
			case "write":
				switch {
				case e.OK():
					ops = append(ops, c.newLop(e, func(st string) []string { return []string{s} }))
				default:
					ops = append(ops, c.newLop(e, func(st string) []string {
						r := append([]string{st, ""}, partial("", s)...)
						if !e.Done {
							r = append(r, s)
						}
						return uniq(r)
					}))
				}
			case "append":
				switch {
				case e.OK():
					ops = append(ops, c.newLop(e, func(st string) []string {
						switch {
						case st == absent:
							return nil
						case strings.HasPrefix(st, unread):
							return []string{st}
						}
						return looked(st + s)
					}))
				default:
					ops = append(ops, c.newLop(e, func(st string) []string {
						if st == absent || strings.HasPrefix(st, unread) {
							return []string{st}
						}
						if e.Done && e.Hard == 0 {
							return nil // the article is there, nothing went wrong
						}
						if e.Done && e.Hard < 2 {
							return []string{st}
						}
						r := []string{st}
						if !e.Done {
							r = append(r, looked(st+s)...)
						}
						return uniq(append(r, partial(st, s)...))
					}))
				}
			}
		}
		fe := &Event{Task: -1, Op: &simrt.Op{K: "final", S: []string{f}}, Done: true}
		fe.Res.Raw = []byte(fin)
		end := c.W.Seq()
		ops = append(ops, &lop{e: fe, inv: end, ret: end, step: func(st string) []string {
			if st == fin {
				return []string{st}
			}
			return nil
		}})
		if !linearizable([]string{init}, ops) {
			c.W.Violate("not-linearizable", "%s", explain("article "+f, init, ops, func(e *Event) string {
				if e.Op.K == "read" || e.Op.K == "final" {
					return clip(string(e.Res.Raw))
				}
				return "ok"
			}))
			return
		}
		for _, a := range ev {
			for _, b := range ev {
				if a.Op.K == "read" && b.Op.K != "read" && a.OK() && a.Inv < b.Ret && b.Inv < a.Ret {
					c.Hit("read during a change")
				}
				if a.Op.K != "read" && b.Op.K != "read" && a != b && a.Inv < b.Inv && b.Inv < a.Ret {
					c.Hit("two changes at a time")
				}
			}
		}
	}
	// Nothing else appears or changes.
	for p, s := range final {
		b := p[strings.LastIndex(p, "/")+1:]
		if files[b] && strings.HasPrefix(p, c.path(boardDir(board))) {
			continue
		}
		if o, ok := c.Init[p]; !ok || o != s {
			c.W.Violate("stray", "the file %s (%s) appeared or changed", c.rel(p), clip(s))
			return
		}
	}
	for p := range c.Init {
		if _, ok := final[p]; !ok {
			c.W.Violate("vanished", "the file %s vanished", c.rel(p))
			return
		}
	}
}
