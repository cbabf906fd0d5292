package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"simrt"
)

// C03: file names for new articles are never given out twice and never belong
// to an article that already exists, whatever the clock does.

func init() {
	add("C03", &Scenario{Name: "allocate", Weight: 3, Gen: genC03, Check: checkC03})
	add("C03", &Scenario{Name: "posting", Weight: 2, Gen: genC03post, Check: checkC03post})
}

var nameRE = regexp.MustCompile(`^M\.([0-9]+)\.A\.([0-9A-F]{3})$`)

func (g *Gen) clockTrouble() {
	switch g.N(4) {
	case 0:
		g.P.Tick = 0
	case 1:
		g.P.Gen.JumpP = 0.4
		g.P.Gen.JumpMin, g.P.Gen.JumpMax = -5e9, 5e9
	case 2:
		g.P.Gen.JumpP = 0.3
		g.P.Gen.JumpMin, g.P.Gen.JumpMax = -3600e9, 1e9
	}
	g.P.RandLow = g.Chance(0.6)
}

func genC03(g *Gen) {
	board := g.Pick("test", "SYSOP")
	g.Dir(boardDir(board))
	nosuch := "nosuch"
	switch g.N(4) {
	case 0: // a file is in the place of the directory
		g.File(boardDir(nosuch), g.Text(g.Range(0, 20), false))
	case 1:
		nosuch += strings.Repeat("x", 300)
	}
	sec := g.P.Clock / 1e9
	// articles that are already there, some where the next names may fall
	for n := g.Range(0, 4); n > 0; n-- {
		g.File(boardDir(board)+"/"+fmt.Sprintf("M.%d.A.%03X", sec+int64(g.Range(-2, 2)), g.N(4096)), g.Text(g.Range(0, 40), false))
	}
	if g.Chance(0.2) { // nearly everything is taken, by articles nobody wrote anything to
		for s := int64(-1); s < 2; s++ {
			for n := 0; n < 12; n++ {
				g.File(boardDir(board)+"/"+fmt.Sprintf("M.%d.A.%03X", sec+s, n), "")
			}
		}
	}
	for i, nt := 0, g.Range(2, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 6); n > 0; n-- {
			switch {
			case g.Chance(0.4):
				ops = append(ops, op("create", "@", board, g.Pick("alice", "bob"), "12/31", fmt.Sprintf("t%d", g.Uniq())))
			case g.Chance(0.5):
				ops = append(ops, op("name", "@", board))
			case g.Chance(0.8):
				ops = append(ops, op("newmap", "@", board, g.Pick("alice", "bob"), "12/31", fmt.Sprintf("t%d", g.Uniq())))
			default:
				ops = append(ops, opI("!clock", []int64{int64(g.Range(-3, 1)) * 1e9}))
			}
			if g.Chance(0.05) {
				ops = append(ops, op(g.Pick("create", "name", "newmap"), "@", nosuch, "alice", "12/31", "x"))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(2, 1, op("create", "@", board, "alice", "12/31", "last"), op("newmap", "@", board, "alice", "12/31", "last2"))
	g.Schedule(g.Chance(0.5))
	g.FaultMix(0.2, 0.2, 0.1)
	g.clockTrouble()
	if g.Chance(0.1) { // nothing can be made for some time
		g.P.Standing = append(g.P.Standing, simrt.Standing{Call: g.Pick("create", "create", "any", "write", "flock"), Errno: []int{13, 28, 30, 24, 122, 5, 12}[g.N(7)]})
	}
}

func headerOf(e *Event) string {
	return fmt.Sprintf("作者: %s 看板: %s\n標題: %s \n時間: %s\n", e.Op.S[2], e.Op.S[1], e.Op.S[4], e.Op.S[3])
}

func checkC03(c *Ctx) {
	if !c.allReturned() {
		return
	}
	owner := map[string]*Event{}
	var board string
	unsure := 0
	var lost []*Event
	jumps := c.W.Stats.Jumps > 0
	for _, e := range c.Ev {
		if e.Op.K == "!clock" {
			jumps = true
		}
	}
	final := c.W.K.Walk()
	for _, e := range c.Ev {
		if e.Op.K == "!clock" {
			continue
		}
		if strings.HasPrefix(e.Op.S[1], "nosuch") {
			if e.OK() {
				c.W.Violate("success-nowhere", "%s gave the name %s on a board without a directory", e, e.Res.S)
				return
			}
			continue
		}
		board = e.Op.S[1]
		if !c.noSpurious(e) {
			return
		}
		if !e.OK() {
			unsure++
			lost = append(lost, e)
			continue
		}
		m := nameRE.FindStringSubmatch(e.Res.S)
		if m == nil {
			c.W.Violate("bad-name", "%s gave the name %q", e, e.Res.S)
			return
		}
		sec, _ := strconv.ParseInt(m[1], 10, 64)
		if !jumps && (sec < e.WallInv/1e9 || sec > e.WallRet/1e9) {
			c.W.Violate("bad-time", "%s between second %d and %d gave the name %s", e, e.WallInv/1e9, e.WallRet/1e9, e.Res.S)
			return
		}
		p := c.path(boardDir(board) + "/" + e.Res.S)
		if _, ok := c.Init[p]; ok {
			c.W.Violate("existing-name", "%s gave the name %s of an article that was already there", e, e.Res.S)
			return
		}
		if o := owner[e.Res.S]; o != nil {
			c.W.Violate("name-twice", "%s and %s both got the name %s", o, e, e.Res.S)
			return
		}
		owner[e.Res.S] = e
		got, ok := final[p]
		if !ok {
			c.W.Violate("not-reserved", "%s gave the name %s but there is no such file", e, e.Res.S)
			return
		}
		want := ""
		if e.Op.K == "newmap" {
			want = headerOf(e)
		}
		if got != want {
			c.W.Violate("bad-content", "%s gave the name %s, whose file holds %s instead of %s", e, e.Res.S, clip(got), clip(want))
			return
		}
		if e.Op.K != "name" {
			r := e.Res.Recs[0]
			if r.ID != e.Res.S || r.Owner != e.Op.S[2] || r.Date != e.Op.S[3] || r.Title != e.Op.S[4] {
				c.W.Violate("bad-record", "%s made the record %s", e, show(r))
				return
			}
		}
	}
	for p, s := range c.Init {
		if final[p] != s {
			c.W.Violate("changed", "%s, which was there before, changed from %s to %s", c.rel(p), clip(s), clip(final[p]))
			return
		}
	}
	extra := 0
	for p, s := range final {
		if _, ok := c.Init[p]; ok {
			continue
		}
		b := p[strings.LastIndex(p, "/")+1:]
		if owner[b] != nil && p == c.path(boardDir(board)+"/"+b) {
			continue
		}
		extra++
		fine := false
		for _, e := range lost {
			if nameRE.MatchString(b) && strings.HasPrefix(p, c.path(boardDir(board))+"/") && (s == "" || e.Op.K == "newmap" && strings.HasPrefix(headerOf(e), s)) {
				fine = true
			}
		}
		if !fine {
			c.W.Violate("stray", "the file %s (%s) appeared although nobody got that name", c.rel(p), clip(s))
			return
		}
	}
	if extra > unsure {
		c.W.Violate("leak", "%d files appeared that nobody got the name of, with only %d calls that failed", extra, unsure)
	}
	for _, e := range c.Ev {
		for _, f := range c.Ev {
			if e != f && e.OK() && f.OK() && e.Op.K != "!clock" && f.Op.K != "!clock" && e.Inv < f.Ret && f.Inv < e.Ret && e.WallInv/1e9 == f.WallInv/1e9 {
				c.Hit("concurrent allocations in the same second")
			}
		}
	}
}

// posting: every client allocates a name, writes its text there and announces it.
func genC03post(g *Gen) {
	board := g.Pick("test", "SYSOP")
	g.File(boardDir(board)+"/.DIR", g.articleSeed(g.N(3)))
	for i, nt := 0, g.Range(2, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 3); n > 0; n-- {
			u := g.Uniq()
			ops = append(ops, op(g.Pick("create", "newmap"), "@", board, g.Pick("alice", "bob"), "12/31", fmt.Sprintf("title %d", u)),
				opB("writelast", fmt.Sprintf("<text %d>%s", u, g.Text(g.Range(0, 200), false)), "@", board), op("addlast", "@", board))
			if g.Chance(0.3) {
				ops = append(ops, op("list", "@", board))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(2, 1, op("list", "@", board))
	g.Schedule(g.Chance(0.5))
	g.clockTrouble()
	if g.Chance(0.4) {
		j := g.P.Gen
		g.FaultMix(0.5, 0, 0.5)
		g.P.Gen.JumpP, g.P.Gen.JumpMin, g.P.Gen.JumpMax = j.JumpP, j.JumpMin, j.JumpMax
	}
}

func checkC03post(c *Ctx) {
	if !c.allReturned() {
		return
	}
	for _, e := range c.Ev {
		if !c.noSpurious(e) {
			return
		}
	}
	// what each client holds, in its own order
	type post struct{ create, write, add *Event }
	cur := map[int]*post{}
	var posts []*post
	board := c.Ev[0].Op.S[1]
	for _, e := range c.Ev {
		switch e.Op.K {
		case "create", "newmap":
			p := &post{create: e}
			cur[e.Task] = p
			posts = append(posts, p)
		case "writelast":
			if p := cur[e.Task]; p != nil {
				p.write = e
			}
		case "addlast":
			if p := cur[e.Task]; p != nil {
				p.add = e
			}
		}
	}
	var last *Event
	for _, e := range c.events("list") {
		if e.Phase == 1 {
			last = e
		}
	}
	if last == nil || !last.OK() {
		return
	}
	count := map[string]int{}
	for _, r := range last.Res.Recs {
		count[r.ID]++
	}
	for _, p := range posts {
		if !p.create.OK() {
			continue
		}
		name := p.create.Res.S
		if p.write != nil && p.write.OK() {
			got := c.file(boardDir(board) + "/" + name)
			if got != string(p.write.Op.B) {
				c.W.Violate("lost-article", "%s got the name %s and %s, but the article holds %s", p.create, name, p.write, clip(got))
				return
			}
		}
		if p.add != nil && p.add.OK() {
			if count[name] != 1 {
				c.W.Violate("lost-post", "%s announced %s, which is %d times in the list", p.add, name, count[name])
				return
			}
			for _, r := range last.Res.Recs {
				if r.ID == name && (r.Title != p.create.Op.S[4] || r.Owner != p.create.Op.S[2] || r.Date != p.create.Op.S[3]) {
					c.W.Violate("wrong-post", "%s is in the list as %s", p.create, show(r))
					return
				}
			}
		}
	}
}
