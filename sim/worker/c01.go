package main

import (
	"fmt"
	"strings"

	"simapi"
	"simrt"
)

// C01: the article list of a board under concurrent posting, reading, crashes
// and failing disks.
// C02: the same for the list of boards.

func init() {
	add("C01", &Scenario{Name: "post", Weight: 6, Gen: genC01, Check: checkC01})
	add("C01", &Scenario{Name: "again", Gen: func(g *Gen) { genAgain(g, "add") }, Check: checkAgain})
	add("C02", &Scenario{Name: "again", Gen: func(g *Gen) { genAgain(g, "addboard") }, Check: checkAgain})
	add("C02", &Scenario{Name: "newboards", Weight: 6, Gen: genC02, Check: checkC02})
}

func (g *Gen) articleSeed(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		a := &Article{File: fmt.Sprintf("M.15%08d.A.%03X", g.N(1e8), g.N(4096)), Owner: g.Pick("SYSOP", "alice", "bob", "carol1"), Date: fmt.Sprintf("%2d/%02d", g.Range(1, 12), g.Range(1, 28)),
			Title: g.Text(g.Range(1, 40), true), Modified: uint32(1500000000 + g.N(1e8)), Recommend: int8(g.Range(-100, 100)), Multi: uint32(g.N(1000))}
		if g.Chance(0.2) {
			a.Mode = uint8(1 << uint(g.N(8)))
			a.Multi = uint32(g.U64())
		}
		if g.Chance(0.03) { // the other kinds of names
			a.File = g.Pick("G", "D", "N") + a.File[1:]
		}
		switch g.N(40) {
		case 0: // nothing at all
			a = &Article{}
		case 1: // removed
			a.File = ""
		case 2:
			a.Owner = ""
		case 3: // like the one before
			if i > 0 {
				sb.WriteString(sb.String()[128*(i-1):])
				continue
			}
		}
		sb.WriteString(strings.TrimRight(a.enc(), "\x00"))
		sb.WriteString(strings.Repeat("\x00", 128*(i+1)-sb.Len()))
	}
	return sb.String()
}

// addOp appends a record with a unique file name.
func (g *Gen) addOp(board string) simrt.Op {
	title := g.Text(g.Range(0, 60), true)
	owner := g.Pick("SYSOP", "alice", "bob", "carol1", "Twelve.chars")
	date := fmt.Sprintf("%2d/%02d", g.Range(1, 12), g.Range(1, 28))
	if g.Chance(0.08) {
		title = g.Text(g.Range(61, 90), false)
	}
	if g.Chance(0.04) {
		owner = "anOwnerWhoseNameIsTooLong"
	}
	if g.Chance(0.04) {
		date = "12/31/2020"
	}
	o := op("add", "@", board, fmt.Sprintf("M.%d.A.%03X", 1600000000+g.Uniq(), g.N(4096)), owner, date, title)
	o.I = []int64{int64(1600000000 + g.N(1e8)), int64(g.Range(-128, 127))}
	return o
}

func genC01(g *Gen) {
	boards := []string{"test", "SYSOP", "ab"}[:g.Range(1, 2)]
	for _, b := range boards {
		if g.Chance(0.85) {
			s := g.articleSeed(g.Many(int(g.PickI(0, 0, 1, 2, 3, 5))))
			if g.Chance(0.2) {
				// an append of an earlier life was cut short
				s += g.articleSeed(1)[:g.Range(1, 127)]
				g.P.Params["torn-"+b] = 1
			}
			g.File(boardDir(b)+"/.DIR", s)
		} else {
			g.Dir(boardDir(b))
		}
	}
	nt := g.Range(2, 4)
	if g.Thorough {
		nt = g.Range(2, 6)
	}
	for i := 0; i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 4); n > 0; n-- {
			b := boards[g.N(len(boards))]
			if g.Chance(0.65) {
				ops = append(ops, g.addOp(b))
			} else {
				ops = append(ops, op("list", "@", b))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	var rec []simrt.Op
	for _, b := range boards {
		if g.Chance(0.5) {
			rec = append(rec, op("list", "@", b))
		}
		rec = append(rec, g.addOp(b), op("list", "@", b))
	}
	g.Task(2, 1, rec...)
	g.Schedule(false)
	g.FaultMix(0.3, 0.25, 0.15)
	if g.Chance(0.08) {
		g.P.DiskFree = g.PickI(1, 60, 130, 200, 300, 500)
	}
}

func article(e *Event) *Article {
	return &Article{File: e.Op.S[2], Owner: e.Op.S[3], Date: e.Op.S[4], Title: e.Op.S[5], Modified: uint32(e.Op.I[0]), Recommend: int8(e.Op.I[1])}
}

func checkC01(c *Ctx) {
	if !c.allReturned() {
		return
	}
	for _, e := range c.Ev {
		if !c.noSpurious(e) {
			return
		}
	}
	boards := map[string]bool{}
	for _, e := range c.Ev {
		boards[e.Op.S[1]] = true
	}
	for _, b := range sorted(boards) {
		p := boardDir(b) + "/.DIR"
		a := &appendLog{what: "the article list of board " + b, size: 128, initial: c.Init[c.path(p)], final: c.file(p), dec: decArticles}
		for _, e := range c.Ev {
			if e.Op.S[1] != b {
				continue
			}
			switch e.Op.K {
			case "add":
				a.appends = append(a.appends, e)
			case "list":
				a.reads = append(a.reads, e)
			}
		}
		a.key = func(e *Event) string { return e.Op.S[2] }
		a.keyOf = func(r string) string { return decArticle(r).File }
		a.match = func(e *Event, r string) string {
			if w := article(e).enc(); w != r {
				x := decArticle(r)
				y := article(e)
				return fmt.Sprintf("stored %s, wanted %s", show(x.rec()), show(y.rec()))
			}
			return ""
		}
		a.check(c)
		if c.W.Fail != nil {
			return
		}
	}
}

// boardSeed makes n board records with distinct names.
func (g *Gen) boardRec(id string) *Board {
	b := &Board{ID: id, Title: g.Text(g.Range(0, 46), true), Gid: int32(g.Range(0, 5)), Fill: byte(g.N(256))}
	if g.Chance(0.5) {
		b.BM = g.Pick("SYSOP", "alice/bob", "a/b/c")
	}
	if g.Chance(0.5) {
		b.Attr = uint32(g.U64())
		b.Posts, b.Logins, b.Bad = uint8(g.N(256)), uint8(g.N(256)), uint8(g.N(256))
	}
	return b
}

func (g *Gen) boardSeed(ids ...string) string {
	var sb strings.Builder
	for _, id := range ids {
		sb.WriteString(g.boardRec(id).enc())
	}
	return sb.String()
}

// holes are places of removed boards, whose records have no name or nothing at
// all, and boards that are there twice.
func (g *Gen) holes(s string) string {
	b := []byte(s)
	for i := 0; i+256 <= len(b); i += 256 {
		switch g.N(30) {
		case 0:
			copy(b[i:i+256], make([]byte, 256))
		case 1:
			copy(b[i:i+13], make([]byte, 13))
		case 2:
			b[i] = 0
		case 3:
			if i > 0 {
				copy(b[i:i+256], b[i-256:i])
			}
		}
	}
	return string(b)
}

func (g *Gen) boardIDs(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("%si%02d", g.Word(g.Range(1, 8)), i))
	}
	return
}

func (g *Gen) addBoardOp() simrt.Op {
	id := fmt.Sprintf("%sa%03d", g.Word(g.Range(1, 8)), g.Uniq())
	title := g.Text(g.Range(0, 46), true)
	if g.Chance(0.08) {
		title = g.Text(g.Range(49, 80), false)
	}
	return op("addboard", "@", id, title)
}

func genC02(g *Gen) {
	if g.Chance(0.85) {
		s := g.holes(g.boardSeed(g.boardIDs(g.Many(int(g.PickI(0, 0, 1, 2, 3, 6))))...))
		if g.Chance(0.2) {
			s += g.boardSeed("torn")[:g.Range(1, 255)]
		}
		g.File("@/.BRD", s)
	}
	nt := g.Range(2, 4)
	if g.Thorough {
		nt = g.Range(2, 6)
	}
	first := true
	for i := 0; i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 4); n > 0; n-- {
			if g.Chance(0.65) || (first && g.P.Files["@/.BRD"] == nil) {
				ops = append(ops, g.addBoardOp())
			} else {
				ops = append(ops, op("boards", "@"))
			}
			first = false
		}
		g.Task(g.N(2), 0, ops...)
	}
	var rec []simrt.Op
	rec = append(rec, g.addBoardOp(), op("boards", "@"))
	g.Task(2, 1, rec...)
	g.Schedule(false)
	g.FaultMix(0.3, 0.25, 0.15)
	if g.Chance(0.08) {
		g.P.DiskFree = g.PickI(1, 60, 200, 256, 300, 500, 600)
	}
}

func checkC02(c *Ctx) {
	if !c.allReturned() {
		return
	}
	init, had := c.Init[c.path("@/.BRD")]
	var firstAdd *Event
	for _, e := range c.events("addboard") {
		if e.OK() && (firstAdd == nil || e.Ret < firstAdd.Ret) {
			firstAdd = e
		}
	}
	for _, e := range c.Ev {
		if !had && e.Op.K == "boards" && !e.OK() && (firstAdd == nil || firstAdd.Ret > e.Inv) {
			continue // there may be no list of boards yet
		}
		if !c.noSpurious(e) {
			return
		}
	}
	a := &appendLog{what: "the list of boards", size: 256, initial: init, final: c.file("@/.BRD"), dec: decBoards}
	for _, e := range c.Ev {
		switch e.Op.K {
		case "addboard":
			a.appends = append(a.appends, e)
		case "boards":
			a.reads = append(a.reads, e)
		}
	}
	a.key = func(e *Event) string { return e.Op.S[1] }
	a.keyOf = func(r string) string { return fromBig(cstr(r[:13])) }
	a.match = func(e *Event, r string) string {
		x := decBoard(r)
		t := toBig(e.Op.S[2])
		if len(t) > 49 {
			t = t[:49]
		}
		if x.Title != fromBig(t) {
			return "the title is wrong"
		}
		if x.S[0] != "0" || len(x.S) != 1 || x.N[0] != 0 || x.N[1] != 0 || x.N[2] != 0 || x.N[3] != 0 || x.N[4] != 0 {
			return "settings nobody made"
		}
		return ""
	}
	a.check(c)
}

func sorted(m map[string]bool) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return keys(x)
}

// genAgain: the same record is added by several, and by one several times.
func genAgain(g *Gen, kind string) {
	var a, b, list simrt.Op
	if kind == "add" {
		a, list = g.addOp("test"), op("list", "@", "test")
		b = op(a.K, append(append([]string{}, a.S[:5]...), g.Text(g.Range(0, 60), true))...)
		b.I = a.I
		g.File(boardDir("test")+"/.DIR", g.articleSeed(g.N(4)))
	} else {
		a, list = g.addBoardOp(), op("boards", "@")
		b = op(a.K, append(append([]string{}, a.S[:2]...), g.Text(g.Range(0, 46), true))...)
		g.File("@/.BRD", g.boardSeed(g.boardIDs(g.N(4))...))
	}
	for i, nt := 0, g.Range(1, 4); i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 4); n > 0; n-- {
			switch {
			case g.Chance(0.65):
				ops = append(ops, a)
			case g.Chance(0.4):
				ops = append(ops, b)
			default:
				ops = append(ops, list)
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(2, 1, a, list, a, list)
	g.Schedule(false)
	g.FaultMix(0.2, 0.2, 0.15)
}

func checkAgain(c *Ctx) {
	if !c.allReturned() {
		return
	}
	file, size, dec, want := "@/.BRD", 256, decBoards, func(e *Event) simapi.Rec {
		t := toBig(e.Op.S[2])
		if len(t) > 49 {
			t = t[:49]
		}
		return simapi.Rec{Kind: "board", ID: e.Op.S[1], Title: fromBig(t), S: []string{"0"}, N: []int64{0, 0, 0, 0, 0}}
	}
	if len(c.events("add")) > 0 {
		file, size, dec, want = boardDir("test")+"/.DIR", 128, decArticles, func(e *Event) simapi.Rec {
			return decArticles(article(e).enc())[0]
		}
	}
	init, raw := c.Init[c.path(file)], c.file(file)
	fin := dec(raw)
	n := len(init) / size
	if len(fin) < n || raw[:len(init)] != init {
		c.W.Violate("changed-initial", "the %d records that were there at first are no longer the first of %s", n, c.rel(c.path(file)))
		return
	}
	// count says how many records like that of e are in l.
	count := func(l []simapi.Rec, e *Event) (k int) {
		for _, r := range l {
			if sameRec(r, want(e)) {
				k++
			}
		}
		return
	}
	adds := append(c.events("add"), c.events("addboard")...)
	bounds := func(e *Event, before, after int) (lo, hi int) {
		for _, x := range adds {
			if !sameRec(want(x), want(e)) || (x.Done && !x.OK()) {
				continue
			}
			if x.OK() && x.Ret < before {
				lo++
			}
			if x.Inv < after {
				hi++
			}
		}
		return
	}
	for i, r := range fin[n:] {
		known := false
		for _, e := range adds {
			known = known || sameRec(r, want(e))
		}
		if !known {
			c.W.Violate("garbled", "record %d of %s is %s, which nobody added", n+i, c.rel(c.path(file)), show(r))
			return
		}
	}
	for _, e := range adds {
		if lo, hi := bounds(e, never, never); count(fin[n:], e) < lo || count(fin[n:], e) > hi {
			c.W.Violate("count", "%s: such records were added %d to %d times and are %d times in the list", e, lo, hi, count(fin[n:], e))
			return
		}
	}
	for _, r := range c.Ev {
		if (r.Op.K != "list" && r.Op.K != "boards") || !r.OK() {
			continue
		}
		if k := len(r.Res.Recs); k < n || k > len(fin) || !sameRecs(r.Res.Recs, fin[:k]) {
			c.W.Violate("bad-read", "%s returned what the list never was", r)
			return
		}
		for _, e := range adds {
			if lo, hi := bounds(e, r.Inv, r.Ret); count(r.Res.Recs[n:], e) < lo || count(r.Res.Recs[n:], e) > hi {
				c.W.Violate("stale-read", "%s: %d to %d such records were added, and %s has %d", e, lo, hi, r, count(r.Res.Recs[n:], e))
				return
			}
		}
	}
}
