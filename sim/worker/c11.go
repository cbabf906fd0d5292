package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"simapi"
	"simrt"
)

// C11: collecting the articles and comments of a user.
// C12: favourites.
// C13: damaged files.

func init() {
	add("C11", &Scenario{Name: "collect", Weight: 2, Gen: genC11, Snap: true, Check: checkC11})
	add("C11", &Scenario{Name: "collect-faulty", Weight: 1, Gen: genC11faulty, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
	add("C12", &Scenario{Name: "favourites", Weight: 2, Gen: genC12, Check: checkC12})
	add("C13", &Scenario{Name: "damaged", Weight: 4, Gen: genC13, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterC13})
}

// ---- C11 ----

func (g *Gen) collectOp(p *Pop) simrt.Op {
	b := p.boards[g.N(len(p.boards))]
	u := g.Pick("alice", "alice", "bob", "bob", "carol1", "nobody", "carol", "ali", "lice", "Alice", "BOB", "")
	switch g.N(6) {
	case 0, 1:
		return op("uarts", p.h, u)
	case 2, 3:
		return op("ucoms", p.h, u)
	case 4:
		return op("bcoms", p.h, b, u)
	}
	f := "M.1.A.404"
	if l := p.arts[b]; len(l) > 0 {
		f = l[g.N(len(l))]
	}
	return op("acoms", p.h, b, f)
}

func genC11(g *Gen) {
	p := g.populate("@", true)
	for i, n := 0, g.Range(1, 2); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			b := p.boards[g.N(len(p.boards))]
			switch x := g.F(); {
			case x < 0.35: // post: the text first, then the record
				f := fmt.Sprintf("M.17%08d.A.%03X", g.Uniq(), g.N(4096))
				ops = append(ops, opB("write", g.body(3), "@", b, f), opI("add", []int64{int64(1600000000 + g.N(1000)), 0}, "@", b, f, g.Pick("alice", "bob", "carol1"), "12/31", g.Text(g.Range(0, 30), true)))
			case x < 0.85:
				l := p.arts[b]
				if len(l) == 0 {
					continue
				}
				x := opB("append", g.stampedComment(), "@", b, l[g.N(len(l))])
				ops = append(ops, x)
				if g.Chance(0.15) {
					ops = append(ops, x)
				}
			default:
				ops = append(ops, op("addboard", "@", fmt.Sprintf("nw%02d", g.Uniq()), "title"))
			}
		}
		g.Task(g.N(3), 0, ops...)
	}
	for i, n := 0, g.Range(1, 2); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, g.collectOp(p))
		}
		g.Task(g.N(3), 0, ops...)
	}
	g.Task(2, 1, g.collectOp(p), g.collectOp(p))
	g.Schedule(false)
	g.FaultMix(0, 0, 0.3)
}

func genC11faulty(g *Gen) {
	p := g.populate("@", g.Chance(0.7))
	for i, n := 0, g.Range(1, 2); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			ops = append(ops, g.collectOp(p))
		}
		g.Task(i, 0, ops...)
	}
	g.Schedule(false)
	g.FaultMix(0, 0.5, 0.3)
}

func isCollect(k string) bool { return k == "uarts" || k == "ucoms" || k == "bcoms" || k == "acoms" }

// subsequence: -1 when a is part of b in the same order, else the record of a
// which is not.
func subsequence(a, b []simapi.Rec) int {
	j := 0
	for i := range a {
		for j < len(b) && !sameRec(a[i], b[j]) {
			j++
		}
		if j == len(b) {
			return i
		}
		j++
	}
	return -1
}

func groupRecs(l []simapi.Rec, byFile bool) map[string][]simapi.Rec {
	m := map[string][]simapi.Rec{}
	for _, r := range l {
		k := r.S[0]
		if byFile {
			k += "/" + r.ID
		}
		m[k] = append(m[k], r)
	}
	return m
}

// listedTwice says whether a list names this board, or this file of it, twice.
func (v view) listedTwice(k string) bool {
	b, f, byFile := strings.Cut(k, "/")
	n, m := 0, 0
	for _, x := range split(v.m[v.h+"/.BRD"], 256) {
		if fromBig(cstr(x[:13])) == b {
			n++
		}
	}
	for _, x := range split(v.m[strings.Replace(boardDir(b), "@", v.h, 1)+"/.DIR"], 128) {
		if byFile && decArticle(x).File == f {
			m++
		}
	}
	return n > 1 || m > 1
}

func checkC11(c *Ctx) {
	if !c.allReturned() {
		return
	}
	fin := view{c.Home, c.W.K.Walk()}
	for _, e := range c.Ev {
		if !isCollect(e.Op.K) {
			continue
		}
		lo, okLo := view{c.Home, e.Before}.answer(e.Op)
		hi, okHi := fin.answer(e.Op)
		switch {
		case !e.OK() && okLo && okHi:
			if !c.noSpurious(e) {
				return
			}
			continue
		case !e.OK():
			continue
		case !okLo && !okHi:
			c.W.Violate("false-success", "%s: something it needs is missing, it returned %s", e, shows(e.Res.Recs))
			return
		}
		if i := subsequence(e.Res.Recs, hi.Recs); i >= 0 {
			c.W.Violate("invented", "%s: record %d, %s, is not, or not there, in what is stored at the end: %s", e, i, show(e.Res.Recs[i]), shows(hi.Recs))
			return
		}
		if okLo {
			if i := subsequence(lo.Recs, e.Res.Recs); i >= 0 {
				c.W.Violate("missing", "%s: %s, which was stored when the call began, is not in the result %s", e, show(lo.Recs[i]), shows(e.Res.Recs))
				return
			}
		}
		got, want := groupRecs(e.Res.Recs, e.Op.K != "uarts"), groupRecs(hi.Recs, e.Op.K != "uarts")
		for k := range got {
			if fin.listedTwice(k) {
				continue
			}
			for i, r := range got[k] {
				if !sameRec(r, want[k][i]) {
					c.W.Violate("gap", "%s: record %d of %s is %s, but %s comes before it", e, i, k, show(r), show(want[k][i]))
					return
				}
			}
		}
		if e.Phase == 0 && len(lo.Recs) < len(hi.Recs) {
			c.Hit("collected while records were added")
		}
	}
}

// ---- C12 ----

func genC12(g *Gen) {
	n := g.Many(g.Range(0, 4))
	if g.Chance(0.95) {
		g.File("@/.BRD", g.boardSeed(g.boardIDs(n)...))
	}
	users := []string{"alice", "bob"}
	fav := func() string {
		s := encFav(g.favTree(0, n+1))
		switch x := g.F(); {
		case x < 0.1:
			return s[:g.N(len(s)+1)]
		case x < 0.2:
			b := []byte(s)
			for k := g.Range(1, 3); k > 0; k-- {
				b[g.N(len(b))] = byte(g.PickI(0, 1, 2, 3, 4, 255, int64(g.N(256))))
			}
			return string(b)
		case x < 0.25:
			return s + string(g.Bytes(g.N(30)))
		}
		return s
	}
	for _, u := range users {
		g.Dir(userDir(u))
		if g.Chance(0.85) {
			g.File(userDir(u)+"/.fav", fav())
		}
	}
	for i, nt := 0, g.Range(1, 2); i < nt; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			if g.Chance(0.7) {
				ops = append(ops, g.addBoardOp())
			} else {
				ops = append(ops, opB("!fill", fav(), userDir(g.Pick(users...))+"/.fav"))
			}
		}
		g.Task(g.N(3), 0, ops...)
	}
	for i, nt := 0, g.Range(1, 3); i < nt; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, op("favs", "@", g.Pick(users...)))
		}
		g.Task(g.N(3), 0, ops...)
	}
	g.Task(2, 1, op("favs", "@", "alice"), op("favs", "@", "bob"))
	g.Schedule(false)
	g.FaultMix(0.1, 0.3, 0.3)
}

// plainFavs removes the titles, whose text may be damaged.
func plainFavs(l []simapi.Rec) (r []simapi.Rec) {
	for _, x := range l {
		if len(x.N) > 0 && x.N[0] == 1 {
			x.Title = ""
		}
		x.Sub = plainFavs(x.Sub)
		r = append(r, x)
	}
	return
}

func cleanFavs(l []FavItem) bool {
	for _, x := range l {
		if strings.Contains(x.Title, "\ufffd") || !cleanFavs(x.Sub) {
			return false
		}
	}
	return true
}

func checkC12(c *Ctx) {
	if !c.allReturned() {
		return
	}
	fb, hasBrd := c.W.K.Walk()[c.path("@/.BRD")]
	init, hadBrd := c.Init[c.path("@/.BRD")]
	fin := decBoards(fb)
	start := len(split(init, 256))
	for _, e := range c.events("favs") {
		// How many boards there may have been.
		lo, hi := start, start
		pos := map[string]int{}
		for i, b := range fin {
			pos[b.ID] = i
		}
		made := hadBrd
		for _, a := range c.events("addboard") {
			i, ok := pos[a.Op.S[1]]
			if a.Inv < e.Ret {
				made = made || hasBrd
			}
			if !ok {
				continue
			}
			if a.OK() && a.Ret < e.Inv && i+1 > lo {
				lo = i + 1
			}
			if a.Inv < e.Ret && i+1 > hi {
				hi = i + 1
			}
		}
		// What the file may have been.
		p := userPath(c, e.Op.S[1])
		var cands []string
		last := absent
		if s, ok := c.Init[p]; ok {
			last = s
		}
		for _, f := range c.events("!fill") {
			if f.Op.S[0] != p {
				continue
			}
			if f.Ret < e.Inv || !f.Done {
				last = string(f.Op.B)
			}
		}
		cands = append(cands, last)
		for _, f := range c.events("!fill") {
			if f.Op.S[0] == p && f.Inv < e.Ret && f.Ret > e.Inv {
				cands = append(cands, string(f.Op.B))
			}
		}
		good, why := false, ""
		mayFail := false
		for _, s := range cands {
			if s == absent {
				if e.OK() && len(e.Res.Recs) == 0 {
					good = true
				}
				why = "the user has no favourites"
				continue
			}
			l, ok := decFav(s)
			if !ok || !hadBrd {
				mayFail = true
			}
			if !ok || !made {
				why = "the favourites are damaged or there is no board list"
				continue
			}
			for n := lo; n <= hi && e.OK(); n++ {
				want, got := favRecs(l, fin[:n]), e.Res.Recs
				if !cleanFavs(l) {
					want, got = plainFavs(want), plainFavs(got)
				}
				if sameRecs(got, want) {
					good = true
				} else if why == "" || n == lo {
					why = firstDiff(got, want)
				}
			}
		}
		switch {
		case e.OK() && !good:
			c.W.Violate("wrong-favourites", "%s returned %s: %s (boards: between %d and %d of %s)", e, shows(e.Res.Recs), why, lo, hi, shows(fin))
			return
		case !e.OK() && !mayFail:
			if !c.noSpurious(e) {
				return
			}
		}
		if e.OK() && hi > lo {
			c.Hit("favourites read while boards were added")
		}
	}
}

func userPath(c *Ctx, u string) string { return c.path(userDir(u) + "/.fav") }

// ---- C13 ----

// damage returns a broken version of s.
func (g *Gen) damage(s string) string {
	switch g.N(9) {
	case 0:
		return ""
	case 1:
		return string(g.Bytes(g.N(700)))
	case 2:
		return s[:g.N(len(s)+1)]
	case 3:
		return s + string(g.Bytes(g.Range(1, 300)))
	case 4:
		return strings.Repeat("\xff", g.Range(1, 600))
	case 5:
		return strings.Repeat("\x00", g.Range(1, 600))
	case 6:
		if len(s) > 1 {
			i := g.N(len(s))
			j := i + g.N(len(s)-i)
			return s[:i] + s[j:]
		}
		return "\n\n"
	}
	b := []byte(s)
	for k := g.Range(1, 12); k > 0 && len(b) > 0; k-- {
		b[g.N(len(b))] = byte(g.PickI(0, 255, 10, 13, 27, 47, 58, 128, int64(g.N(256))))
	}
	return string(b)
}

func genC13(g *Gen) {
	p := g.populate("@", true)
	if g.Chance(0.5) {
		g.File("@/formosa.DIR", encFormosa("M.1.A", 1, "x", 1600000000, "title")+encFormosa("M.2.A", 1, "y", 1600000000, "title"))
		g.File("@/uinfo", string(g.Bytes(3484*2)))
	}
	var names []string
	for f := range g.P.Files {
		if !strings.HasSuffix(f, "/") {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	n := g.Range(1, 4)
	if g.Chance(0.1) {
		n = len(names)
	}
	for ; n > 0; n-- {
		f := names[g.N(len(names))]
		if g.Chance(0.5) {
			// Prefer the files with a structure.
			for k := 0; k < 20 && !strings.Contains(f, "/.") && !strings.Contains(f, "logins"); k++ {
				f = names[g.N(len(names))]
			}
		}
		switch x := g.F(); {
		case x < 0.9:
			g.File(f, g.damage(string(g.P.Files[f])))
		case x < 0.95:
			delete(g.P.Files, f)
		default:
			delete(g.P.Files, f)
			g.Dir(f)
		}
	}
	ops := []simrt.Op{}
	for k := g.Range(3, 10); k > 0; k-- {
		ops = append(ops, g.anyOp(p, g.Chance(0.2)))
	}
	g.Task(0, 0, ops...)
	g.FaultMix(0, 0.1, 0.2)
}

// afterC13: whatever is in the files, calls end with an answer or an error;
// records are neither invented nor dropped and what can be read of them is right.
func afterC13(c *Ctx, t *simrt.Task, e *Event) {
	delete(c.Aux["cur"].(map[int]*Event), t.ID)
	if c.W.Fail != nil {
		return
	}
	o := e.Op
	bad := func(class, f string, x ...interface{}) {
		c.W.Violate(class, "%s: %s", e, fmt.Sprintf(f, x...))
	}
	if !isQuery(o.K) {
		if c.W.K.IsDir(c.path("@/.BRD")) {
			return
		}
		if o.K == "update" {
			c.judgeDamagedUpdate(e)
			return
		}
		if dirInPlace(c, o) {
			if o.K == "draftd" && e.OK() && o.S[1] != "" {
				// An empty directory in the place of the draft may go.
				delete(c.Dirs, c.path("@/"+upath(o.S[1], "buf."+o.S[2])))
			}
			c.sameDirs(e, c.Home)
			return
		}
		c.judge(e)
		return
	}
	for _, p := range keys(e.After) {
		if s, ok := e.Before[p]; !ok || s != e.After[p] {
			bad("query-wrote", "the query changed %s", c.rel(p))
			return
		}
	}
	if !e.OK() {
		return
	}
	v := view{c.Home, e.Before}
	switch o.K {
	case "uarts", "ucoms", "bcoms", "acoms", "badlogins", "recent", "verify":
		// Lines and text which are no longer what they were.
		if o.K == "badlogins" || o.K == "recent" {
			s, ok := e.Before[o.S[0]]
			if !ok {
				bad("false-success", "there is no such file")
			} else if n := len(lines(s)); len(e.Res.Recs) != n {
				bad("dropped", "the log has %d lines, the result %d entries", n, len(e.Res.Recs))
			} else {
				for i, l := range lines(s) {
					re, dec := badLoginRE, decBadLogins
					if o.K == "recent" {
						re, dec = recentRE, decRecent
					}
					if re.MatchString(l) {
						if w := dec(l); !sameRecs(e.Res.Recs[i:i+1], w) {
							bad("wrong-answer", "line %d: %s", i, firstDiff(e.Res.Recs[i:i+1], w))
						}
					} else if !timeRE.MatchString(l) {
						bad("false-success", "line %d, %q, is damaged", i, l)
					}
				}
			}
		}
		return
	}
	if o.K != "boards" && o.K != "users" && o.K != "formosa" && o.K != "uinfo" && o.S[1] == "" {
		return
	}
	want, ok := v.answer(o)
	if !ok {
		if o.K == "favs" { // structure decides
			bad("false-success", "the favourites are damaged or there is no board list, it returned %s", shows(e.Res.Recs))
		} else if c.Hits != nil {
			bad("false-success", "there is nothing it can have read (it returned %s %s)", clip(string(e.Res.Raw)), shows(e.Res.Recs))
		}
		return
	}
	if string(e.Res.Raw) != string(want.Raw) {
		bad("wrong-answer", "%s instead of %s", clip(string(e.Res.Raw)), clip(string(want.Raw)))
		return
	}
	if len(e.Res.Recs) != len(want.Recs) {
		bad("dropped", "%d records instead of %d", len(e.Res.Recs), len(want.Recs))
		return
	}
	if o.K == "uinfo" {
		for i, g := range e.Res.Recs {
			if why := sameInfo(g, want.Recs[i]); why != "" {
				bad("wrong-answer", "record %d: %s", i, why)
			}
		}
		return
	}
	if why := closeRecs(e.Res.Recs, want.Recs); why != "" {
		bad("wrong-answer", "%s", why)
		return
	}
	c.Hit("a damaged file was read")
}

// Lines of the logs which are undamaged, and what every entry has.
var (
	badLoginRE = regexp.MustCompile(`^([ -][A-Za-z0-9. ]{12})?\[(0[1-9]|1[0-2])/([01][1-9]|2[0-8])/20\d\d ([01]\d|2[0-3]):[0-5]\d:[0-5]\d (Mon|Tue|Wed|Thu|Fri|Sat|Sun)\] (\?@)?[0-9.]+$`)
	recentRE   = regexp.MustCompile(`^(0[1-9]|1[0-2])/([01][1-9]|2[0-8])/20\d\d ([01]\d|2[0-3]):[0-5]\d:[0-5]\d [0-9.]+$`)
	timeRE     = regexp.MustCompile(`\d\d/\d\d/\d{4} \d{1,2}:\d\d:\d\d`)
)

// closeRecs compares records whose text may be damaged: numbers exactly, text
// where it is undamaged.
func closeRecs(got, want []simapi.Rec) string {
	for i := range got {
		g, w := got[i], want[i]
		x := g
		same := func(a *string, b string) {
			if strings.Contains(b, "\ufffd") || !plain(b) {
				*a = b
			}
		}
		same(&x.ID, w.ID)
		same(&x.Owner, w.Owner)
		same(&x.Date, w.Date)
		same(&x.Title, w.Title)
		if len(x.S) == len(w.S) {
			x.S = append([]string{}, g.S...)
			for j := range x.S {
				same(&x.S[j], w.S[j])
			}
		}
		x.Sub, w.Sub = nil, nil
		if !sameRec(x, w) {
			return fmt.Sprintf("record %d is %s instead of %s", i, show(got[i]), show(want[i]))
		}
		if len(got[i].Sub) != len(want[i].Sub) {
			return fmt.Sprintf("folder %d has %d entries instead of %d", i, len(got[i].Sub), len(want[i].Sub))
		}
		if why := closeRecs(got[i].Sub, want[i].Sub); why != "" {
			return why
		}
	}
	return ""
}

// plain text has no bytes that the decoders may treat in different ways.
func plain(s string) bool {
	for _, r := range s {
		if r < 32 || r > 126 && unbigOf(r) == "" {
			return false
		}
	}
	return true
}

func unbigOf(r rune) string { return big[r] }

// dirInPlace says whether a directory lay where the call needs a file.
func dirInPlace(c *Ctx, o *simrt.Op) bool {
	isDir := func(rel string) bool { _, ok := c.P.Files["@/"+rel+"/"]; return ok }
	if len(o.S) < 2 || o.S[1] == "" {
		return false
	}
	for _, f := range []string{".DIR", "buf.0", "buf.1"} {
		if isDir(bpath(o.S[1], f)) || isDir(upath(o.S[1], f)) {
			return true
		}
	}
	return len(o.S) > 2 && o.S[2] != "" && isDir(bpath(o.S[1], o.S[2]))
}

// judgeDamagedUpdate: the text of the record itself may not survive, all else has to.
func (c *Ctx) judgeDamagedUpdate(e *Event) {
	o := e.Op
	if !c.sameDirs(e, c.Home) {
		return
	}
	p := ""
	if o.S[1] != "" {
		p = c.path("@/" + bpath(o.S[1], ".DIR"))
	}
	old, had := e.Before[p]
	i := o.I[0]
	can := had && i >= 0 && i < int64(len(old)/128)
	if e.OK() && !can {
		c.W.Violate("false-success", "%s: there is no such record", e)
		return
	}
	for q, s := range e.Before {
		now, ok := e.After[q]
		if q == p && can && len(now) == len(s) && now[:i*128] == s[:i*128] && now[i*128+128:] == s[i*128+128:] {
			continue
		}
		if !ok || now != s {
			c.W.Violate("damaged-more", "%s changed %s from %s (%d bytes) to %s (%d bytes)", e, c.rel(q), clip(s), len(s), clip(now), len(now))
			return
		}
	}
	for q := range e.After {
		if _, ok := e.Before[q]; !ok {
			c.W.Violate("stray", "%s made %s", e, c.rel(q))
			return
		}
	}
}
