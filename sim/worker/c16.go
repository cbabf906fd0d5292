package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"simapi"
	"simrt"
)

// C16: the command line tool, and the three calls which post an article: what
// is reported as posted is listed and complete, what is listed has its text,
// what failed is reported as failed, and what is shown is what is stored.

func init() {
	add("C16", &Scenario{Name: "tool", Gen: genC16, Snap: true, Check: checkC16})
}

func (g *Gen) tool(args ...string) simrt.Op {
	return simrt.Op{K: "!tool", S: append([]string{"--bbshome=@"}, args...), I: []int64{0}}
}

// wrong marks a run which cannot succeed.
func wrong(o simrt.Op) simrt.Op { o.I = []int64{1}; return o }

// text may have characters which Big5 lacks, marked by how text compares.
func (g *Gen) posting() string {
	s := g.Text(g.Range(0, 60), true)
	if g.Chance(0.08) {
		s += "😀" + g.Text(g.Range(0, 20), true)
	}
	if g.Chance(0.2) {
		s += "\n" + strings.TrimSpace(g.Text(g.Range(0, 20), false)) + "\r\n"
	}
	return s
}

func (g *Gen) toolOp(boards []string, arts map[string][]string) simrt.Op {
	b := boards[g.N(len(boards))]
	switch x := g.F(); {
	case x < 0.42:
		a := []string{"add_board_article", "--board", b, "--owner", g.Pick("alice", "bob", "Twelve.chars"), "--date", g.Pick("12/31", " 1/02"), "--title", fmt.Sprintf("t%d %s", g.Uniq(), g.Text(g.Range(0, 20), true))}
		if g.Chance(0.7) {
			a = append(a, "--content", g.posting())
		} else {
			f := fmt.Sprintf("@/up/f%d", g.Uniq())
			s := g.posting()
			if g.Chance(0.1) {
				s = strings.Repeat(s+"more text\n", 1000)
			}
			g.File(f, s)
			a = append(a, "--content_file", f)
		}
		if g.Chance(0.08) {
			switch g.N(4) {
			case 3: // the last one has no value
				return wrong(g.tool(a[:len(a)-1]...))
			case 0: // an argument is missing
				i := 1 + 2*g.N(5)
				return wrong(g.tool(append(append([]string{}, a[:i]...), a[i+2:]...)...))
			case 1:
				a[2] = "nosuch"
				return wrong(g.tool(a...))
			default:
				return wrong(g.tool(append(a[:9:9], "--content_file", "@/up/none")...))
			}
		}
		if a[9] == "--content_file" && g.Chance(0.1) { // what is given in the command itself counts
			a = append(a, "--content", g.Pick("", "in the command", g.posting()))
		}
		return g.tool(a...)
	case x < 0.56:
		return g.tool("show_board_article_list", "--board", b)
	case x < 0.72:
		f := g.Pick("$last", "$new", "$new")
		if l := arts[b]; len(l) > 0 && g.Chance(0.3) {
			f = l[g.N(len(l))]
		}
		return g.tool("show_board_article", "--board", b, "--filename", f)
	case x < 0.80:
		return g.tool("add_board", "--board_id", fmt.Sprintf("%sb%d", g.Word(g.Range(1, 5)), g.Uniq()), "--title", g.Text(g.Range(0, 40), true))
	case x < 0.86:
		return g.tool("show_board_list")
	case x < 0.89:
		return g.tool("show_user_list")
	case x < 0.93:
		return g.tool("show_user_article_list", "--user_id", g.Pick("alice", "bob", "nobody"))
	case x < 0.96:
		return g.tool("show_user_comment_list", "--user_id", g.Pick("alice", "bob", "nobody"))
	case x < 0.98:
		o := g.tool(g.Pick("show_user_article_list", "show_user_comment_list", "show_board_article", "show_board_article_list", "nonsense"))
		return wrong(o)
	}
	o := g.tool(g.Pick("show_board_list", "show_user_list", "add_board"), "--board_id", "x", "--title", "x")
	o.S[0] = g.Pick("--bbshome=@/none", "--bbshome=@/.BRD")
	return wrong(o)
}

func genC16(g *Gen) {
	boards := []string{"test", "SYSOP", "ab"}[:g.Range(1, 2)]
	listed := append(append([]string{}, boards...), g.boardIDs(g.Many(g.N(2)))...)
	g.File("@/.BRD", g.boardSeed(listed...))
	g.File("@/.PASSWDS", g.users([]string{"alice", "", "bob"}))
	g.Dir("@/up")
	arts := map[string][]string{}
	for _, b := range boards {
		g.Dir(boardDir(b))
		n := g.Many(g.N(4))
		if n == 0 && g.Chance(0.5) {
			continue
		}
		s := g.articleSeed(n)
		for _, r := range split(s, 128) {
			f := decArticle(r).File
			arts[b] = append(arts[b], f)
			g.File(boardDir(b)+"/"+f, g.body(3))
		}
		if g.Chance(0.2) { // a deleted article
			s += strings.Repeat("\x00", 128)
		}
		g.File(boardDir(b)+"/.DIR", s)
	}
	for p, np := 0, g.Range(1, 2); p < np; p++ {
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			ops = append(ops, g.toolOp(boards, arts))
		}
		g.Task(p, 0, ops...)
	}
	for i, n := 0, g.N(3); i < n; i++ {
		b := boards[g.N(len(boards))]
		g.Task(2, 0, op("create", "@", b, g.Pick("alice", "bob"), "12/31", fmt.Sprintf("t%d %s", g.Uniq(), g.Text(g.Range(0, 20), true))), op("addlast", "@", b), opB("writelast", toBig(g.Text(g.Range(0, 60), true)), "@", b))
	}
	b := boards[0]
	g.Task(2, 1, g.tool("add_board_article", "--board", b, "--owner", "bob", "--date", "1/1", "--title", fmt.Sprintf("t%d", g.Uniq()), "--content", g.Text(10, true)),
		g.tool("show_board_article_list", "--board", b), g.tool("show_board_article", "--board", b, "--filename", "$last"), g.tool("show_board_list"))
	g.Schedule(false)
	g.FaultMix(0.2, 0.35, 0.15)
	if g.Chance(0.2) {
		g.clockTrouble()
	}
}

// toolArgs are the arguments behind the subcommand.
func toolArgs(e *Event) (sub string, m map[string]string) {
	m = map[string]string{}
	a := e.Op.S[1:]
	for i := 1; i+1 < len(a); i += 2 {
		m[strings.TrimPrefix(a[i], "--")] = a[i+1]
	}
	return a[0], m
}

// toolBody is what a run printed behind the lines which every run prints.
func toolBody(e *Event) string {
	h := "args: " + fmt.Sprint(e.Op.S[1:]) + "\n"
	if i := strings.Index(e.Res.S, h); i >= 0 {
		return e.Res.S[i+len(h):]
	}
	s := e.Res.S
	for _, p := range []string{"driver name:", "bbshome:", "args:"} {
		if strings.HasPrefix(s, p) {
			_, s, _ = strings.Cut(s, "\n")
		}
	}
	return s
}

var logLine = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// saidElsewhere says whether a run reported a failure by its exit status or on
// the standard error output, where what the library logs does not count.
func saidElsewhere(e *Event) bool {
	if e.Done && len(e.Res.N) == 1 && e.Res.N[0] != 0 {
		return true
	}
	for _, l := range lines(string(e.Res.Raw)) {
		if strings.TrimSpace(l) != "" && !logLine.MatchString(l) {
			return true
		}
	}
	return false
}

// sameText compares stored bytes with text that Big5 may not have everywhere.
func sameText(stored, text string) bool {
	for i, part := range strings.Split(text, "😀") {
		if i > 0 { // whatever stands for it
			j := strings.Index(stored, toBig(part))
			if part == "" {
				j = len(stored)
			}
			if j < 0 || j > 4 {
				return false
			}
			stored = stored[j:]
		}
		b := toBig(part)
		if !strings.HasPrefix(stored, b) {
			return false
		}
		stored = stored[len(b):]
	}
	return stored == ""
}

// plainBig says whether the reference can decode all of s.
func plainBig(s string) bool { return !strings.Contains(fromBig(s), "\ufffd") }

func asciiOf(s string) string {
	return strings.Map(func(r rune) rune {
		if r > 126 {
			return -1
		}
		return r
	}, s)
}

type post struct {
	e       *Event // when the record was added
	from    int    // when the call, or the first of the calls, began
	board   string
	owner   string
	date    string
	title   string
	content string
	big     bool   // content is in Big5 already
	name    string // as it was reported
	done    bool   // everything succeeded
	ended   int    // when the content was written
	maybe   bool   // something may be left of it
}

func (p *post) has(s string) bool {
	if p.big {
		return s == p.content
	}
	return sameText(s, p.content)
}

func (p *post) begins(s string) bool {
	if p.big {
		return strings.HasPrefix(p.content, s)
	}
	b := toBig(strings.SplitN(p.content, "😀", 2)[0])
	return strings.HasPrefix(b, s) || strings.HasPrefix(s, b)
}

func checkC16(c *Ctx) {
	if !c.allReturned() {
		return
	}
	fin := c.W.K.Walk()
	finV := view{c.Home, fin}
	posts := map[string][]*post{}
	reads := map[string][]*Event{}
	var adds, lists []*Event
	dead := func(e *Event) bool { return !e.Done }
	var shows []*Event
	lib := map[int]*post{}
	for _, e := range c.Ev {
		bad := func(class, f string, x ...interface{}) {
			c.W.Violate(class, "%s: %s; it printed %s", e, fmt.Sprintf(f, x...), clip(toolBody(e)))
		}
		if e.Op.K != "!tool" {
			if strings.HasPrefix(e.Res.Err, "harness:") {
				continue
			}
			if !c.noSpurious(e) {
				return
			}
			p := lib[e.Task]
			switch e.Op.K {
			case "create":
				p = &post{board: e.Op.S[1], owner: e.Op.S[2], date: e.Op.S[3], title: e.Op.S[4], from: e.Inv, name: e.Res.S, big: true}
				lib[e.Task] = p
				posts[p.board] = append(posts[p.board], p)
				p.e = e // until there is a better one
				p.maybe = !e.OK()
			case "addlast":
				if p.name == "" || !e.Done && p.maybe {
					continue
				}
				p.e = e
				if !e.OK() {
					p.maybe = true
				}
			case "writelast":
				if p.name == "" || p.maybe {
					if !p.maybe {
						continue
					}
				}
				p.content = string(e.Op.B)
				if e.OK() {
					p.done, p.ended = !p.maybe, e.Ret
					if p.maybe { // the record failed, the text is there
						p.ended = e.Ret
					}
				} else {
					p.maybe = true
				}
			}
			continue
		}
		body := toolBody(e)
		sub, m := toolArgs(e)
		must := e.Op.I[0] == 1
		if e.Done && strings.TrimSpace(body) == "" && must && sub != "show_board_article_list" && !saidElsewhere(e) {
			bad("silent", "it cannot have worked and said nothing")
			return
		}
		switch sub {
		case "add_board_article":
			name := ""
			if i := strings.LastIndex("\n"+body, "\nnew filename: "); i >= 0 {
				name = strings.TrimSpace(("\n" + body)[i+len("\nnew filename: "):])
			}
			if must {
				if name != "" {
					bad("false-success", "it cannot have worked")
					return
				}
				continue
			}
			if e.Done && name == "" && e.Hard == 0 {
				bad("spurious-error", "it failed although nothing went wrong")
				return
			}
			p := &post{e: e, from: e.Inv, board: m["board"], owner: m["owner"], date: m["date"], title: m["title"], content: m["content"], name: name, done: e.Done && name != "", ended: e.Ret, maybe: !e.Done || name == ""}
			if f, ok := m["content_file"]; ok && !given(m, "content") {
				p.content = c.Init[f]
			}
			posts[p.board] = append(posts[p.board], p)
			if p.done {
				c.Hit("posted by the tool")
			} else if e.Done {
				c.Hit("the tool reported a failure")
			}
		case "show_board_article_list":
			if dead(e) || must {
				continue
			}
			reads[m["board"]] = append(reads[m["board"]], e)
		case "add_board":
			if must && e.Done && !strings.Contains(body, "addboard: ") && !saidElsewhere(e) {
				bad("false-success", "it cannot have worked")
				return
			}
			if must {
				continue
			}
			x := *e
			x.Op = &simrt.Op{K: "addboard", S: []string{"", m["board_id"], m["title"]}}
			if e.Done && (strings.Contains("\n"+body, "\naddboard: ") || saidElsewhere(e)) {
				x.Res.Err = "the tool reported an error"
				if e.Hard == 0 {
					bad("spurious-error", "it failed although nothing went wrong")
					return
				}
			}
			adds = append(adds, &x)
		case "show_board_list":
			if !must && e.Done {
				lists = append(lists, e)
			}
		default:
			if e.Done {
				shows = append(shows, e)
			}
		}
	}
	boards := map[string]bool{}
	for b := range posts {
		boards[b] = true
	}
	for b := range reads {
		boards[b] = true
	}
	owner := map[string]*post{} // board/file -> post
	for _, b := range sorted(boards) {
		if !c.checkPosts(b, posts[b], reads[b], fin, owner) {
			return
		}
	}
	c.checkBoards(adds, lists)
	if c.W.Fail != nil {
		return
	}
	for _, e := range shows {
		c.checkShow(e, owner, finV)
		if c.W.Fail != nil {
			return
		}
	}
}

func articleLine(r string) simapi.Rec {
	a := decArticle(r)
	if a.File == "" {
		return simapi.Rec{Kind: "deleted"}
	}
	return simapi.Rec{Kind: "line", Title: fmt.Sprintf("%s % 12s %s %s", a.File, a.Owner, a.Date, a.Title)}
}

func firstWord(s string) string { w, _, _ := strings.Cut(s, " "); return w }

func (c *Ctx) checkPosts(b string, posts []*post, reads []*Event, fin map[string]string, owner map[string]*post) bool {
	dir := c.path(boardDir(b)) + "/"
	raw := fin[dir+".DIR"]
	init := c.Init[dir+".DIR"]
	dec := func(s string) (r []simapi.Rec) {
		for _, x := range split(s, 128) {
			r = append(r, articleLine(x))
		}
		return
	}
	byEvent := map[*Event]*post{}
	log := &appendLog{what: "the article list of board " + b, size: 128, initial: init, final: raw, dec: dec,
		key:   func(e *Event) string { return firstWord(byEvent[e].title) },
		keyOf: func(r string) string { return firstWord(decArticle(r).Title) },
		match: func(e *Event, r string) string {
			p := byEvent[e]
			a := decArticle(r)
			if a.Owner != p.owner || a.Date != p.date || !sameText(toBig(a.Title), p.title) || a.Recommend != 0 || a.Multi != 0 || a.Mode != 0 {
				x := a.rec()
				return "stored is " + show(x)
			}
			if !p.maybe && p.name != "" && a.File != p.name {
				return "the name reported was " + p.name
			}
			return ""
		}}
	for _, p := range posts {
		x := *p.e
		x.Inv = p.from
		if p.maybe || p.e.Op.K == "create" {
			x.Done = false // it may be there or not
		}
		byEvent[&x] = p
		log.appends = append(log.appends, &x)
	}
	n0 := split(init, 128)
	for _, e := range reads {
		x := *e
		x.Res.Recs = nil
		body := toolBody(e)
		l := lines(body)
		for i := 0; ; {
			if n := len(x.Res.Recs); n < len(n0) && decArticle(n0[n]).File == "" {
				x.Res.Recs = append(x.Res.Recs, simapi.Rec{Kind: "deleted"})
				continue
			}
			if i == len(l) {
				break
			}
			x.Res.Recs = append(x.Res.Recs, simapi.Rec{Kind: "line", Title: l[i]})
			i++
		}
		if e.Hard > 0 && (len(l) == 1 && !nameRE.MatchString(firstWord(l[0])) || saidElsewhere(e)) {
			c.Hit("a list could not be shown")
			continue // it could not be read, and that was said
		}
		log.reads = append(log.reads, &x)
	}
	log.check(c)
	if c.W.Fail != nil {
		return false
	}
	// Names are unique and every listed article has its text.
	byKey := map[string]*post{}
	for _, p := range posts {
		byKey[firstWord(p.title)] = p
	}
	used := map[string]bool{}
	for i, r := range split(raw, 128) {
		a := decArticle(r)
		if a.File == "" {
			continue
		}
		if used[a.File] && i >= len(n0) {
			c.W.Violate("name-twice", "the name %s is in the list of board %s twice", a.File, b)
			return false
		}
		used[a.File] = true
		if i < len(n0) {
			continue
		}
		p := byKey[firstWord(a.Title)]
		owner[b+"/"+a.File] = p
		s, ok := fin[dir+a.File]
		_, old := c.Init[dir+a.File]
		switch {
		case old:
			c.W.Violate("existing-name", "%s got the name %s of an article that was already there", p.e, a.File)
			return false
		case !ok:
			c.W.Violate("listed-without-file", "%s: record %d of the list of board %s names %s, which does not exist", p.e, i, b, a.File)
			return false
		case p.done && !p.has(s):
			c.W.Violate("wrong-text", "%s reported success, but %s of board %s holds %s instead of %s", p.e, a.File, b, clip(s), clip(p.content))
			return false
		case s != "" && !p.begins(s):
			c.W.Violate("wrong-text", "%s: %s of board %s holds %s, which is not a beginning of %s", p.e, a.File, b, clip(s), clip(p.content))
			return false
		}
	}
	for _, p := range posts {
		if p.name != "" && !p.maybe && p.e.Op.K != "create" && !used[p.name] {
			c.W.Violate("not-listed", "%s reported the name %s, which is not in the list of board %s", p.e, p.name, b)
			return false
		}
	}
	// What else is in the directory comes from posts that failed.
	spare := 0
	for _, p := range posts {
		if p.maybe || !p.done {
			spare++
		}
	}
	for _, f := range keys(fin) {
		if !strings.HasPrefix(f, dir) || f == dir+".DIR" {
			continue
		}
		if s, ok := c.Init[f]; ok {
			if fin[f] != s {
				c.W.Violate("changed-other", "the file %s, which nobody named, changed to %s", c.rel(f), clip(fin[f]))
				return false
			}
			continue
		}
		name := strings.TrimPrefix(f, dir)
		if used[name] {
			continue
		}
		if spare--; spare < 0 {
			c.W.Violate("left-behind", "%s belongs to no post that failed or was cut short", c.rel(f))
			return false
		}
		ok := fin[f] == ""
		for _, p := range posts {
			ok = ok || p.name == name && p.maybe && p.begins(fin[f])
		}
		if !ok {
			c.W.Violate("left-behind", "%s is not listed, but holds %s", c.rel(f), clip(fin[f]))
			return false
		}
	}
	return true
}

func (c *Ctx) checkBoards(adds, lists []*Event) {
	p := c.path("@/.BRD")
	log := &appendLog{what: "the list of boards", size: 256, initial: c.Init[p], final: c.file("@/.BRD"), appends: adds}
	log.dec = func(raw string) (r []simapi.Rec) {
		for _, s := range split(raw, 256) {
			r = append(r, simapi.Rec{Kind: "line", Title: "title: " + decBoard(s).Title})
		}
		return
	}
	log.key = func(e *Event) string { return e.Op.S[1] }
	log.keyOf = func(r string) string { return fromBig(cstr(r[:13])) }
	log.match = func(e *Event, r string) string {
		if x := decBoard(r); x.Title != e.Op.S[2] {
			return "the title is wrong"
		}
		return ""
	}
	for _, e := range lists {
		x := *e
		x.Res.Recs = nil
		l := lines(toolBody(e))
		if e.Hard > 0 && (len(l) == 1 && !strings.HasPrefix(l[0], "title: ") || saidElsewhere(e)) {
			continue
		}
		for _, s := range l {
			x.Res.Recs = append(x.Res.Recs, simapi.Rec{Kind: "line", Title: s})
		}
		log.reads = append(log.reads, &x)
	}
	log.check(c)
}

// checkShow judges the other things the tool shows.
func (c *Ctx) checkShow(e *Event, owner map[string]*post, fin view) {
	body := toolBody(e)
	sub, m := toolArgs(e)
	bad := func(class, f string, x ...interface{}) {
		c.W.Violate(class, "%s: %s; it printed %s", e, fmt.Sprintf(f, x...), clip(body))
	}
	must := e.Op.I[0] == 1
	var pre string
	var lo, hi []simapi.Rec
	okLo, okHi := true, true
	line := func(r simapi.Rec) string { return "" }
	switch sub {
	case "show_board_article":
		s, ok := strings.CutPrefix(body, "filecontent: \n")
		if must {
			if ok {
				bad("false-success", "it cannot have worked")
			}
			return
		}
		f, b := m["filename"], m["board"]
		rel := bpath(b, f)
		old, had := view{c.Home, c.Init}.get(rel)
		p := owner[b+"/"+f]
		_, exists := fin.get(rel)
		if !ok {
			if e.Hard == 0 && (had || exists && p != nil && p.done && p.ended < e.Inv) {
				bad("spurious-error", "it failed although nothing went wrong")
			}
			return
		}
		if !exists {
			bad("false-success", "there is no article %s", f)
			return
		}
		s = strings.TrimSuffix(s, "\n")
		fits := func(p *post) bool {
			if p.big {
				return s == fromBig(p.content)
			}
			return sameText(toBig(s), p.content)
		}
		switch {
		case had:
			if s != fromBig(old) && (plainBig(old) || asciiOf(s) != asciiOf(fromBig(old))) {
				bad("wrong-text", "the article holds %s", clip(fromBig(old)))
			}
		case p == nil:
			if x, _ := fin.get(rel); s != "" && s != fromBig(x) {
				bad("wrong-text", "nothing was written to %s", f)
			}
		case p.done && p.ended < e.Inv:
			if !fits(p) {
				bad("wrong-text", "%s had written %s", p.e, clip(p.content))
			}
		case p.maybe:
			if s != "" && !p.begins(toBig(s)) && !strings.ContainsRune(s, 0xfffd) {
				bad("wrong-text", "%s was writing %s", p.e, clip(p.content))
			}
		default:
			if s != "" && !fits(p) {
				bad("wrong-text", "%s was writing %s", p.e, clip(p.content))
			} else {
				c.Hit("shown while it was posted")
			}
		}
		return
	case "show_user_list":
		pre = "user id: "
		for _, u := range decUsers(c.Init[c.path("@/.PASSWDS")]) {
			if u.ID != "" {
				hi = append(hi, u)
			}
		}
		lo = hi
		line = func(r simapi.Rec) string { return pre + r.ID }
	case "show_user_article_list", "show_user_comment_list":
		k := "uarts"
		pre = "titlex: "
		line = func(r simapi.Rec) string { return pre + r.Title }
		if sub == "show_user_comment_list" {
			k, pre = "ucoms", "user comment record: "
			line = func(r simapi.Rec) string {
				return fmt.Sprintf("%sorder: %d, owner: %s, time: %s", pre, r.N[0], r.Owner, time.Unix(r.N[1], 0).UTC().Format("01/02 15:04"))
			}
		}
		if must {
			break
		}
		o := op(k, c.Home, m["user_id"])
		var x, y simapi.Res
		x, okLo = view{c.Home, e.Before}.answer(&o)
		y, okHi = fin.answer(&o)
		lo, hi = x.Recs, y.Recs
	}
	l := lines(body)
	failed := len(l) == 1 && !strings.HasPrefix(l[0], pre) || pre == "" || saidElsewhere(e)
	if must {
		if !failed {
			bad("false-success", "it cannot have worked")
		}
		return
	}
	if failed {
		if e.Hard == 0 && okLo && okHi {
			bad("spurious-error", "it failed although nothing went wrong")
		}
		return
	}
	j := 0
	for i, s := range l {
		for j < len(hi) && line(hi[j]) != s {
			j++
		}
		if j == len(hi) {
			bad("invented", "line %d, %q, is not, or not there, in %s", i, s, shows(hi))
			return
		}
		j++
	}
	j = 0
	for _, r := range lo {
		for j < len(l) && l[j] != line(r) {
			j++
		}
		if j == len(l) {
			bad("missing", "%s, which was stored when it began, is not shown", show(r))
			return
		}
		j++
	}
}

func given(m map[string]string, k string) bool { _, ok := m[k]; return ok }
