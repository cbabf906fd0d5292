package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"simapi"
	"simrt"
)

// passwords and their DES crypt hashes, made with the C library.
var passwords = [][2]string{
	{"12345678", "UhIKmXYOQA.vM"},
	{"12345678", "1vHTA4AXpwC.A"},
	{"12345678", "T4q8Vz0WtoVNk"},
	{"secret", "ICDrS.E2JSE/Y"},
	{"secret", "jwWzs/uxtixFk"},
	{"secret", "TkCCigucTuvLw"},
	{"hunter22", "BT.S1/GTZgWvU"},
	{"hunter22", "/PsU39eMaMQ0."},
	{"hunter22", "oXt9rzLkfkDB2"},
	{"a", "LlzjZjcvC4Ma."},
	{"a", "I7KAe7DeSZYYQ"},
	{"a", "FsW2TIcuyBQCw"},
	{"pass wor", "EEL0XJ7lagNH2"},
	{"pass wor", "..ippiV1qfy9Y"},
	{"pass wor", "OPp7ZFwrTyrLg"},
	{"Zz9!$%&/", "JJdeLR4KcZjGY"},
	{"Zz9!$%&/", "ZcME.O8WLI3FM"},
	{"Zz9!$%&/", "NO4nYMHIHWMvo"},
	{"0", "LN59v8dW8.SfY"},
	{"0", "laAz8jK3y0hOk"},
	{"0", "0ipid.os2jPeo"},
	{"longpas1", "pJ2FMAFzLPwP2"},
	{"longpas1", "GVhnhuR937tIk"},
	{"longpas1", "6efglFjZPYVXA"},
	{"abcdefg", "UhLrnO0NlMKtg"},
	{"abcdefg", "1vK/4dyiAJnHE"},
	{"1", "T49p7PvskRSzc"},
	{"1", "ICOH9MnXPxvM2"},
	{"~", "jw1zEf1tsNEo2"},
	{"~", "TklHZ9HqASTM6"},
	{"\u00e9", "BTXozC.3NePyM"},
	{"\u00e9", "/PJVJyeSLyECE"},
	{"\u5bc6\u78bc", "oXRqG8yq0r68A"},
	{"\u5bc6\u78bc", "LlrvrgqHZsiW."},
	{"\u6e2c\u8a66\u770b\u677f", "I7HQcDHTiERwM"},
	{"\u6e2c\u8a66\u770b\u677f", "Fsmdj2SMF0xuw"},
	{"passw\u00f6rd", "EEl6ByQt/I91g"},
	{"passw\u00f6rd", "..nKkw9GmhncY"},
	{"        ", "OPvZxZTBhAzj2"},
	{"        ", "JJYP8Ei6W1v.c"},
	{" x", "ZcPJnnHvrI.Ls"},
	{" x", "NOlGD82tyJVmQ"},
	{"tab\there", "LNkr4AecOu5IY"},
	{"tab\there", "laoCnDXfnM.lY"},
	{"!@#$%^&*", "0iAvqvUkajAGw"},
	{"!@#$%^&*", "pJpv/jLA4ZZh2"},
	{"AAAAAAAA", "GVrO15RDNB7WI"},
	{"AAAAAAAA", "6ew9.WNCv0Nf2"},
	{"zzzzzzzz", "a.KzRyCaCRDRU"},
	{"zzzzzzzz", "f6N745neUJXEg"},
	{"0123456", "bhe3W7.sB.2ek"},
	{"0123456", "bxoGPU/bbQ/Y2"},
	{"xxxxxxx", "cLtZxbrygwvxg"},
	{"xxxxxxx", "xwSZGJPErXrdo"},
	{"Pichu520", "K5u2omksiXKOA"},
	{"Pichu520", "U0NrrcJDYmpCI"},
	{"%41%42", "hnYgabW.TlM.U"},
	{"%41%42", "0pCtIJQuFuWlU"},
	{"a+b=c&d", "ikVDPayCv/his"},
	{"a+b=c&d", "/tBLdEtJZeRpE"},
	{"\"quoted\"", "3LN3uYOh8XjNs"},
	{"\"quoted\"", "NDrN3gsG0VxIM"},
	{"\\back\\\\", "TvWOnur92jFH."},
	{"\\back\\\\", "ghMKhC8ZbJNVA"},
	{"\x7f\x7f", "Uvk3mlyUSTNdc"},
	{"\x7f\x7f", "BjLUcuPKvMFSE"},
	{"\u00ff\u00ff\u00ff\u00ff", "Z2OxEc8DCGFjg"},
	{"\u00ff\u00ff\u00ff\u00ff", "r9rxVtQmba/7A"},
}

func short8(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

// verified says whether a password fits a stored hash.
func verified(hash, pw string) bool {
	for _, p := range passwords {
		if p[1] == hash {
			return short8(p[0]) == short8(pw)
		}
	}
	return false
}

// Pop is a populated BBS home.
type Pop struct {
	h      string
	boards []string // with a directory
	listed []string // in the board list, in order
	arts   map[string][]string
	idx    map[string]int
	users  []string
	man    map[string][][]string // board -> treasure directories
}

func (p *Pop) board(b string) string { return p.h + "/boards/" + b[:1] + "/" + b }
func (p *Pop) user(u string) string  { return p.h + "/home/" + u[:1] + "/" + u }

// body is the text of an article with some comments.
func (g *Gen) body(max int) string {
	var sb strings.Builder
	if g.Chance(0.003) { // very many
		n := g.Range(250, 300)
		if g.Chance(0.1) {
			n = g.Range(1001, 1100)
		}
		for ; n > 0; n-- {
			sb.WriteString(g.stampedComment())
		}
	}
	for n := g.N(max + 1); n > 0; n-- {
		switch g.N(7) {
		case 0, 1, 2:
			x := g.stampedComment()
			sb.WriteString(x)
			for g.Chance(0.12) { // the same once more
				sb.WriteString(x)
			}
		case 3:
			sb.WriteString("\x1b[1;32m" + toBig(g.Text(g.Range(0, 30), true)) + "\x1b[m\n")
		case 4:
			sb.WriteString(g.Text(g.Range(0, 200), false) + "\n")
		case 5:
			sb.WriteString("\r\n")
		default:
			if g.Chance(0.1) {
				n := g.Range(6600, 7000)
				switch x := g.N(800); {
				case x < 2:
					n = g.Range(104900, 110000)
				case x < 20:
					n = g.Range(26300, 27000)
				}
				sb.WriteString(strings.Repeat("long line ", n) + "\n")
			} else {
				sb.WriteString("-- \n")
			}
		}
	}
	if g.Chance(0.1) {
		sb.WriteString("no end of line")
	}
	return sb.String()
}

func (g *Gen) stampedComment() string {
	stamp := fmt.Sprintf("%02d/%02d %02d:%02d", g.Range(1, 12), g.Range(1, 28), g.N(24), g.N(60))
	text := fmt.Sprintf("c%d %s", g.Uniq(), strings.TrimSpace(toBig(g.Text(g.Range(0, 30), g.Chance(0.3)))))
	if g.Chance(0.15) { // colons and times within
		text += g.Pick(": x", " http://a.b/c", ":", "::", " : ", " 12:30", " "+stamp, " "+stamp+" yes", " 01/02 03:04", " bob: yes", " re:re: a")
	}
	if g.Chance(0.03) { // no such time
		stamp = g.Pick("13/01 00:00", "02/30 10:10", "99/99 99:99", "00/00 00:00", "05/15 24:00")
	}
	who := g.Pick("alice", "bob", "carol1")
	if g.Chance(0.12) { // other ways to write one
		return g.Pick("", "\xb1\xc0 ", "\x1b[1;37m\xb1\xc0 \x1b[33m", "-> ", "  ") + who + g.Pick(":", "\x1b[m:", ":\x1b[33m", ":  ") + text + g.Pick(" ", "\x1b[m", "   \x1b[m ") + stamp + g.Pick("\n", " \n", "\r\n", "\x1b[m\n")
	}
	return commentLine(who, text, stamp)
}

func (g *Gen) favTree(depth, boards int) []FavItem {
	var l []FavItem
	n := g.N(5)
	if depth == 0 || g.Chance(0.3) {
		n = g.Many(n)
	}
	deep := 4
	if g.Chance(0.1) {
		deep = 12
	}
	for ; n > 0; n-- {
		switch {
		case g.Chance(0.55):
			l = append(l, FavItem{Kind: 1, Bid: uint32(g.PickI(0, 1, 2, 3, int64(boards), int64(boards+1), int64(boards+2), 1<<31, 1<<32-1))})
		case g.Chance(0.4):
			l = append(l, FavItem{Kind: 3})
		case depth < deep:
			l = append(l, FavItem{Kind: 2, Title: g.Text(g.Range(0, 20), true), Sub: g.favTree(depth+1, boards)})
		}
	}
	return l
}

func (g *Gen) loginsBad(home bool, n int) string {
	var sb strings.Builder
	for ; n > 0; n-- {
		t := time.Unix(int64(1500000000+g.N(1e8)), 0).UTC().Format("01/02/2006 15:04:05 Mon")
		if home {
			fmt.Fprintf(&sb, "%s%-12s[%s] ?@%d.0.0.%d\n", g.Pick(" ", "-"), g.Pick("alice", "bob", "Twelve.chars", "SYSOP"), t, g.N(256), g.N(256))
		} else {
			fmt.Fprintf(&sb, "[%s] %d.0.0.%d\n", t, g.N(256), g.N(256))
		}
	}
	return sb.String()
}

func (g *Gen) loginsRecent(n int) string {
	var sb strings.Builder
	for ; n > 0; n-- {
		fmt.Fprintf(&sb, "%s %d.0.0.%d\n", loginTime(int64(1500000000+g.N(1e8))), g.N(256), g.N(256))
	}
	return sb.String()
}

func (g *Gen) users(ids []string) string {
	var sb strings.Builder
	for _, id := range ids {
		u := &User{ID: id, Real: g.Text(g.Range(0, 18), true), Nick: g.Text(g.Range(0, 22), true), Host: fmt.Sprintf("10.0.%d.%d", g.N(256), g.N(256)), Flag: uint32(g.U64()),
			Days: g.U32(1e6), Posts: g.U32(1e6), First: uint32(g.Stamp()), Last: uint32(g.Stamp()), Money: int32(g.U64())}
		switch {
		case g.Chance(0.8):
			u.Pass = passwords[g.N(len(passwords))][1]
		case g.Chance(0.5):
			u.Pass = g.Pick("", "x", "ab", "\xff\xffabcdefghijk", "ab1iBa.N.U2C", "\x80")
		}
		sb.WriteString(u.enc())
	}
	return sb.String()
}

// limitChunk keeps large files from being read a few bytes at a time, which
// takes too many calls.
func (g *Gen) limitChunk() {
	if g.P.Chunk == 0 || g.P.Chunk >= 512 {
		return
	}
	all := 0
	for _, b := range g.P.Files {
		all += len(b)
	}
	for _, t := range g.P.Tasks {
		for _, o := range t.Ops {
			all += len(o.B)
		}
	}
	if int64(all)/g.P.Chunk > 5000 {
		g.P.Chunk = 512
	}
}

// populate makes a home with boards, articles, treasures, users and drafts.
func (g *Gen) populate(h string, small bool) *Pop {
	p := &Pop{h: h, arts: map[string][]string{}, man: map[string][][]string{}, idx: map[string]int{}}
	p.boards = []string{"test", "SYSOP", "b3", "ALLPOST", "t"}[:g.Range(1, 5)]
	if g.Chance(0.5) {
		pool := []string{"ALLPOST", "ALLPOST2", "ALLPOSTS", "allpost", "ALL", "Test", "test", "test2", "tes", "t", "T", "SYSOP", "sysop", "a-b_c.d", "Twelve.chars", "0day", "b3", "b-3", "deleted"}
		p.boards = nil
		for _, i := range g.Perm(len(pool))[:g.Range(1, 5)] {
			p.boards = append(p.boards, pool[i])
		}
	}
	p.listed = append([]string{}, p.boards...)
	if g.Chance(0.15) {
		p.listed = append(p.listed, "") // a deleted board
	}
	if g.Chance(0.06) {
		p.listed = append(p.listed, "nodir")
	}
	if g.Chance(0.3) {
		q := g.Perm(len(p.listed))
		var l []string
		for _, i := range q {
			l = append(l, p.listed[i])
		}
		p.listed = l
	}
	brd := g.boardSeed(p.listed...)
	if g.Chance(0.3) {
		brd = g.holes(brd)
	}
	if g.Chance(0.1) {
		brd += g.boardSeed("torn")[:g.Range(1, 255)]
	}
	if g.Chance(0.95) {
		g.File(h+"/.BRD", brd)
	}
	long := 6
	if small {
		long = 3
	}
	for _, b := range p.boards {
		g.Dir(p.board(b))
		if g.Chance(0.05) {
			continue // nothing was ever posted
		}
		n := g.N(5)
		if g.Chance(0.3) {
			n = g.Many(n)
		}
		raw := g.articleSeed(n)
		if n > 0 && g.Chance(0.07) { // a deleted one
			i := g.N(n) * 128
			r := g.Pick(strings.Repeat("\x00", 128), strings.Repeat("\x00", 28)+raw[i+28:i+128])
			raw = raw[:i] + r + raw[i+128:]
		}
		p.idx[b] = n
		for _, r := range split(raw, 128) {
			f := decArticle(r).File
			if f == "" {
				continue
			}
			if len(p.arts[b]) < 300 && g.Chance(0.97) {
				g.File(p.board(b)+"/"+f, g.body(long))
			}
			p.arts[b] = append(p.arts[b], f)
		}
		if g.Chance(0.1) {
			raw += g.articleSeed(1)[:g.Range(1, 127)]
		}
		g.File(p.board(b)+"/.DIR", raw)
		for n := g.N(2); n > 0; n-- {
			f := fmt.Sprintf("M.14%08d.A.%03X", g.N(1e8), g.N(4096))
			g.File(p.board(b)+"/"+f, g.body(long))
			p.arts[b] = append(p.arts[b], f)
		}
		for n := g.N(3); n > 0; n-- {
			d := [][]string{{}, {"D1"}, {"D1", "D2"}, {"D6C2", "D6D1", "x"}}[g.N(4)]
			m := h + "/man/boards/" + b[:1] + "/" + b + "/" + strings.Join(append(append([]string{}, d...), ""), "/")
			g.File(m+".DIR", g.articleSeed(g.N(4)))
			g.File(m+"M.1.A", g.Text(g.Range(0, 100), true))
			p.man[b] = append(p.man[b], d)
		}
	}
	p.users = []string{"alice", "bob", "carol1", "SYSOP"}[:g.Range(1, 4)]
	if g.Chance(0.3) {
		pool := []string{"alice", "Alice", "ALICE", "alice2", "al", "bob", "a", "A", "carol1", "Twelvechars1", "guest2"}
		p.users = nil
		for _, i := range g.Perm(len(pool))[:g.Range(1, 4)] {
			p.users = append(p.users, pool[i])
		}
	}
	for _, u := range p.users {
		g.Dir(p.user(u))
		if g.Chance(0.7) {
			g.File(p.user(u)+"/.fav", encFav(g.favTree(0, len(p.listed))))
		}
		for _, d := range []string{"0", "1"} {
			if g.Chance(0.4) {
				g.File(p.user(u)+"/buf."+d, g.content("i", 200))
			}
		}
		if g.Chance(0.7) {
			g.File(p.user(u)+"/logins.recent", g.loginsRecent(g.Many(g.N(6))))
			g.File(p.user(u)+"/logins.bad", g.loginsBad(false, g.Many(g.N(6))))
		}
	}
	if g.Chance(0.95) {
		raw := g.users(append([]string{"guest"}, p.users...))
		if g.Chance(0.1) {
			raw += g.users([]string{"torn"})[:g.Range(1, 511)]
		}
		g.File(h+"/.PASSWDS", raw)
	}
	g.File(h+"/logins.bad", g.loginsBad(true, g.Many(g.N(6))))
	if g.Chance(0.5) {
		var sb strings.Builder
		for n := g.N(4); n > 0; n-- {
			sb.WriteString(encFormosa(fmt.Sprintf("M.%d.A", g.N(1e9))+g.Word(g.N(2)*g.N(40)), int32(g.N(1e6)), g.Word(8+g.N(2)*g.N(70)), uint32(g.Stamp()), g.Text(g.Range(0, 60)+g.N(2)*10, true)))
		}
		g.File(h+"/formosa.DIR", sb.String())
		var ui strings.Builder
		for n := g.N(3); n > 0; n-- {
			b := make([]byte, 3484)
			copy(b, g.Bytes(200))
			copy(b[3380:], g.Bytes(104))
			copy(b[g.N(3300):], g.Bytes(40))
			ui.Write(b)
		}
		g.File(h+"/uinfo", ui.String())
	}
	return p
}

// anyOp is one operation on a home, which may also name things that do not exist.
func (g *Gen) anyOp(p *Pop, write bool) simrt.Op {
	b := p.boards[g.N(len(p.boards))]
	u := p.users[g.N(len(p.users))]
	if g.Chance(0.04) {
		b = g.Pick("nosuch", "", "te")
	}
	if g.Chance(0.04) {
		u = g.Pick("nobody", "", "al")
	}
	f := "M.1.A.404"
	if l := p.arts[b]; len(l) > 0 && g.Chance(0.93) {
		f = l[g.N(len(l))]
	}
	var d []string
	if l := p.man[b]; len(l) > 0 && g.Chance(0.93) {
		d = l[g.N(len(l))]
	}
	if write {
		if g.Chance(0.03) {
			return op("misuse", p.h, b, g.Pick("newmap:owner", "newmap:date", "newmap:title", "newmap:board_id", "newboard:board_id", "newboard:title", "article", "board", "update"))
		}
		switch x := g.F(); {
		case x < 0.15:
			o := g.addOp(b)
			o.S[0] = p.h
			return o
		case x < 0.27:
			return opB("append", g.comment(), p.h, b, f)
		case x < 0.39:
			return opB("write", g.content("w", 300), p.h, b, f)
		case x < 0.47:
			return op("create", p.h, b, g.Pick("alice", "bob"), "12/31", g.Text(10, true))
		case x < 0.51:
			return op("newmap", p.h, b, g.Pick("alice", "bob"), "12/31", g.Text(10, true))
		case x < 0.55:
			return op("name", p.h, b)
		case x < 0.60:
			return op("addlast", p.h, b)
		case x < 0.64:
			return opB("writelast", g.content("l", 300), p.h, b)
		case x < 0.74:
			i := int64(g.Range(0, p.idx[b]))
			fld := g.Pick("title", "owner", "date", "recommend", "modified")
			v := map[string]string{"title": g.Text(g.Range(0, 50), true), "owner": g.Word(g.Range(2, 12)), "date": "12/01"}[fld]
			return opI("update", []int64{i, int64(g.Range(-100, 100))}, p.h, b, fld, v)
		case x < 0.82:
			o := g.addBoardOp()
			o.S[0] = p.h
			return o
		case x < 0.86:
			return opI("rmboard", []int64{int64(g.Range(-1, len(p.listed)))}, p.h)
		case x < 0.95:
			return opB("draftw", g.content("d", 200), p.h, u, g.Pick("0", "1"))
		default:
			return op("draftd", p.h, u, g.Pick("0", "1"))
		}
	}
	switch g.N(19) {
	case 0, 1:
		return op("list", p.h, b)
	case 2:
		return op("tlist", append([]string{p.h, b}, d...)...)
	case 3, 4:
		return op("read", p.h, b, f)
	case 5:
		return op("tread", append([]string{p.h, b, "M.1.A"}, d...)...)
	case 6:
		return op("boards", p.h)
	case 7:
		return op("users", p.h)
	case 8:
		return op("verify", p.h, u, passwords[g.N(len(passwords))][0]+g.Pick("", "x"))
	case 9:
		return op("favs", p.h, u)
	case 10:
		return op("uarts", p.h, g.Pick("alice", "bob", "carol1", "nobody"))
	case 11:
		return op("ucoms", p.h, g.Pick("alice", "bob", "carol1", "nobody"))
	case 12:
		return op("bcoms", p.h, b, g.Pick("alice", "bob", "carol1", "nobody"))
	case 13:
		return op("acoms", p.h, b, f)
	case 14:
		return op("draftr", p.h, u, g.Pick("0", "1"))
	case 15:
		if g.Chance(0.5) || u == "" {
			return op("badlogins", p.h+"/logins.bad")
		}
		return op("badlogins", p.user(u)+"/logins.bad")
	case 16:
		if u == "" {
			u = "alice"
		}
		return op("recent", p.user(u)+"/logins.recent")
	case 17:
		return op("formosa", p.h+"/formosa.DIR")
	default:
		return op("uinfo", p.h+"/uinfo")
	}
}

// ---- the reference ----

// view is the storage of one home at one time.
type view struct {
	h string
	m map[string]string
}

func (v view) get(p string) (string, bool) { s, ok := v.m[v.h+"/"+p]; return s, ok }

func (v view) old(p string) string {
	if s, ok := v.get(p); ok {
		return s
	}
	return absent
}

func bpath(b, f string) string { return "boards/" + b[:1] + "/" + b + "/" + f }
func upath(u, f string) string { return "home/" + u[:1] + "/" + u + "/" + f }
func mpath(b string, d []string, f string) string {
	return "man/boards/" + b[:1] + "/" + b + "/" + strings.Join(append(append([]string{}, d...), ""), "/") + f
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*[a-zA-Z]")

// commentsOf finds the comments in the text of an article.
func commentsOf(board, file, text string) (r []simapi.Rec) {
	n := int64(0)
	for _, l := range strings.Split(text, "\n") {
		l = ansiRE.ReplaceAllString(strings.TrimSuffix(l, "\r"), "")
		m := commentRE.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		t, err := time.Parse("01/02 15:04", m[2])
		if err != nil {
			continue
		}
		n++
		s := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(m[0], m[1]+":"), m[2]))
		r = append(r, simapi.Rec{Kind: "comment", ID: file, Owner: m[1], Title: s, S: []string{board, ""}, N: []int64{n, t.Unix()}})
	}
	return
}

// answer is what a query must return in view v; ok is false when it must fail.
func (v view) answer(o *simrt.Op) (res simapi.Res, ok bool) {
	S := o.S
	recs := func(p string, dec func(string) []simapi.Rec) (simapi.Res, bool) {
		s, ok := v.get(p)
		return simapi.Res{Recs: dec(s)}, ok
	}
	raw := func(p string) (simapi.Res, bool) {
		s, ok := v.get(p)
		return simapi.Res{Raw: []byte(s)}, ok
	}
	switch o.K {
	case "list", "tlist", "read", "tread", "bcoms", "acoms":
		if S[1] == "" {
			return res, false
		}
	case "favs", "draftr":
		if S[1] == "" {
			return res, false
		}
	}
	switch o.K {
	case "list": // nothing was ever posted: an empty list
		s, _ := v.get(bpath(S[1], ".DIR"))
		return simapi.Res{Recs: decArticles(s)}, true
	case "tlist":
		return recs(mpath(S[1], S[2:], ".DIR"), decArticles)
	case "read":
		return raw(bpath(S[1], S[2]))
	case "tread":
		return raw(mpath(S[1], S[3:], S[2]))
	case "boards":
		return recs(".BRD", decBoards)
	case "users":
		return recs(".PASSWDS", decUsers)
	case "verify":
		s, ok := v.get(".PASSWDS")
		for _, u := range decUsers(s) {
			if u.ID == S[1] {
				if verified(u.S[3], S[2]) {
					return simapi.Res{S: "yes"}, ok
				}
				return simapi.Res{S: "no"}, ok
			}
		}
		return simapi.Res{S: "unknown"}, ok
	case "favs":
		s, has := v.get(upath(S[1], ".fav"))
		if !has {
			return res, true
		}
		l, good := decFav(s)
		b, has := v.get(".BRD")
		return simapi.Res{Recs: favRecs(l, decBoards(b))}, good && has
	case "draftr":
		s, _ := v.get(upath(S[1], "buf."+S[2]))
		return simapi.Res{Raw: []byte(s)}, true
	case "acoms":
		s, ok := v.get(bpath(S[1], S[2]))
		return simapi.Res{Recs: commentsOf(S[1], S[2], s)}, ok
	case "bcoms":
		return v.boardComments(S[1], S[2])
	case "uarts", "ucoms":
		s, ok := v.get(".BRD")
		if !ok {
			return res, false
		}
		for _, b := range decBoards(s) {
			if b.ID == "ALLPOST" || b.ID == "" {
				continue
			}
			if o.K == "ucoms" {
				r, ok := v.boardComments(b.ID, S[1])
				if !ok {
					return res, false
				}
				res.Recs = append(res.Recs, r.Recs...)
				continue
			}
			s, _ := v.get(bpath(b.ID, ".DIR"))
			for _, a := range decArticles(s) {
				if a.Owner == S[1] {
					res.Recs = append(res.Recs, simapi.Rec{Kind: "userarticle", ID: a.ID, Owner: a.Owner, Title: a.Title, S: []string{b.ID}})
				}
			}
		}
		return res, true
	case "badlogins", "recent", "formosa", "uinfo":
		s, ok := v.m[S[0]]
		if !ok {
			return res, false
		}
		switch o.K {
		case "badlogins":
			res.Recs = decBadLogins(s)
		case "recent":
			res.Recs = decRecent(s)
		case "formosa":
			for _, r := range split(s, 248) {
				res.Recs = append(res.Recs, simapi.Rec{Kind: "formosa", ID: cut0(r[:44]), Owner: cut0(r[80:152]), Title: fromBig(cut0(r[160:227])), N: []int64{int64(u32(r, 152)), int64(int32(u32(r, 72)))}})
			}
		case "uinfo":
			for _, r := range split(s, 3484) {
				res.Recs = append(res.Recs, decUserInfo(r))
			}
		}
		return res, true
	}
	panic("no reference for " + o.K)
}

func lines(s string) (r []string) {
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if s != "" {
			r = append(r, strings.TrimSuffix(l, "\r"))
		}
	}
	return
}

func decBadLogins(s string) (r []simapi.Rec) {
	for _, l := range lines(s) {
		x := simapi.Rec{Kind: "badlogin", N: []int64{0, 0}}
		if l[0] != '[' {
			if l[0] == ' ' {
				x.N[1] = 1
			}
			x.ID = strings.TrimSpace(l[1:13])
			l = l[13:]
		}
		t, _ := time.Parse("01/02/2006 15:04:05", l[1:20])
		x.N[0] = t.Unix()
		x.Owner = strings.TrimPrefix(l[26:], "?@")
		r = append(r, x)
	}
	return
}

func decRecent(s string) (r []simapi.Rec) {
	for _, l := range lines(s) {
		t, _ := time.Parse("01/02/2006 15:04:05", l[:19])
		r = append(r, simapi.Rec{Kind: "recent", Owner: l[20:], N: []int64{t.Unix()}})
	}
	return
}

func (v view) boardComments(b, u string) (res simapi.Res, ok bool) {
	s, _ := v.get(bpath(b, ".DIR"))
	for _, a := range decArticles(s) {
		t, ok := v.get(bpath(b, a.ID))
		if !ok || a.ID == "" {
			continue // deleted
		}
		for _, x := range commentsOf(b, a.ID, t) {
			if x.Owner == u {
				res.Recs = append(res.Recs, x)
			}
		}
	}
	return res, true
}

func isQuery(k string) bool {
	switch k {
	case "list", "tlist", "read", "tread", "bcoms", "acoms", "boards", "users", "verify", "favs", "draftr", "uarts", "ucoms", "badlogins", "recent", "formosa", "uinfo":
		return true
	}
	return false
}

// homeOf is the home an operation is about.
func homeOf(o *simrt.Op) string {
	h := o.S[0]
	for _, s := range []string{"/home/", "/logins.", "/formosa", "/uinfo"} {
		if i := strings.LastIndex(h, s); i > 4 {
			h = h[:i]
		}
	}
	return h
}

// sameAnswer compares an answer with the reference ("" when equal).
func sameAnswer(o *simrt.Op, got, want *simapi.Res) string {
	switch {
	case o.K == "uinfo":
		if len(got.Recs) != len(want.Recs) {
			return fmt.Sprintf("%d records instead of %d", len(got.Recs), len(want.Recs))
		}
		for i, g := range got.Recs {
			if why := sameInfo(g, want.Recs[i]); why != "" {
				return fmt.Sprintf("record %d: %s", i, why)
			}
		}
		return ""
	case string(got.Raw) != string(want.Raw):
		return fmt.Sprintf("%s instead of %s", clip(string(got.Raw)), clip(string(want.Raw)))
	case got.S != want.S:
		return fmt.Sprintf("%q instead of %q", got.S, want.S)
	case !sameRecs(got.Recs, want.Recs):
		return firstDiff(got.Recs, want.Recs)
	}
	return ""
}

// judge verifies one operation that had its home to itself, from the storage
// before and after it.
func (c *Ctx) judge(e *Event) bool {
	o := e.Op
	h := homeOf(o)
	in := func(m map[string]string) map[string]string {
		r := map[string]string{}
		for p, s := range m {
			if strings.HasPrefix(p, h+"/") {
				r[p] = s
			}
		}
		return r
	}
	v, a := view{h, in(e.Before)}, view{h, in(e.After)}
	bad := func(class, f string, x ...interface{}) bool {
		c.W.Violate(class, "%s: %s", e, fmt.Sprintf(f, x...))
		return false
	}
	if !c.sameDirs(e, h) {
		return false
	}
	if isQuery(o.K) {
		for _, p := range keys(a.m) {
			if s, ok := v.m[p]; !ok || s != a.m[p] {
				return bad("query-wrote", "the query changed %s from %s to %s", c.rel(p), clip(s), clip(a.m[p]))
			}
		}
		for _, p := range keys(v.m) {
			if _, ok := a.m[p]; !ok {
				return bad("query-removed", "the query removed %s", c.rel(p))
			}
		}
		want, ok := v.answer(o)
		switch {
		case e.OK() && !ok:
			return bad("false-success", "there is nothing it can have read (it returned %s %s %s)", clip(string(e.Res.Raw)), e.Res.S, shows(e.Res.Recs))
		case e.OK():
			if why := sameAnswer(o, &e.Res, &want); why != "" {
				return bad("wrong-answer", "%s", why)
			}
		case ok:
			return c.noSpurious(e)
		}
		return true
	}
	// A change: path is what it may touch.
	path := ""
	good := func(old, now string) bool { return false }
	fail := func(old, now string) bool { return old == now }
	can := true
	fresh := false
	S := o.S
	switch o.K {
	case "open", "open-driver", "tpath":
		return true
	case "add", "addlast":
		rec := ""
		if o.K == "addlast" {
			if e.Res.Err == "harness: no such handle" {
				return true
			}
		} else {
			rec = article(e).enc()
		}
		if S[1] == "" {
			can = false
			break
		}
		path = bpath(S[1], ".DIR")
		if !c.dirExists(h, bpath(S[1], "")) {
			can = false
			break
		}
		good = func(old, now string) bool {
			old = whole(old, 128)
			if o.K == "addlast" {
				return len(now) == len(old)+128 && strings.HasPrefix(now, old) && decArticle(now[len(old):]).File == e.Res.S
			}
			return now == old+rec
		}
		fail = func(old, now string) bool { return appendFailed(old, now, 128, rec) }
	case "addboard":
		path = ".BRD"
		good = func(old, now string) bool {
			old = whole(old, 256)
			if len(now) != len(old)+256 || !strings.HasPrefix(now, old) {
				return false
			}
			x := decBoard(now[len(old):])
			t := toBig(S[2])
			if len(t) > 49 {
				t = t[:49]
			}
			return x.ID == S[1] && x.Title == fromBig(t)
		}
		fail = func(old, now string) bool { return appendFailed(old, now, 256, "") }
	case "write", "writelast":
		f := ""
		if o.K == "write" {
			f = S[2]
		} else if e.Res.Err == "harness: no such handle" {
			return true
		} else {
			f = e.Res.S
		}
		if S[1] == "" {
			can = false
			break
		}
		path = bpath(S[1], f)
		if !c.dirExists(h, bpath(S[1], "")) {
			can = false
			break
		}
		good = func(old, now string) bool { return now == string(o.B) }
		fail = func(old, now string) bool { return now == old || now != absent && strings.HasPrefix(string(o.B), now) }
	case "append":
		if S[1] == "" {
			can = false
			break
		}
		path = bpath(S[1], S[2])
		can = v.old(path) != absent
		good = func(old, now string) bool { return now == old+string(o.B) }
		if e.Met("trunc") || len(e.HardOn) >= 2 { // what undoes a part may have failed too
			fail = func(old, now string) bool {
				return strings.HasPrefix(now, old) && strings.HasPrefix(old+string(o.B), now)
			}
		}
	case "create", "name", "newmap":
		if S[1] == "" || !c.dirExists(h, bpath(S[1], "")) {
			can = false
			break
		}
		fresh = true
	case "update":
		if S[1] == "" {
			can = false
			break
		}
		path = bpath(S[1], ".DIR")
		old := v.old(path)
		if old == absent || o.I[0] < 0 || int(o.I[0]) >= len(old)/128 {
			can = false
			break
		}
		i := int(o.I[0]) * 128
		was := old[i : i+128]
		n := applied(was, e)
		same := func(old, now string) bool {
			return len(now) == len(old) && now[:i] == old[:i] && now[i+128:] == old[i+128:]
		}
		good = func(old, now string) bool { return same(old, now) && alike(was, n, now[i:i+128]) }
		fail = func(old, now string) bool {
			for j := 0; j <= 128 && same(old, now); j++ {
				if alike(was, n[:j]+was[j:], now[i:i+128]) {
					return true
				}
			}
			return false
		}
	case "rmboard":
		path = ".BRD"
		old := v.old(path)
		if old == absent || o.I[0] < 0 || int(o.I[0]) >= len(old)/256 {
			can = false
			break
		}
		i := int(o.I[0]) * 256
		good = func(old, now string) bool { return whole(now, 256) == whole(old[:i]+old[i+256:], 256) }
		fail = func(old, now string) bool {
			if len(now) > len(old) || len(now) < len(whole(old, 256))-256 {
				return false
			}
			l := split(now, 256)
			at := 0
			for j, r := range split(old, 256) {
				if j == i/256 {
					continue
				}
				k := at
				for k < len(l) && l[k] != r {
					k++
				}
				if k == len(l) {
					return false
				}
				at = k
			}
			return true
		}
	case "draftw":
		if S[1] == "" {
			can = false
			break
		}
		path = upath(S[1], "buf."+S[2])
		can = c.dirExists(h, upath(S[1], ""))
		good = func(old, now string) bool { return now == string(o.B) }
	case "draftd":
		if S[1] == "" {
			can = false
			break
		}
		path = upath(S[1], "buf."+S[2])
		can = v.old(path) != absent
		good = func(old, now string) bool { return now == absent }
	case "misuse":
		can = false
	default:
		panic("no model for " + o.K)
	}
	if e.OK() && !can {
		return bad("false-success", "it cannot have done what it says")
	}
	if !e.OK() && can && !c.noSpurious(e) {
		return false
	}
	full := h + "/" + path
	if path != "" {
		old, now := v.old(path), a.old(path)
		switch {
		case e.OK() && !good(old, now):
			return bad("not-done", "%s is %s (%d bytes), it was %s (%d bytes)", path, clip(now), len(now), clip(old), len(old))
		case !e.OK() && !can && old != now:
			if !(old == absent && now == "") || o.K == "update" || o.K == "append" {
				return bad("refused-but-changed", "%s is %s (%d bytes), it was %s (%d bytes)", path, clip(now), len(now), clip(old), len(old))
			}
		case !e.OK() && !fail(old, now) && (!(old == absent && now == "") || o.K == "update" || o.K == "append"):
			return bad("failed-and-damaged", "%s is %s (%d bytes), it was %s (%d bytes)", path, clip(now), len(now), clip(old), len(old))
		}
	}
	extra := 0
	for _, p := range keys(a.m) {
		s, had := v.m[p]
		switch {
		case p == full:
		case had && s == a.m[p]:
		case had:
			return bad("other-changed", "it changed %s from %s to %s", c.rel(p), clip(s), clip(a.m[p]))
		case fresh && strings.HasPrefix(p, h+"/"+bpath(S[1], "")) && nameRE.MatchString(p[strings.LastIndex(p, "/")+1:]):
			extra++
			name := p[strings.LastIndex(p, "/")+1:]
			want := ""
			if o.K == "newmap" {
				want = headerOf(e)
			}
			switch {
			case e.OK() && (name != e.Res.S || a.m[p] != want):
				return bad("wrong-file", "it made %s holding %s", name, clip(a.m[p]))
			case !e.OK() && !strings.HasPrefix(want, a.m[p]):
				return bad("wrong-file", "it made %s holding %s", name, clip(a.m[p]))
			}
		case o.K == "draftw" && !e.OK() && len(e.HardOn) >= 2:
			extra++
		default:
			return bad("stray", "it made %s (%s)", c.rel(p), clip(a.m[p]))
		}
	}
	if extra > 1 || fresh && e.OK() && extra != 1 {
		return bad("stray", "it made %d files", extra)
	}
	for _, p := range keys(v.m) {
		if _, ok := a.m[p]; !ok && p != full {
			return bad("vanished", "it removed %s", c.rel(p))
		}
	}
	return true
}

// dirExists: directories are made at the start only.
func (c *Ctx) dirExists(h, d string) bool { return c.Dirs[strings.TrimSuffix(h+"/"+d, "/")] }

// sameDirs: no call makes or removes a directory.
func (c *Ctx) sameDirs(e *Event, h string) bool {
	now := c.W.K.Dirs()
	for d := range now {
		if strings.HasPrefix(d, h+"/") && !c.Dirs[d] {
			c.W.Violate("stray-directory", "%s made the directory %s", e, c.rel(d))
			return false
		}
	}
	for d := range c.Dirs {
		if strings.HasPrefix(d, h+"/") && !now[d] {
			c.W.Violate("lost-directory", "%s removed the directory %s", e, c.rel(d))
			return false
		}
	}
	return true
}

func whole(s string, n int) string {
	if s == absent {
		return ""
	}
	return s[:len(s)/n*n]
}

// appendFailed: after a failed append the complete records are all there and no
// new one is.
func appendFailed(old, now string, n int, rec string) bool {
	if now == old {
		return true
	}
	if now == absent {
		return false
	}
	w := whole(old, n)
	return strings.HasPrefix(now, w) && len(now) < len(w)+n && (rec == "" || strings.HasPrefix(rec, now[len(w):]))
}

// decUserInfo decodes a userinfo_t of 3484 bytes.
func decUserInfo(r string) simapi.Rec {
	sum := func(n int, f func(i int) uint32) int64 {
		h := uint32(1)
		for i := 0; i < n; i++ {
			h = h*16777619 ^ f(i)
		}
		return int64(h)
	}
	u8 := func(o int) int64 { return int64(r[o]) }
	u16 := func(o int) int64 { return int64(r[o]) | int64(r[o+1])<<8 }
	i32 := func(o int) int64 { return int64(int32(u32(r, o))) }
	flag := func(o int) int64 {
		if r[o] != 0 {
			return 1
		}
		return 0
	}
	words := func(o, n int) int64 { return sum(n, func(i int) uint32 { return u32(r, o+4*i) }) }
	msgs := int64(0)
	for k := 0; k < 10; k++ {
		msgs = msgs*31 + sum(100, func(i int) uint32 { return uint32(r[2292+100*k+i]) })
	}
	return simapi.Rec{Kind: "userinfo", ID: cstr(r[3422:3433]), S: []string{cstr(r[3435:3448])}, N: []int64{
		i32(8), int64(u32(r, 12)), u16(84), u16(86), u8(89), u16(90), i32(92), int64(int16(u16(96))),
		words(100, 256), words(1128, 256), words(2156, 32),
		u8(2288), msgs, flag(3392), flag(3393), flag(3394), u8(3395), flag(3396), u16(3398), int64(u32(r, 3400)), u8(3404), u16(3406), u8(3409), u16(3410),
		i32(3412), i32(3416), u8(3420), u8(3421), u8(3433), flag(3434), u8(3448), u16(3450), u16(3452), u16(3454),
		u16(3456), u16(3458), u16(3460), u16(3462), u16(3464), u16(3466), u16(3468), int64(u32(r, 3472))}}
}

// sameInfo compares user informations, and text only when it is plain.
func sameInfo(g, w simapi.Rec) string {
	if len(g.N) != len(w.N) {
		return "not the same fields"
	}
	for i := range g.N {
		if g.N[i] != w.N[i] {
			return fmt.Sprintf("number %d is %d instead of %d", i, g.N[i], w.N[i])
		}
	}
	if plain(w.ID) && g.ID != w.ID || plain(w.S[0]) && g.S[0] != w.S[0] {
		return fmt.Sprintf("text %q %q instead of %q %q", g.ID, g.S[0], w.ID, w.S[0])
	}
	return ""
}
