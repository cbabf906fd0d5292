package main

// Reference encoding and decoding of the files the library keeps, written from
// the documented record layouts and independent of the code under test. Text is
// limited to ASCII and a few characters whose Big5 codes are listed here.

import (
	"encoding/binary"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"simapi"
)

var big = map[rune]string{'測': "\xb4\xfa", '試': "\xb8\xd5", '看': "\xac\xdd", '板': "\xaa\x4f",
	'功': "\xa5\x5c", '許': "\xb3\x5c", '蓋': "\xbb\x5c", '育': "\xa8\x7c"}
var unbig = map[string]rune{}

func init() {
	for r, s := range big {
		unbig[s] = r
	}
}

func toBig(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if b, ok := big[r]; ok {
			sb.WriteString(b)
		} else {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func fromBig(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] < 0x80 {
			sb.WriteByte(s[i])
			continue
		}
		if i+1 < len(s) {
			if r, ok := unbig[s[i:i+2]]; ok {
				sb.WriteRune(r)
				i++
				continue
			}
		}
		sb.WriteString("\ufffd")
	}
	return sb.String()
}

func put(b []byte, off, n int, s string) {
	if len(s) > n {
		s = s[:n]
	}
	copy(b[off:off+n], s)
}
func put32(b []byte, off int, v uint32) { binary.LittleEndian.PutUint32(b[off:], v) }
func u32(s string, off int) uint32      { return binary.LittleEndian.Uint32([]byte(s[off : off+4])) }
func cut0(s string) string              { return strings.Trim(s, "\x00") }
func cstr(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

// Article is one record of an article index.
type Article struct {
	File, Owner, Date, Title string
	Modified                 uint32
	Recommend                int8
	Multi                    uint32
	Mode                     uint8
}

func (a *Article) enc() string {
	b := make([]byte, 128)
	put(b, 0, 28, a.File)
	put32(b, 28, a.Modified)
	b[33] = byte(a.Recommend)
	put(b, 34, 14, a.Owner)
	put(b, 48, 6, a.Date)
	put(b, 54, 65, toBig(a.Title))
	put32(b, 120, a.Multi)
	b[124] = a.Mode
	return string(b)
}

func decArticle(s string) Article {
	return Article{File: cut0(s[0:28]), Modified: u32(s, 28), Recommend: int8(s[33]), Owner: cut0(s[34:48]), Date: cut0(s[48:54]),
		Title: fromBig(cut0(s[54:119])), Multi: u32(s, 120), Mode: s[124]}
}

func (a *Article) rec() simapi.Rec {
	return simapi.Rec{Kind: "article", ID: a.File, Owner: a.Owner, Date: a.Date, Title: a.Title, N: []int64{int64(a.Modified), int64(a.Recommend), int64(a.Multi)}}
}

func split(raw string, n int) (r []string) {
	for len(raw) >= n {
		r = append(r, raw[:n])
		raw = raw[n:]
	}
	return
}

func decArticles(raw string) (r []simapi.Rec) {
	for _, s := range split(raw, 128) {
		a := decArticle(s)
		r = append(r, a.rec())
	}
	return
}

// Board is one record of the board list (the fields the interface shows).
type Board struct {
	ID, Title, BM string
	Attr          uint32
	Gid           int32
	Posts, Logins uint8
	Bad           uint8
	Fill          byte // value of the remaining bytes
}

func (a *Board) enc() string {
	b := make([]byte, 256)
	for i := 120; i < 256; i++ {
		b[i] = a.Fill
	}
	for i := 172; i < 206; i++ {
		b[i] = 0
	}
	put(b, 0, 13, a.ID)
	put(b, 13, 49, toBig(a.Title))
	put(b, 62, 39, a.BM)
	put32(b, 104, a.Attr)
	b[116], b[117], b[208] = a.Posts, a.Logins, a.Bad
	put32(b, 132, uint32(a.Gid))
	return string(b)
}

func decBoard(s string) simapi.Rec {
	bm := cut0(s[62:101])
	attr := u32(s, 104)
	f := func(m uint32, n uint) int64 {
		if attr&m != 0 {
			return 1 << n
		}
		return 0
	}
	r := simapi.Rec{Kind: "board", ID: fromBig(cstr(s[0:13])), Title: fromBig(cstr(s[13:62])), S: []string{fmt.Sprint(int32(u32(s, 132)))}}
	if bm != "" {
		r.S = append(r.S, strings.Split(bm, "/")...)
	}
	r.N = []int64{f(8, 0), int64(s[116]), int64(s[117]), int64(s[208]),
		0}
	for i, m := range []uint32{0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x10000, 0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x800000, 0x1000000, 0x2000000, 0x4000000, 0x8000000, 0x10000000} {
		r.N[4] |= f(m, uint(i))
	}
	return r
}

func decBoards(raw string) (r []simapi.Rec) {
	for _, s := range split(raw, 256) {
		r = append(r, decBoard(s))
	}
	return
}

// User is one record of the password file (the fields the interface shows).
type User struct {
	ID, Real, Nick, Pass, Host string
	Flag, Level, Days, Posts   uint32
	First, Last                uint32
	Money                      int32
}

func (u *User) enc() string {
	b := make([]byte, 512)
	put32(b, 0, 4194)
	put(b, 4, 13, u.ID)
	put(b, 17, 20, toBig(u.Real))
	put(b, 37, 24, toBig(u.Nick))
	put(b, 61, 14, u.Pass)
	put32(b, 76, u.Flag)
	put32(b, 84, u.Level)
	put32(b, 88, u.Days)
	put32(b, 92, u.Posts)
	put32(b, 96, u.First)
	put32(b, 100, u.Last)
	put(b, 104, 16, u.Host)
	put32(b, 120, uint32(u.Money))
	return string(b)
}

func decUser(s string) simapi.Rec {
	return simapi.Rec{Kind: "user", ID: cstr(s[4:17]), S: []string{fromBig(cstr(s[37:61])), fromBig(cstr(s[17:37])), cstr(s[104:120]), cstr(s[61:75])},
		N: []int64{int64(u32(s, 88)), int64(u32(s, 92)), int64(int32(u32(s, 120))), int64(u32(s, 100)), int64(u32(s, 76))}}
}

func decUsers(raw string) (r []simapi.Rec) {
	for _, s := range split(raw, 512) {
		r = append(r, decUser(s))
	}
	return
}

// FavItem is an entry of a favourites file.
type FavItem struct {
	Kind  int // 1 board, 2 folder, 3 line
	Bid   uint32
	Title string
	Sub   []FavItem
}

func encFolder(l []FavItem, sb *strings.Builder) {
	var n [4]int
	for _, it := range l {
		n[it.Kind]++
	}
	b := []byte{byte(n[1]), byte(n[1] >> 8), byte(n[3]), byte(n[2])}
	sb.Write(b)
	fid := 0
	for _, it := range l {
		sb.WriteByte(byte(it.Kind))
		sb.WriteByte(1)
		switch it.Kind {
		case 1:
			x := make([]byte, 12)
			put32(x, 0, it.Bid)
			put32(x, 4, 1600000000)
			sb.Write(x)
		case 2:
			fid++
			x := make([]byte, 50)
			x[0] = byte(fid)
			put(x, 1, 49, toBig(it.Title))
			sb.Write(x)
		case 3:
			sb.WriteByte(1)
		}
	}
	for _, it := range l {
		if it.Kind == 2 {
			encFolder(it.Sub, sb)
		}
	}
}

func encFav(l []FavItem) string {
	var sb strings.Builder
	sb.WriteString("\x4a\x0e") // 3658
	encFolder(l, &sb)
	return sb.String()
}

// favRecs is what a user should see of a favourites tree, given the board list.
func favRecs(l []FavItem, boards []simapi.Rec) (r []simapi.Rec) {
	for _, it := range l {
		switch it.Kind {
		case 1:
			id := ""
			if it.Bid >= 1 && int64(it.Bid) <= int64(len(boards)) {
				id = boards[it.Bid-1].ID
			}
			r = append(r, simapi.Rec{Kind: "fav", ID: id, N: []int64{0}})
		case 2:
			r = append(r, simapi.Rec{Kind: "fav", Title: it.Title, N: []int64{1}, Sub: favRecs(it.Sub, boards)})
		case 3:
			r = append(r, simapi.Rec{Kind: "fav", Title: strings.Repeat("-", 42), N: []int64{2}})
		}
	}
	return
}

// decFav parses a complete favourites file; ok is false when it is damaged.
func decFav(raw string) (l []FavItem, ok bool) {
	if len(raw) < 2 {
		return nil, false
	}
	p := 2
	bad := false
	var folder func(depth int) []FavItem
	folder = func(depth int) []FavItem {
		if bad || p+4 > len(raw) || depth > 40 {
			bad = true
			return nil
		}
		n := int(raw[p]) + int(raw[p+1])<<8 + int(raw[p+2]) + int(raw[p+3])
		p += 4
		var l []FavItem
		for i := 0; i < n; i++ {
			if p+2 > len(raw) {
				bad = true
				return nil
			}
			k := int(raw[p])
			sz := map[int]int{1: 12, 2: 50, 3: 1}[k]
			p += 2
			if sz == 0 || p+sz > len(raw) {
				bad = true
				return nil
			}
			it := FavItem{Kind: k}
			switch k {
			case 1:
				it.Bid = u32(raw, p)
			case 2:
				it.Title = fromBig(cstr(raw[p+1 : p+50]))
			}
			p += sz
			l = append(l, it)
		}
		for i := range l {
			if l[i].Kind == 2 {
				l[i].Sub = folder(depth + 1)
			}
		}
		return l
	}
	l = folder(0)
	return l, !bad
}

var commentRE = regexp.MustCompile(`([a-zA-Z][a-zA-Z0-9]+):.*(\d\d/\d\d \d\d:\d\d)`)

// comment line in the format of the BBS.
func commentLine(owner, text, stamp string) string {
	return "\x1b[1;31m\xa1\xf7 \x1b[33m" + owner + "\x1b[m\x1b[33m: " + text + "\x1b[m " + stamp + "\n"
}

// LoginLine is one entry of a login log.
func loginTime(t int64) string { return time.Unix(t, 0).UTC().Format("01/02/2006 15:04:05") }

// Formosa article record.
func encFormosa(file string, postno int32, owner string, modified uint32, title string) string {
	b := make([]byte, 248)
	put(b, 0, 44, file)
	put32(b, 72, uint32(postno))
	put(b, 80, 72, owner)
	put32(b, 152, modified)
	put(b, 160, 67, toBig(title))
	return string(b)
}

func sameRecs(a, b []simapi.Rec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameRec(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameRec(a, b simapi.Rec) bool {
	if a.Kind != b.Kind || a.ID != b.ID || a.Owner != b.Owner || a.Date != b.Date || a.Title != b.Title || a.Nil != b.Nil || len(a.S) != len(b.S) || len(a.N) != len(b.N) {
		return false
	}
	for i := range a.S {
		if a.S[i] != b.S[i] {
			return false
		}
	}
	for i := range a.N {
		if a.N[i] != b.N[i] {
			return false
		}
	}
	return sameRecs(a.Sub, b.Sub)
}

func show(r simapi.Rec) string {
	if r.Nil {
		return "<nil>"
	}
	s := fmt.Sprintf("{%s", r.Kind)
	for _, x := range [][2]string{{"id", r.ID}, {"owner", r.Owner}, {"date", r.Date}, {"title", r.Title}} {
		if x[1] != "" {
			s += fmt.Sprintf(" %s=%q", x[0], x[1])
		}
	}
	if len(r.S) > 0 {
		s += fmt.Sprintf(" %q", r.S)
	}
	if len(r.N) > 0 {
		s += fmt.Sprintf(" %v", r.N)
	}
	if len(r.Sub) > 0 {
		s += " [" + shows(r.Sub) + "]"
	}
	return s + "}"
}

func shows(l []simapi.Rec) string {
	var a []string
	for i, r := range l {
		if i == 12 {
			a = append(a, fmt.Sprintf("... (%d in all)", len(l)))
			break
		}
		a = append(a, show(r))
	}
	return strings.Join(a, " ")
}

// firstDiff describes where two lists of records part.
func firstDiff(got, want []simapi.Rec) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d records instead of %d, record %d %s is missing", len(got), len(want), i, show(want[i]))
		case i >= len(want):
			return fmt.Sprintf("%d records instead of %d, record %d %s is too many", len(got), len(want), i, show(got[i]))
		case !sameRec(got[i], want[i]):
			return fmt.Sprintf("record %d is %s instead of %s", i, show(got[i]), show(want[i]))
		}
	}
	return "no difference"
}

func clip(s string) string {
	if len(s) > 80 {
		return strconv.Quote(s[:60]) + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return strconv.Quote(s)
}

func keys(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
