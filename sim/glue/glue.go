// Package zsimglue drives one copy of the repository through its exported API.
package zsimglue

import (
	"fmt"
	"os"
	"strings"
	"time"

	"simapi"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	bbstool "github.com/Ptt-official-app/go-bbs/cmd/bbstool"
	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/filelock"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	serverlet "github.com/Ptt-official-app/go-bbs/serverlet"
)

type process struct {
	dbs    map[string]*bbs.DB
	caches map[string]cache.Cache
	pc     map[string]*pttbbs.Cache
	files  map[string]*os.File
	info   map[string]*pttbbs.UserInfoCache
}

type session struct {
	p    *process
	last bbs.ArticleRecord
}

// Keep holds on to objects with finalizers until the real process ends.
var Keep []interface{}

// New starts a simulated process.
func New() simapi.Process {
	return &process{dbs: map[string]*bbs.DB{}, caches: map[string]cache.Cache{}, pc: map[string]*pttbbs.Cache{}, files: map[string]*os.File{}, info: map[string]*pttbbs.UserInfoCache{}}
}

func (p *process) NewSession() simapi.Session { return &session{p: p} }

func fail(err error) simapi.Res {
	if err != nil {
		s := err.Error()
		if s == "" {
			s = "error with empty text"
		}
		return simapi.Res{Err: s}
	}
	return simapi.Res{}
}

const missing = "harness: no such handle"

func (s *session) db(h string) (*bbs.DB, error) {
	if d := s.p.dbs[h]; d != nil {
		return d, nil
	}
	d, err := bbs.Open("pttbbs", "file://"+h)
	if err != nil {
		return nil, err
	}
	s.p.dbs[h] = d
	return d, nil
}

func conn(h string) *pttbbs.Connector {
	c := &pttbbs.Connector{}
	c.Open("file://" + h)
	return c
}

func article(a bbs.ArticleRecord) simapi.Rec {
	if a == nil {
		return simapi.Rec{Nil: true}
	}
	r := simapi.Rec{Kind: "article", ID: a.Filename(), Owner: a.Owner(), Date: a.Date(), Title: a.Title(),
		N: []int64{a.Modified().Unix(), int64(a.Recommend()), int64(a.Money())}}
	return r
}

func articles(l []bbs.ArticleRecord) (r []simapi.Rec) {
	for _, a := range l {
		r = append(r, article(a))
	}
	return
}

func userInfo(u *pttbbs.UserInfoCache) simapi.Rec {
	sum := func(n int, f func(i int) uint32) int64 {
		h := uint32(1)
		for i := 0; i < n; i++ {
			h = h*16777619 ^ f(i)
		}
		return int64(h)
	}
	msgs := int64(0)
	for _, m := range u.Msgs {
		msgs = msgs*31 + sum(len(m), func(i int) uint32 { return uint32(m[i]) })
	}
	return simapi.Rec{Kind: "userinfo", ID: u.ChatID, S: []string{u.MateID}, N: []int64{
		int64(u.SockAddr), int64(u.UserLevel), int64(u.DarkChess.Win), int64(u.DarkChess.Lose), int64(u.AngelPause), int64(u.DarkChess.Tie), int64(u.FriendTotal), int64(u.NumFriends),
		sum(len(u.MyFriend), func(i int) uint32 { return uint32(u.MyFriend[i]) }), sum(len(u.FriendOnline), func(i int) uint32 { return u.FriendOnline[i] }), sum(len(u.Reject), func(i int) uint32 { return uint32(u.Reject[i]) }),
		int64(u.MsgCount), msgs, bit(u.Birth, 0), bit(u.Active, 0), bit(u.Invisible, 0), int64(u.Mode), bit(u.Pager, 0), int64(u.Conn6.Win), u.LastAct.Unix(), int64(u.Alerts), int64(u.Conn6.Lose), int64(u.Signature), int64(u.Conn6.Tie),
		int64(u.DestUID), int64(u.DestUIP), int64(u.SockActive), int64(u.InChat), int64(u.LockMode), bit(u.Turn, 0), int64(u.Color), int64(u.Five.Win), int64(u.Five.Lose), int64(u.Five.Tie),
		int64(u.ChineseChess.Win), int64(u.ChineseChess.Lose), int64(u.ChineseChess.Tie), int64(u.ChessEloRating), int64(u.GoChess.Win), int64(u.GoChess.Lose), int64(u.GoChess.Tie), int64(u.WithMe)}}
}

// Records of another kind than the driver makes.
type foreignArticle struct{ bbs.ArticleRecord }
type foreignBoard struct{ bbs.BoardRecord }

func bit(b bool, n uint) int64 {
	if b {
		return 1 << n
	}
	return 0
}

func board(b bbs.BoardRecord) simapi.Rec {
	if b == nil {
		return simapi.Rec{Nil: true}
	}
	r := simapi.Rec{Kind: "board", ID: b.BoardID(), Title: b.Title(), S: append([]string{b.ClassID()}, b.BM()...), N: []int64{bit(b.IsClass(), 0)}}
	if i, ok := b.(bbs.BoardRecordInfo); ok {
		r.N = append(r.N, int64(i.GetPostLimitPosts()), int64(i.GetPostLimitLogins()), int64(i.GetPostLimitBadPost()))
	}
	if i, ok := b.(bbs.BoardRecordSettings); ok {
		n := int64(0)
		for k, v := range []bool{i.IsHide(), i.IsPostMask(), i.IsAnonymous(), i.IsDefaultAnonymous(), i.IsNoCredit(), i.IsVoteBoard(), i.IsWarnEL(), i.IsTop(), i.IsNoRecommend(), i.IsAngelAnonymous(), i.IsBMCount(), i.IsNoBoo(), i.IsRestrictedPost(), i.IsGuestPost(), i.IsCooldown(), i.IsCPLog(), i.IsNoFastRecommend(), i.IsIPLogRecommend(), i.IsOver18(), i.IsNoReply(), i.IsAlignedComment(), i.IsNoSelfDeletePost(), i.IsBMMaskContent()} {
			n |= bit(v, uint(k))
		}
		r.N = append(r.N, n)
	}
	return r
}

func favs(l []bbs.FavoriteRecord) (r []simapi.Rec) {
	for _, f := range l {
		if f == nil {
			r = append(r, simapi.Rec{Nil: true})
			continue
		}
		x := simapi.Rec{Kind: "fav", ID: f.BoardID(), Title: f.Title(), N: []int64{int64(f.Type())}}
		x.Sub = favs(f.Records())
		r = append(r, x)
	}
	return
}

func comments(l []bbs.UserCommentRecord) (r []simapi.Rec) {
	for _, c := range l {
		if c == nil {
			r = append(r, simapi.Rec{Nil: true})
			continue
		}
		r = append(r, simapi.Rec{Kind: "comment", ID: c.Filename(), Owner: c.Owner(), Title: c.Comment(),
			S: []string{c.BoardID(), c.IP()}, N: []int64{int64(c.CommentOrder()), c.CommentTime().Unix()}})
	}
	return
}

func recs(l []simapi.Rec, err error) simapi.Res {
	r := fail(err)
	r.Recs = l
	return r
}

func tail(s []string, n int) []string {
	if len(s) <= n {
		return []string{}
	}
	// A slice with spare room, as a caller that cut it from a longer path has.
	return s[n:len(s):cap(s)]
}

// Do performs one operation.
func (s *session) Do(op *simapi.Op) simapi.Res {
	S, I := op.S, op.I
	var d *bbs.DB
	switch op.K {
	case "list", "tlist", "read", "tread", "boards", "addboard", "create", "addlast", "add", "write", "append", "users", "verify", "favs",
		"uarts", "ucoms", "bcoms", "acoms", "draftr", "draftw", "draftd", "misuse":
		var err error
		d, err = s.db(S[0])
		if err != nil {
			return fail(err)
		}
	}
	switch op.K {
	case "open": // handle, home
		x, err := bbs.Open("pttbbs", S[1])
		if err == nil {
			s.p.dbs[S[0]] = x
		}
		return fail(err)
	case "open-driver": // handle, driver, dsn
		_, err := bbs.Open(S[1], S[2])
		return fail(err)
	case "list":
		l, err := d.ReadBoardArticleRecordsFile(S[1])
		return recs(articles(l), err)
	case "tlist":
		l, err := d.ReadBoardTreasureRecordsFile(S[1], tail(S, 2))
		return recs(articles(l), err)
	case "read":
		b, err := d.ReadBoardArticleFile(S[1], S[2])
		r := fail(err)
		r.Raw = b
		return r
	case "tread":
		b, err := d.ReadBoardTreasureFile(S[1], tail(S, 3), S[2])
		r := fail(err)
		r.Raw = b
		return r
	case "misuse": // home, board, what is wrong
		args := map[string]interface{}{"board_id": S[1], "owner": "alice", "date": "12/31", "title": "t"}
		kind, key, _ := strings.Cut(S[2], ":")
		if key != "" {
			delete(args, key)
		}
		switch kind {
		case "newmap":
			_, err := conn(S[0]).NewArticleRecordWithMap(args)
			return fail(err)
		case "newboard":
			_, err := d.NewBoardRecord(args)
			return fail(err)
		case "article":
			return fail(d.AddArticleRecordFileRecord(S[1], foreignArticle{pttbbs.NewFileHeader()}))
		case "update":
			c := conn(S[0])
			p, err := c.GetBoardArticleRecordsPath(S[1])
			if err != nil {
				return fail(err)
			}
			return fail(c.UpdateArticleRecordFileRecord(p, 0, foreignArticle{pttbbs.NewFileHeader()}))
		default:
			return fail(d.AddBoardRecord(foreignBoard{pttbbs.NewBoardHeader()}))
		}
	case "tpath": // directories S[2:], a caller's slice with spare capacity
		path := make([]string, 0, 16)
		path = append(path, tail(S, 2)...)
		full := append(path, "sentinel-1", "sentinel-2")
		d, err := s.db(S[0])
		if err != nil {
			return fail(err)
		}
		d.ReadBoardTreasureRecordsFile(S[1], path)
		d.ReadBoardTreasureFile(S[1], path, "x")
		return simapi.Res{S: strings.Join(full, "/")}
	case "boards":
		l, err := d.ReadBoardRecords()
		var r []simapi.Rec
		for _, b := range l {
			r = append(r, board(b))
		}
		return recs(r, err)
	case "addboard":
		b, err := d.NewBoardRecord(map[string]interface{}{"board_id": S[1], "title": S[2]})
		if err != nil {
			return fail(err)
		}
		return fail(d.AddBoardRecord(b))
	case "rmboard":
		p, err := conn(S[0]).GetBoardRecordsPath()
		if err != nil {
			return fail(err)
		}
		return fail(pttbbs.RemoveBoardHeaderFileRecord(p, int(I[0])))
	case "create":
		a, err := d.CreateArticleRecord(S[1], S[2], S[3], S[4])
		r := fail(err)
		if err == nil {
			s.last = a
			r.S = a.Filename()
			r.Recs = []simapi.Rec{article(a)}
		}
		return r
	case "name":
		f, err := conn(S[0]).CreateBoardArticleFilename(S[1])
		r := fail(err)
		r.S = f
		return r
	case "newmap":
		a, err := conn(S[0]).NewArticleRecordWithMap(map[string]interface{}{"board_id": S[1], "owner": S[2], "date": S[3], "title": S[4]})
		r := fail(err)
		if err == nil {
			s.last = a
			r.S = a.Filename()
			r.Recs = []simapi.Rec{article(a)}
		}
		return r
	case "addlast":
		if s.last == nil {
			return simapi.Res{Err: missing}
		}
		r := fail(d.AddArticleRecordFileRecord(S[1], s.last))
		r.S = s.last.Filename()
		return r
	case "add":
		f := pttbbs.NewFileHeader()
		f.SetFilename(S[2])
		f.SetOwner(S[3])
		f.SetDate(S[4])
		f.SetTitle(S[5])
		if len(I) > 0 {
			f.SetModified(time.Unix(I[0], 0))
		}
		if len(I) > 1 {
			f.AddRecommend(int8(I[1]))
		}
		return fail(d.AddArticleRecordFileRecord(S[1], f))
	case "write":
		return fail(d.WriteBoardArticleFile(S[1], S[2], op.B))
	case "append":
		return fail(d.AppendBoardArticleFile(S[1], S[2], op.B))
	case "writelast":
		if s.last == nil {
			return simapi.Res{Err: missing}
		}
		d, err := s.db(S[0])
		if err != nil {
			return fail(err)
		}
		r := fail(d.WriteBoardArticleFile(S[1], s.last.Filename(), op.B))
		r.S = s.last.Filename()
		return r
	case "update": // home, board, field, text ; index, number
		c := conn(S[0])
		p, err := c.GetBoardArticleRecordsPath(S[1])
		if err != nil {
			return fail(err)
		}
		l, err := c.ReadArticleRecordsFile(p)
		if err != nil && !strings.Contains(err.Error(), "no such file or directory") {
			return simapi.Res{Err: "harness: read: " + err.Error()}
		}
		var a bbs.ArticleRecord = pttbbs.NewFileHeader()
		if I[0] >= 0 && int(I[0]) < len(l) {
			a = l[I[0]]
		}
		f, ok := a.(*pttbbs.FileHeader)
		if !ok {
			return simapi.Res{Err: "harness: record of another type"}
		}
		switch S[2] {
		case "title":
			f.SetTitle(S[3])
		case "owner":
			f.SetOwner(S[3])
		case "date":
			f.SetDate(S[3])
		case "recommend":
			f.AddRecommend(int8(I[1]))
		case "modified":
			f.SetModified(time.Unix(I[1], 0))
		}
		return fail(c.UpdateArticleRecordFileRecord(p, uint(I[0]), f))
	case "users":
		l, err := d.ReadUserRecords()
		var r []simapi.Rec
		for _, u := range l {
			if u == nil {
				r = append(r, simapi.Rec{Nil: true})
				continue
			}
			r = append(r, simapi.Rec{Kind: "user", ID: u.UserID(), S: []string{u.Nickname(), u.RealName(), u.LastHost(), u.HashedPassword()},
				N: []int64{int64(u.NumLoginDays()), int64(u.NumPosts()), int64(u.Money()), u.LastLogin().Unix(), int64(u.UserFlag())}})
		}
		return recs(r, err)
	case "verify":
		l, err := d.ReadUserRecords()
		if err != nil {
			return fail(err)
		}
		for _, u := range l {
			if u.UserID() == S[1] {
				if err := u.VerifyPassword(S[2]); err != nil {
					return simapi.Res{S: "no"}
				}
				return simapi.Res{S: "yes"}
			}
		}
		return simapi.Res{S: "unknown"}
	case "fcrypt":
		b, err := crypt.Fcrypt([]byte(S[0]), []byte(S[1]))
		r := fail(err)
		r.Raw = b
		return r
	case "favs":
		l, err := d.ReadUserFavoriteRecords(S[1])
		return recs(favs(l), err)
	case "uarts":
		l, err := d.GetUserArticleRecordFile(S[1])
		var r []simapi.Rec
		for _, a := range l {
			r = append(r, simapi.Rec{Kind: "userarticle", ID: a.ArticleID(), Owner: a.Owner(), Title: a.Title(), S: []string{a.BoardID()}})
		}
		return recs(r, err)
	case "ucoms":
		l, err := d.GetUserCommentRecordFile(S[1])
		return recs(comments(l), err)
	case "bcoms":
		l, err := d.GetBoardUserCommentRecord(S[1], S[2])
		return recs(comments(l), err)
	case "acoms":
		f := pttbbs.NewFileHeader()
		f.SetFilename(S[2])
		l, err := d.GetBoardArticleCommentRecords(S[1], f)
		return recs(comments(l), err)
	case "draftr":
		u, err := d.GetUserDrafts(S[1], S[2])
		r := fail(err)
		if u != nil {
			r.Raw = append([]byte{}, u.Raw()...)
		} else {
			r.NilR = true
		}
		return r
	case "draftw":
		return fail(d.WriteUserDraft(S[1], S[2], bbs.NewUserDraft(op.B)))
	case "draftd":
		return fail(d.DeleteUserDraft(S[1], S[2]))
	case "badlogins":
		l, err := pttbbs.OpenBadLoginFile(S[0])
		var r []simapi.Rec
		for _, a := range l {
			r = append(r, simapi.Rec{Kind: "badlogin", ID: a.UserID, Owner: a.FromHost, N: []int64{a.LoginStartTime.Unix(), bit(a.Success, 0)}})
		}
		return recs(r, err)
	case "recent":
		l, err := pttbbs.OpenLoginRecentFile(S[0])
		var r []simapi.Rec
		for _, a := range l {
			r = append(r, simapi.Rec{Kind: "recent", Owner: a.FromHost, N: []int64{a.LoginStartTime.Unix()}})
		}
		return recs(r, err)
	case "formosa":
		l, err := formosa.OpenFormosaBBSFileHeaderFile(S[0])
		var r []simapi.Rec
		for _, a := range l {
			r = append(r, simapi.Rec{Kind: "formosa", ID: a.Filename, Owner: a.Owner, Title: a.Title, N: []int64{a.Modified.Unix(), int64(a.Postno)}})
		}
		return recs(r, err)
	case "uinfo":
		l, err := pttbbs.OpenUserInfoCache(S[0])
		var r []simapi.Rec
		for _, a := range l {
			r = append(r, userInfo(a))
		}
		return recs(r, err)
	case "mmap-create":
		m, err := cache.CreateMmap(S[1], I[0])
		if err == nil {
			Keep = append(Keep, m)
			s.p.caches[S[0]] = m
		}
		return fail(err)
	case "cache-open":
		m, err := cache.NewCache(S[1])
		if err == nil {
			Keep = append(Keep, m)
			s.p.caches[S[0]] = m
		}
		return fail(err)
	case "shm-create":
		m, err := cache.CreateKey(int(I[0]), int(I[1]))
		if err == nil {
			Keep = append(Keep, m)
			s.p.caches[S[0]] = m
		}
		return fail(err)
	case "shm-rm":
		return fail(cache.RemoveKey(int(I[0])))
	case "mmap-rm":
		return fail(cache.RemoveMmap(S[0]))
	case "cache-get", "cache-set", "cache-len", "cache-close":
		var m cache.Cache = s.p.caches[S[0]]
		if pc := s.p.pc[S[0]]; pc != nil {
			m = pc
		}
		if m == nil {
			return simapi.Res{Err: missing}
		}
		switch op.K {
		case "cache-len":
			return simapi.Res{N: []int64{int64(len(m.Bytes()))}}
		case "cache-get":
			b := m.Bytes()
			o, n := int(I[0]), int(I[1])
			if o+n > len(b) {
				return simapi.Res{Err: "harness: range"}
			}
			return simapi.Res{Raw: append([]byte{}, b[o:o+n]...)}
		case "cache-set":
			b := m.Bytes()
			o := int(I[0])
			if o+len(op.B) > len(b) {
				return simapi.Res{Err: "harness: range"}
			}
			copy(b[o:], op.B)
			return simapi.Res{}
		}
		delete(s.p.caches, S[0])
		delete(s.p.pc, S[0])
		return fail(m.Close())
	case "pcache-open":
		m, err := pttbbs.NewCache(S[1], &pttbbs.MemoryMappingSetting{AlignmentBytes: int(I[0]), MaxUsers: int(I[1]), IDLen: int(I[2]), UseCoolDown: I[3] != 0, HashBits: int(I[4])})
		if err == nil {
			Keep = append(Keep, m)
			s.p.pc[S[0]] = m
		}
		return fail(err)
	case "pcache-version", "pcache-user", "pcache-money", "pcache-info":
		m := s.p.pc[S[0]]
		if m == nil {
			return simapi.Res{Err: missing}
		}
		switch op.K {
		case "pcache-version":
			return simapi.Res{N: []int64{int64(m.Version())}}
		case "pcache-user":
			return simapi.Res{S: m.UserID(int(I[0]))}
		case "pcache-money":
			return simapi.Res{N: []int64{int64(m.Money(int(I[0])))}}
		}
		u := m.UserInfo(int(I[0]))
		if u == nil {
			return simapi.Res{NilR: true}
		}
		s.p.info[S[0]] = u
		return recs([]simapi.Rec{userInfo(u)}, nil)
	case "info-kept": // what was read before is still what it was
		u := s.p.info[S[0]]
		if u == nil {
			return simapi.Res{Err: missing}
		}
		return recs([]simapi.Rec{userInfo(u)}, nil)
	case "lk-open":
		f, err := os.OpenFile(S[1], os.O_RDWR|os.O_CREATE, 0644)
		if err == nil {
			s.p.files[S[0]] = f
		}
		return fail(err)
	case "lk-lock", "lk-rlock", "lk-unlock", "lk-close":
		f := s.p.files[S[0]]
		if f == nil {
			return simapi.Res{Err: missing}
		}
		switch op.K {
		case "lk-lock":
			return fail(filelock.Lock(f))
		case "lk-rlock":
			return fail(filelock.RLock(f))
		case "lk-unlock":
			return fail(filelock.Unlock(f))
		}
		delete(s.p.files, S[0])
		return fail(f.Close())
	case "bbstool":
		bbstool.SimMain()
		return simapi.Res{}
	case "serve":
		serverlet.SimMain()
		return simapi.Res{}
	}
	return simapi.Res{Err: fmt.Sprintf("harness: unknown operation %q", op.K)}
}
