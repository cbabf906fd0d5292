package main

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	mathbig "math/big"
	"net/url"
	"strings"
	"time"

	"simapi"
	"simrt"
)

// C15: the HTTP server gives tokens and information to whom, and about whom,
// it should, whatever requests arrive together, whatever the disk does while
// it starts and whatever the clock does.

func init() {
	add("C15", &Scenario{Name: "requests", Weight: 3, Gen: genC15, Check: checkC15})
	add("C15", &Scenario{Name: "together", Weight: 2, Gen: genC15together, Check: checkC15})
	add("C15", &Scenario{Name: "start", Weight: 1, Gen: genC15start, Check: checkC15})
}

const serverHome = "/home/bbs"

var tokenKey = func() *ecdsa.PublicKey {
	der, err := base64.StdEncoding.DecodeString("MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==")
	if err != nil {
		panic(err)
	}
	k, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		panic(err)
	}
	return k.(*ecdsa.PublicKey)
}()

// serverFiles makes the home of the server and returns its users, by name, and
// their stored hashes.
func (g *Gen) serverFiles() (ids []string, hash map[string]string) {
	hash = map[string]string{}
	pool := []string{"alice", "bob", "carol1", "SYSOP", "ali", "alice1", "Alice", "guest", "x", "abcdefghijkl", "abcdefghijklm"}
	var sb strings.Builder
	for _, i := range g.Perm(len(pool))[:g.Range(1, len(pool))] {
		id := pool[i]
		raw := g.users([]string{id})
		ids = append(ids, id)
		hash[id] = decUser(raw).S[3]
		sb.WriteString(raw)
		if g.Chance(0.15) { // a deleted user
			sb.WriteString(g.Pick(strings.Repeat("\x00", 512), (&User{}).enc()))
		}
	}
	for n := g.Many(0); n > 0; n-- {
		id := fmt.Sprintf("many%d", n)
		raw := g.users([]string{id})
		ids = append(ids, id)
		hash[id] = decUser(raw).S[3]
		sb.WriteString(raw)
	}
	if g.Chance(0.1) { // a registration which was cut short
		sb.WriteString(g.users([]string{"torn"})[:g.Range(1, 511)])
	}
	g.Dir(serverHome)
	if g.Chance(0.95) {
		g.File(serverHome+"/.PASSWDS", sb.String())
	}
	if g.Chance(0.95) {
		var l []string
		n := g.N(5)
		if g.Chance(0.1) {
			n = int(g.PickI(20, 33, 64, 101))
		}
		for i := n; i > 0; i-- {
			l = append(l, fmt.Sprintf("brd%d", i))
		}
		g.File(serverHome+"/.BRD", g.boardSeed(l...))
	}
	return
}

func (g *Gen) request(ids []string, hash map[string]string) simrt.Op {
	id := ids[g.N(len(ids))]
	if g.Chance(0.15) {
		id = g.Pick("nobody", "", "alic", "bo", "ALICE", "sysop", " alice", "alice ", "alice\x00", "%00", "測試", id[:len(id)-1], id+"x", strings.ToUpper(id))
	}
	pw := passwords[g.N(len(passwords))][0]
	if g.Chance(0.6) {
		for _, p := range passwords {
			if p[1] == hash[id] {
				pw = p[0]
			}
		}
	}
	switch g.N(12) {
	case 0:
		pw += g.Pick("x", "yz", " ")
	case 1:
		pw = strings.ToUpper(pw)
	case 2:
		pw = pw[:len(pw)-1]
	case 3:
		pw = g.Pick("", hash[id], "\x00")
	}
	switch x := g.F(); {
	case x < 0.5:
		v := url.Values{"username": {id}, "password": {pw}}
		return op("!http", "POST", "/v1/token", "application/x-www-form-urlencoded", v.Encode())
	case x < 0.8:
		if id == "" {
			id = "nobody"
		}
		o := op("!http", "GET", "/v1/users/"+url.PathEscape(id)+"/information", "", "")
		if g.Chance(0.5) {
			o.S = append(o.S, "Authorization", g.Pick("bearer x", "bearer", "", "a b c", " "))
		}
		return o
	case x < 0.9:
		return op("!http", "GET", "/v1/boards", "", "")
	case x < 0.93:
		return op("!http", g.Pick("GET", "PUT", "DELETE", "HEAD"), "/v1/token?"+url.Values{"username": {id}, "password": {pw}}.Encode(), "", "")
	}
	if strings.ContainsAny(id, "\x00%") || id == "" {
		id = "alice"
	}
	return op("!http", "GET", g.Pick("/v1/users/"+url.PathEscape(id)+"/favorites", "/v1/users/"+url.PathEscape(id)+"/articles", "/v1/users/"+url.PathEscape(id)+"/info"+g.Pick("", "rmation2", "rm"), "/v1/users/"+url.PathEscape(id)+"/Information", "/v1/users/"+url.PathEscape(id), "/v1/users/", "/v1/nothing", "/", "/v1/classes/1", "/v1/classes/"), "", "")
}

func genC15(g *Gen) {
	ids, hash := g.serverFiles()
	np := g.Range(1, 2)
	for p := 0; p < np; p++ {
		g.Task(p, -1, op("serve"))
	}
	for i, n := 0, g.Range(1, 4); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 4); k > 0; k-- {
			if g.Chance(0.1) {
				ops = append(ops, opI("!clock", []int64{g.PickI(-3600e9, -1e9, 1e9, 1800e9, 86400e9*400)}))
			}
			ops = append(ops, g.request(ids, hash))
		}
		g.Task(g.N(np), 0, ops...)
	}
	g.Task(0, 1, g.request(ids, hash))
	g.Schedule(true)
	if g.Chance(0.2) {
		g.clockTrouble()
	}
}

// genC15together: many requests of the same kind, in one process.
func genC15together(g *Gen) {
	ids, hash := g.serverFiles()
	g.Task(0, -1, op("serve"))
	login := g.Chance(0.6)
	for i, n := 0, g.Range(2, 4); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			o := g.request(ids, hash)
			id := ids[g.N(len(ids))]
			for try := 0; try < 50 && (o.S[0] == "POST") != login; try++ {
				o = g.request(ids, hash)
			}
			if login && g.Chance(0.7) {
				for _, p := range passwords {
					if p[1] == hash[id] {
						o = op("!http", "POST", "/v1/token", "application/x-www-form-urlencoded", url.Values{"username": {id}, "password": {p[0]}}.Encode())
					}
				}
			}
			ops = append(ops, o)
		}
		g.Task(0, 0, ops...)
	}
	g.P.Sched.Kind, g.P.Sched.P, g.P.Sched.PY = "random", 0.3, []float64{0.05, 0.2, 0.5}[g.N(3)]
}

func genC15start(g *Gen) {
	ids, hash := g.serverFiles()
	for p, np := 0, g.Range(1, 2); p < np; p++ {
		ops := []simrt.Op{op("serve")}
		for k := g.Range(1, 4); k > 0; k-- {
			ops = append(ops, g.request(ids, hash))
		}
		g.Task(p, 0, ops...)
		if g.Chance(0.5) { // started again
			g.Task(2, 1+p, op("serve"), g.request(ids, hash), g.request(ids, hash))
		}
	}
	g.Schedule(false)
	g.FaultMix(0.1, 0.5, 0.3)
	if g.Chance(0.2) {
		g.P.Chunk = g.PickI(64, 300, 511, 513, 1000)
	}
}

// token checks an access token and returns whose it is and when it expires.
func token(s string) (sub string, exp int64, why string) {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return "", 0, "it has not three parts"
	}
	var part [3][]byte
	for i := range p {
		b, err := base64.RawURLEncoding.DecodeString(p[i])
		if err != nil {
			return "", 0, "it is not base64"
		}
		part[i] = b
	}
	var h struct{ Alg string }
	if json.Unmarshal(part[0], &h) != nil || h.Alg != "ES256" {
		return "", 0, "its header is " + string(part[0])
	}
	if len(part[2]) != 64 {
		return "", 0, fmt.Sprintf("its signature has %d bytes", len(part[2]))
	}
	sum := sha256.Sum256([]byte(p[0] + "." + p[1]))
	if !ecdsa.Verify(tokenKey, sum[:], new(mathbig.Int).SetBytes(part[2][:32]), new(mathbig.Int).SetBytes(part[2][32:])) {
		return "", 0, "its signature does not verify with the public key"
	}
	var cl struct {
		Sub string
		Exp *int64
	}
	if err := json.Unmarshal(part[1], &cl); err != nil || cl.Exp == nil {
		return "", 0, "its claims are " + string(part[1])
	}
	return cl.Sub, *cl.Exp, ""
}

func checkC15(c *Ctx) {
	if !c.allReturned() {
		return
	}
	jumps := c.W.Stats.Jumps > 0 || len(c.events("!clock")) > 0
	users := decUsers(c.Init[serverHome+"/.PASSWDS"])
	boards := decBoards(c.Init[serverHome+"/.BRD"])
	first := map[string]*simapi.Rec{}
	for i := range users {
		if first[users[i].ID] == nil {
			first[users[i].ID] = &users[i]
		}
	}
	mayLackUsers, mayLackBoards := map[int]bool{}, map[int]bool{}
	var seenUsers, seenBoards [3]string
	for _, e := range c.Ev {
		bad := func(class, f string, x ...interface{}) {
			c.W.Violate(class, "%s: %s; the answer was %d %s", e, fmt.Sprintf(f, x...), e.Res.N, clip(string(e.Res.Raw)))
		}
		if e.Op.K == "serve" {
			if e.Hard > 0 {
				mayLackUsers[e.Proc], mayLackBoards[e.Proc] = true, true
			} else {
				mayLackUsers[e.Proc], mayLackBoards[e.Proc] = false, false
			}
			if e.Hard > 0 && e.Done {
				c.Hit("started on a failing disk")
			}
			seenUsers[e.Proc], seenBoards[e.Proc] = "", ""
			continue
		}
		if e.Op.K != "!http" || !e.Done {
			continue
		}
		if e.Res.Err != "" {
			if !mayLackUsers[e.Proc] {
				bad("no-server", "the server did not start (%s)", e.Res.Err)
				return
			}
			continue
		}
		u, err := url.Parse(e.Op.S[1])
		if err != nil {
			panic(err)
		}
		code := int(e.Res.N[0])
		var m map[string]interface{}
		isJSON := json.Unmarshal(e.Res.Raw, &m) == nil
		// lacks: the lists are loaded as a whole or not at all.
		lacks := func(seen *[3]string, may bool, missing bool) bool {
			now := "has"
			if missing {
				now = "lacks"
				if !may {
					return false
				}
			}
			if seen[e.Proc] == "" {
				seen[e.Proc] = now
			}
			return seen[e.Proc] == now
		}
		seg := strings.Split(u.Path, "/")
		switch {
		case u.Path == "/v1/token":
			tok, has := m["access_token"].(string)
			if e.Op.S[0] != "POST" {
				if has || strings.Contains(string(e.Res.Raw), "token") {
					bad("token-by-"+e.Op.S[0], "only POST gives tokens")
					return
				}
				continue
			}
			if !isJSON {
				bad("no-json", "the answer is not an object")
				return
			}
			v, _ := url.ParseQuery(e.Op.S[3])
			id, pw := v.Get("username"), v.Get("password")
			r := first[id]
			entitled := r != nil && verified(r.S[3], pw)
			switch {
			case !entitled && (has || m["error"] != "grant_error"):
				bad("token-for-wrong-password", "nobody with this name and password is stored")
				return
			case !entitled:
				continue
			case !has:
				if !lacks(&seenUsers, mayLackUsers[e.Proc], true) || m["error"] != "grant_error" {
					bad("refused", "name and password are right")
					return
				}
				continue
			}
			if !lacks(&seenUsers, mayLackUsers[e.Proc], false) {
				bad("comes-and-goes", "the user was not there before")
				return
			}
			sub, exp, why := token(tok)
			switch {
			case why != "":
				bad("bad-token", "the token is not valid, %s", why)
				return
			case sub != id:
				bad("token-for-another", "the token is for %q", sub)
				return
			case m["token_type"] != "bearer":
				bad("bad-token", "the type of the token is %v", m["token_type"])
				return
			case !jumps && (exp < e.WallInv/1e9+1800 || exp > e.WallRet/1e9+1800):
				bad("bad-expiry", "issued between second %d and %d, the token expires at %d", e.WallInv/1e9, e.WallRet/1e9, exp)
				return
			}
			c.Hit("token issued")
		case len(seg) == 5 && seg[4] == "information" && seg[3] != "" && strings.HasPrefix(u.Path, "/v1/users/"):
			r := first[seg[3]]
			if code == 500 {
				if r != nil && !lacks(&seenUsers, mayLackUsers[e.Proc], true) || m["error"] != "find_userrec_error" || m["data"] != nil {
					bad("no-information", "the user is stored")
					return
				}
				continue
			}
			d, ok := m["data"].(map[string]interface{})
			if code != 200 || !ok || r == nil {
				bad("bad-information", "there is information about a user, or something else, for one who is not stored or 200 is not the code")
				return
			}
			if !lacks(&seenUsers, mayLackUsers[e.Proc], false) {
				bad("comes-and-goes", "the user was not there before")
				return
			}
			want := map[string]string{"user_id": r.ID, "nickname": r.S[0], "realname": r.S[1], "number_of_login_days": fmt.Sprint(r.N[0]), "number_of_posts": fmt.Sprint(r.N[1]), "money": fmt.Sprint(r.N[2]),
				"last_login_time": time.Unix(r.N[3], 0).UTC().Format(time.RFC3339), "last_login_ipv4": r.S[2], "last_login_ip": r.S[2]}
			for k, w := range want {
				if g, _ := d[k].(string); g != w {
					bad("wrong-information", "%s is %v instead of %q", k, d[k], w)
					return
				}
			}
			if strings.Contains(string(e.Res.Raw), r.S[3]) && len(r.S[3]) == 13 {
				bad("leaked", "the answer contains the password hash")
				return
			}
		case u.Path == "/v1/boards":
			l, ok := m["data"].([]interface{})
			if code != 200 || !ok {
				bad("no-boards", "there is no list of boards")
				return
			}
			if len(boards) > 0 && !lacks(&seenBoards, mayLackBoards[e.Proc], len(l) == 0) {
				bad("boards-lost", "the list is not what is stored: %s", shows(boards))
				return
			}
			if len(l) == 0 {
				continue
			}
			if len(l) != len(boards) {
				bad("boards-lost", "%d boards instead of %d", len(l), len(boards))
				return
			}
			for i := range l {
				b, _ := l[i].(map[string]interface{})
				if name, ok := b["BrdName"].(string); !ok || name != boards[i].ID {
					bad("wrong-board", "board %d is %v instead of %s", i, b["BrdName"], boards[i].ID)
					return
				}
				for k, w := range map[string]int64{"PostLimitPosts": boards[i].N[1], "PostLimitLogins": boards[i].N[2], "PostLimitBadPost": boards[i].N[3]} {
					if g, ok := b[k].(float64); !ok || int64(g) != w {
						bad("wrong-board", "%s of board %d is %v instead of %d", k, i, b[k], w)
						return
					}
				}
			}
		default:
			if code == 200 && len(e.Res.Raw) > 0 {
				bad("answer-to-nothing", "nothing is known about that")
				return
			}
			if strings.HasSuffix(u.Path, "/favorites") && len(seg) == 5 || strings.HasPrefix(u.Path, "/v1/classes/") {
				if code != 501 {
					bad("bad-status", "this is not implemented")
					return
				}
			} else if code != 404 {
				bad("bad-status", "there is no such thing")
				return
			}
		}
	}
}
