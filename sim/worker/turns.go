package main

import (
	"sort"
	"strings"

	"simrt"
)

// Turns: several processes use one home, one after the other, while other
// programs replace the files or write over them, often within one tick of the
// clock and without a change of size. Every answer is judged from the storage
// at its time, so nothing may be remembered that can have changed.

func init() {
	for _, x := range []struct {
		prop  string
		kinds []string
	}{
		{"C01", []string{"list"}},
		{"C02", []string{"boards"}},
		{"C04", []string{"read"}},
		{"C06", []string{"draftr"}},
		{"C11", []string{"uarts", "ucoms", "bcoms", "acoms"}},
		{"C12", []string{"favs"}},
		{"C13", nil},
		{"C20", nil},
	} {
		add(x.prop, &Scenario{Name: "turns", Gen: turns(x.kinds), Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
	}
}

// about says whether a query of one of the kinds can depend on the file.
func about(kinds []string, p string) bool {
	for _, k := range kinds {
		switch {
		case k == "list" && strings.HasSuffix(p, "/.DIR") && strings.Contains(p, "/boards/"),
			k == "boards" && strings.HasSuffix(p, "/.BRD"),
			k == "read" && strings.Contains(p, "/M."),
			k == "draftr" && strings.Contains(p, "/buf."),
			k == "favs" && (strings.HasSuffix(p, "/.fav") || strings.HasSuffix(p, "/.BRD")),
			k == "uarts" && (strings.HasSuffix(p, "/.DIR") || strings.HasSuffix(p, "/.BRD")),
			strings.HasSuffix(k, "coms") && (strings.HasSuffix(p, "/.DIR") || strings.HasSuffix(p, "/.BRD") || strings.Contains(p, "/M.")):
			return true
		}
	}
	return len(kinds) == 0
}

func turns(kinds []string) func(g *Gen) {
	return func(g *Gen) {
		p := g.populate("@", true)
		var files []string
		for f := range g.P.Files {
			if !strings.HasSuffix(f, "/") && about(kinds, f) {
				files = append(files, f)
			}
		}
		sort.Strings(files)
		if len(files) == 0 {
			files = []string{"@/.BRD"}
		}
		query := func() simrt.Op {
			for i := 0; i < 400; i++ {
				o := g.anyOp(p, false)
				if len(kinds) == 0 {
					return o
				}
				for _, k := range kinds {
					if o.K == k {
						return o
					}
				}
			}
			return op("boards", "@")
		}
		// A few queries are asked again and again.
		var asked []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			asked = append(asked, query())
		}
		now := map[string]string{}
		for ph, n := 0, g.Range(3, 9); ph < n; ph++ {
			var ops []simrt.Op
			for k := g.Range(1, 2); k > 0; k-- {
				switch x := g.F(); {
				case x < 0.5:
					ops = append(ops, asked[g.N(len(asked))])
				case x < 0.55:
					ops = append(ops, query())
				case x < 0.7:
					ops = append(ops, g.anyOp(p, true))
				case x < 0.73:
					ops = append(ops, op("!rm", files[g.N(len(files))]))
				default:
					f := files[g.N(len(files))]
					s, ok := now[f]
					if !ok {
						s = string(g.P.Files[f])
					}
					s = g.other(f, s)
					now[f] = s
					ops = append(ops, opB(g.Pick("!fill", "!over"), s, f))
				}
			}
			g.Task(g.N(g.Range(1, 3)), ph, ops...)
		}
		if g.Chance(0.5) {
			g.P.Tick = 0
		}
		g.Schedule(false)
		if g.Chance(0.15) {
			g.FaultMix(0, 0.4, 0.6)
		}
	}
}

// other changes the content of a file, mostly without changing its size.
func (g *Gen) other(f, s string) string {
	n := 0
	switch {
	case strings.HasSuffix(f, "/logins.bad"):
		return g.loginsBad(!strings.Contains(f, "/home/"), g.N(6))
	case strings.HasSuffix(f, "/logins.recent"):
		return g.loginsRecent(g.N(6))
	case strings.HasSuffix(f, "formosa.DIR"):
		n = 248
	case strings.HasSuffix(f, "/.DIR"):
		n = 128
	case strings.HasSuffix(f, "/.BRD"):
		n = 256
	case strings.HasSuffix(f, "/.PASSWDS"):
		n = 512
	}
	b := []byte(s)
	switch x := g.F(); {
	case n > 0 && len(b) >= 2*n && x < 0.35: // other order
		i, j := g.N(len(b)/n), g.N(len(b)/n)
		r := string(b[i*n : i*n+n])
		copy(b[i*n:], b[j*n:j*n+n])
		copy(b[j*n:], r)
		return string(b)
	case n > 0 && len(b) >= n && x < 0.6: // another record
		i := g.N(len(b) / n)
		r := ""
		switch n {
		case 128:
			r = g.articleSeed(1)
		case 256:
			r = g.boardSeed(g.boardIDs(1)...)
		case 512:
			r = g.users([]string{g.Pick("alice", "bob", "carol1")})
		}
		copy(b[i*n:], r)
		return string(b)
	case n > 0 && len(b) >= n && x < 0.65: // one record less
		i := g.N(len(b) / n)
		return string(b[:i*n]) + string(b[i*n+n:])
	case x < 0.7 && !strings.Contains(f, "/.fav"):
		return s[:g.N(len(s)+1)]
	}
	for k := g.Range(1, 4); k > 0 && len(b) > 0; k-- {
		for j := 0; j < 40; j++ {
			// Not the end of an escape sequence.
			if i := g.N(len(b)); b[i] >= 'a' && b[i] < 'z' && (n > 0 || i == 0 || b[i-1] > '@' && b[i-1] != '[') {
				b[i]++
				break
			}
		}
	}
	return string(b)
}
