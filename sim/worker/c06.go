package main

import (
	"strings"

	"simrt"
)

// C06: drafts of a user under concurrent saving, reading and deleting.

func init() {
	add("C06", &Scenario{Name: "draft", Weight: 5, Gen: genC06, Check: checkC06})
}

func genC06(g *Gen) {
	users := []string{"alice", "al", "Bob1"}[:g.Range(1, 3)]
	ids := []string{"0", "1", "11"}[:g.Range(1, 3)]
	max := g.Long(int(g.PickI(20, 200, 3000)))
	for _, u := range users {
		g.Dir(userDir(u))
		for _, d := range ids {
			if g.Chance(0.5) {
				g.File(userDir(u)+"/buf."+d, g.content("i", max))
			}
		}
		if g.Chance(0.3) {
			g.File(userDir(u)+"/.fav", "other")
		}
	}
	nt := g.Range(2, 4)
	if g.Thorough {
		nt = g.Range(2, 6)
	}
	for i := 0; i < nt; i++ {
		var ops []simrt.Op
		for n := g.Range(1, 4); n > 0; n-- {
			u, d := users[g.N(len(users))], ids[g.N(len(ids))]
			switch x := g.F(); {
			case x < 0.45:
				ops = append(ops, opB("draftw", g.content("d", max), "@", u, d))
			case x < 0.8:
				ops = append(ops, op("draftr", "@", u, d))
			case x < 0.95:
				ops = append(ops, op("draftd", "@", u, d))
			default:
				ops = append(ops, opB(g.Pick("draftw", "draftr", "draftd"), "x", "@", g.Pick("nobody", ""), d))
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	u, d := users[g.N(len(users))], ids[g.N(len(ids))]
	g.Task(2, 1, op("draftr", "@", u, d), opB("draftw", g.content("x", max), "@", u, d), op("draftr", "@", u, d), op("draftd", "@", u, d), op("draftr", "@", u, d))
	g.Schedule(false)
	g.pieces(max)
	g.FaultMix(0.3, 0.25, 0.15)
	if g.Chance(0.08) {
		g.P.DiskFree = g.PickI(1, 20, 100, 600)
	}
}

func checkC06(c *Ctx) {
	if !c.allReturned() {
		return
	}
	final := c.W.K.Walk()
	leftovers := 0
	byKey := map[string][]*Event{}
	for _, e := range c.Ev {
		u := e.Op.S[1]
		if u == "" || u == "nobody" {
			switch {
			case u == "" && e.OK():
				c.W.Violate("no-user", "%s succeeded for nobody", e)
			case u == "nobody" && e.OK() && e.Op.K != "draftr":
				c.W.Violate("no-user", "%s succeeded for a user without a directory", e)
			case u == "nobody" && e.OK() && len(e.Res.Raw) > 0:
				c.W.Violate("no-user", "%s returned %s", e, clip(string(e.Res.Raw)))
			}
			if c.W.Fail != nil {
				return
			}
			continue
		}
		p := c.path(userDir(u) + "/buf." + e.Op.S[2])
		byKey[p] = append(byKey[p], e)
		if e.Op.K == "draftw" && (!e.Done || !e.OK() && e.Hard >= 2) {
			leftovers++
		}
	}
	for p := range c.Init {
		if _, ok := byKey[p]; !ok && strings.Contains(p, "/buf.") {
			byKey[p] = nil
		}
	}
	names := map[string]bool{}
	for p := range byKey {
		names[p] = true
	}
	for _, p := range sorted(names) {
		get := func(m map[string]string) string {
			if s, ok := m[p]; ok {
				return s
			}
			return absent
		}
		var ops []*lop
		for _, e := range byKey[p] {
			e := e
			s := string(e.Op.B)
			var f func(st string) []string
			switch {
			case e.Op.K == "draftr" && e.OK():
				r := string(e.Res.Raw)
				f = func(st string) []string {
					if st == r || st == absent && r == "" && !e.Res.NilR {
						return []string{st}
					}
					return nil
				}
			case e.Op.K == "draftr":
				if !c.noSpurious(e) {
					return
				}
				continue
			case e.Op.K == "draftw" && e.OK():
				f = func(st string) []string { return []string{s} }
			case e.Op.K == "draftw":
				if !c.noSpurious(e) {
					return
				}
				if e.Done {
					f = func(st string) []string { return []string{st} }
				} else {
					f = func(st string) []string { return []string{st, s} }
				}
			case e.OK(): // deleted
				f = func(st string) []string {
					if st == absent {
						return nil
					}
					return []string{absent}
				}
			case e.Done && e.Hard == 0:
				f = func(st string) []string {
					if st == absent {
						return []string{absent}
					}
					return nil
				}
			case e.Done:
				f = func(st string) []string { return []string{st} }
			default:
				f = func(st string) []string { return []string{st, absent} }
			}
			ops = append(ops, c.newLop(e, f))
		}
		fin := get(final)
		fe := &Event{Task: -1, Op: &simrt.Op{K: "final", S: []string{c.rel(p)}}, Done: true}
		fe.Res.Raw = []byte(fin)
		end := c.W.Seq()
		ops = append(ops, &lop{e: fe, inv: end, ret: end, step: func(st string) []string {
			if st == fin {
				return []string{st}
			}
			return nil
		}})
		if !linearizable([]string{get(c.Init)}, ops) {
			c.W.Violate("not-linearizable", "%s", explain("draft "+c.rel(p), get(c.Init), ops, func(e *Event) string {
				if e.Op.K == "draftr" || e.Op.K == "final" {
					return clip(string(e.Res.Raw))
				}
				return "ok"
			}))
			return
		}
		for _, a := range byKey[p] {
			for _, b := range byKey[p] {
				if a.Op.K == "draftr" && b.Op.K == "draftw" && a.OK() && a.Inv < b.Ret && b.Inv < a.Ret {
					c.Hit("draft read during a save")
				}
				if a != b && a.Op.K == "draftw" && b.Op.K == "draftw" && a.Inv < b.Inv && b.Inv < a.Ret {
					c.Hit("two saves at a time")
				}
			}
		}
	}
	for _, p := range keys(final) {
		if names[p] {
			continue
		}
		if o, ok := c.Init[p]; ok {
			if o != final[p] {
				c.W.Violate("changed", "the file %s, which is no draft, changed from %s to %s", c.rel(p), clip(o), clip(final[p]))
				return
			}
			continue
		}
		if leftovers--; leftovers < 0 {
			c.W.Violate("stray", "the file %s (%s) was left behind", c.rel(p), clip(final[p]))
			return
		}
	}
	for p := range c.Init {
		if _, ok := final[p]; !ok && !names[p] {
			c.W.Violate("vanished", "the file %s vanished", c.rel(p))
			return
		}
	}
}
