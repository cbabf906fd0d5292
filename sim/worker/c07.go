package main

import (
	"strings"

	"simapi"
	"simrt"
)

// C07: removing a board removes that board and nothing else.

func init() {
	add("C07", &Scenario{Name: "remove", Weight: 3, Gen: genC07, Check: checkC07})
	add("C07", &Scenario{Name: "interrupted", Weight: 2, Gen: genC07cut, Check: checkC07cut})
}

func genC07(g *Gen) {
	n := g.Many(int(g.PickI(0, 1, 2, 3, 4, 6)))
	s := g.boardSeed(g.boardIDs(n)...)
	if g.Chance(0.3) {
		s = g.holes(s)
	}
	if g.Chance(0.1) {
		s += g.boardSeed("torn")[:g.Range(1, 255)]
	}
	if n > 0 || g.Chance(0.7) {
		g.File("@/.BRD", s)
	}
	for i, nt := 0, g.Range(1, 4); i < nt; i++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			switch x := g.F(); {
			case x < 0.45:
				at := int64(g.Range(0, n))
				if g.Chance(0.15) {
					at = g.PickI(-1, int64(n), int64(n+1), 1<<40, 1<<55, -1<<55, 1<<62, -1<<63)
				}
				ops = append(ops, opI("rmboard", []int64{at}, "@"))
			case x < 0.7:
				ops = append(ops, op("boards", "@"))
			default:
				ops = append(ops, g.addBoardOp())
			}
		}
		g.Task(g.N(2), 0, ops...)
	}
	if g.Chance(0.2) { // another BBS, looked after by the same processes
		n := g.Range(1, 5)
		g.File("@/more/.BRD", g.boardSeed(g.boardIDs(n)...))
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, opI("rmboard", []int64{int64(g.Range(0, n))}, "@/more"))
		}
		g.Task(g.N(2), 0, append(ops, op("boards", "@/more"))...)
	}
	g.Task(2, 1, op("boards", "@"), g.addBoardOp(), opI("rmboard", []int64{int64(g.Range(0, n))}, "@"), op("boards", "@"))
	g.Schedule(false)
	g.FaultMix(0, 0, 0.4)
}

func idList(raw string) string {
	var l []string
	for _, r := range split(raw, 256) {
		l = append(l, boardKey(decBoard(r)))
	}
	return strings.Join(l, "\n")
}

// boardKey is all that a list says about a board.
func boardKey(r simapi.Rec) string { return strings.Replace(show(r), "\n", "\\n", -1) }

// addedBoard is the board that a call adds.
func addedBoard(e *Event) simapi.Rec {
	t := toBig(e.Op.S[2])
	if len(t) > 49 {
		t = t[:49]
	}
	return simapi.Rec{Kind: "board", ID: e.Op.S[1], Title: fromBig(t), S: []string{"0"}, N: []int64{0, 0, 0, 0, 0}}
}

// knownBoards judges the contents of the records of a list.
func (c *Ctx) knownBoards(file string, l []simapi.Rec, where string) bool {
	want := map[string]bool{}
	for _, r := range decBoards(c.Init[file]) {
		want[boardKey(r)] = true
	}
	for _, e := range c.events("addboard") {
		want[boardKey(addedBoard(e))] = true
	}
	for i, r := range l {
		if !want[boardKey(r)] {
			c.W.Violate("garbled", "record %d of %s is %s, which is no board anybody made", i, where, show(r))
			return false
		}
	}
	return true
}

func checkC07(c *Ctx) {
	if !c.allReturned() {
		return
	}
	all := c.Ev
	homes, names := map[string][]*Event{}, map[string]bool{}
	for _, e := range all {
		names[e.Op.S[0]] = true
		homes[e.Op.S[0]] = append(homes[e.Op.S[0]], e)
	}
	for _, h := range sorted(names) {
		c.Ev = homes[h]
		c.checkRemovals(h)
	}
	c.Ev = all
}

func (c *Ctx) checkRemovals(home string) {
	p := c.path(home + "/.BRD")
	get := func(m map[string]string) string {
		if s, ok := m[p]; ok {
			return idList(s)
		}
		return absent
	}
	parts := func(st string) []string {
		if st == absent || st == "" {
			return nil
		}
		return strings.Split(st, "\n")
	}
	fin := c.W.K.Walk()
	raws, ids := map[string]bool{}, map[string]bool{}
	for _, r := range split(c.Init[p], 256) {
		raws[r] = true
		ids[cstr(r[:13])] = true
	}
	for i, r := range split(fin[p], 256) {
		if ids[cstr(r[:13])] && !raws[r] {
			c.W.Violate("garbled", "record %d of the final list, board %s, is not what it was", i, fromBig(cstr(r[:13])))
			return
		}
	}
	if !c.knownBoards(p, decBoards(fin[p]), "the final list") {
		return
	}
	var ops []*lop
	for _, e := range c.Ev {
		e := e
		var f func(st string) []string
		switch e.Op.K {
		case "addboard":
			if !c.noSpurious(e) {
				return
			}
			f = func(st string) []string {
				return []string{strings.Join(append(parts(st), boardKey(addedBoard(e))), "\n")}
			}
		case "boards":
			if e.OK() {
				if !c.knownBoards(p, e.Res.Recs, e.String()) {
					return
				}
				var l []string
				for _, r := range e.Res.Recs {
					l = append(l, boardKey(r))
				}
				got := strings.Join(l, "\n")
				f = func(st string) []string {
					if st == got {
						return []string{st}
					}
					if st == absent && got == "" {
						// The list may just be being made.
						for _, o := range c.events("addboard") {
							if o.Inv < e.Ret {
								return []string{""}
							}
						}
					}
					return nil
				}
			} else {
				f = func(st string) []string {
					if st == absent {
						return []string{st}
					}
					return nil
				}
			}
		case "rmboard":
			i := e.Op.I[0]
			f = func(st string) []string {
				l := parts(st)
				in := i >= 0 && i < int64(len(l))
				if in != e.OK() {
					return nil
				}
				if !in {
					if st == absent {
						for _, o := range c.events("addboard") {
							if o.Inv < e.Ret {
								return []string{st, ""}
							}
						}
					}
					return []string{st}
				}
				return []string{strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), "\n")}
			}
		}
		ops = append(ops, c.newLop(e, f))
	}
	want := get(fin)
	fe := &Event{Task: -1, Op: &simrt.Op{K: "final"}, Done: true}
	end := c.W.Seq()
	ops = append(ops, &lop{e: fe, inv: end, ret: end, step: func(st string) []string {
		if st == want {
			return []string{st}
		}
		return nil
	}})
	if !linearizable([]string{get(c.Init)}, ops) {
		c.W.Violate("not-linearizable", "%s", explain("the list of boards", get(c.Init), ops, func(e *Event) string {
			switch e.Op.K {
			case "final":
				return clip(want)
			case "boards":
				var l []string
				for _, r := range e.Res.Recs {
					l = append(l, r.ID)
				}
				return strings.Join(l, ",")
			}
			return "ok"
		}))
	}
	for _, a := range c.events("rmboard") {
		for _, b := range c.Ev {
			if a != b && a.OK() && b.OK() && a.Inv < b.Ret && b.Inv < a.Ret {
				c.Hit("removal during another " + b.Op.K)
			}
		}
	}
}

// interrupted: one removal is cut short by a crash or a failing disk.
func genC07cut(g *Gen) {
	n := g.Range(1, 8)
	if g.Chance(0.1) {
		n = g.Range(120, 150) // more than one block of a copy
	}
	n = g.Many(n)
	g.File("@/.BRD", g.boardSeed(g.boardIDs(n)...))
	g.P.Params["at"] = int64(g.N(n))
	g.Task(0, 0, opI("rmboard", []int64{g.P.Params["at"]}, "@"))
	if g.Chance(0.6) {
		for i, nt := 0, g.Range(1, 2); i < nt; i++ {
			var ops []simrt.Op
			for k := g.Range(1, 2); k > 0; k-- {
				if g.Chance(0.5) {
					ops = append(ops, g.addBoardOp())
				} else {
					ops = append(ops, op("boards", "@"))
				}
			}
			g.Task(1, 0, ops...)
		}
	}
	g.Task(2, 1, op("boards", "@"), g.addBoardOp(), op("boards", "@"))
	g.Schedule(false)
	if n > 20 {
		g.P.Chunk = 0
	}
	g.FaultMix(0.55, 0.4, 0)
	for k := range g.P.Gen.Kinds {
		g.P.Gen.Kinds[k] *= 2
	}
}

func checkC07cut(c *Ctx) {
	if !c.allReturned() {
		return
	}
	for _, e := range c.Ev {
		if !c.noSpurious(e) {
			return
		}
	}
	p := c.path("@/.BRD")
	init := split(c.Init[p], 256)
	fin := split(c.file("@/.BRD"), 256)
	var rm *Event
	for _, e := range c.events("rmboard") {
		rm = e
	}
	at := int(c.P.Params["at"])
	if rm == nil {
		at = -1
	}
	added := map[string]*Event{}
	okAdds, maybeAdds := 0, 0
	for _, e := range c.events("addboard") {
		added[e.Op.S[1]] = e
		if e.OK() {
			okAdds++
		} else if !e.Done {
			maybeAdds++
		}
	}
	where := map[string]int{}
	for i, r := range init {
		where[r] = i
	}
	last := map[int]int{} // initial record -> last place in the final list
	lastAdd := map[string]int{}
	odd := 0
	for i, r := range fin {
		if j, ok := where[r]; ok {
			last[j] = i
			continue
		}
		if e := added[fromBig(cstr(r[:13]))]; e != nil {
			x := decBoard(r)
			if t := toBig(e.Op.S[2]); len(t) > 49 || x.Title == e.Op.S[2] {
				if _, dup := lastAdd[x.ID]; dup && (rm == nil || rm.OK()) {
					c.W.Violate("duplicated", "%s was added once but is twice in the list", x.ID)
					return
				}
				lastAdd[x.ID] = i
				continue
			}
		}
		odd++
		if rm == nil || rm.OK() || odd > 1 {
			c.W.Violate("garbled", "record %d of the final list is %s, which nobody made", i, show(decBoard(r)))
			return
		}
	}
	prev := -1
	for j := range init {
		k, ok := last[j]
		if !ok {
			if j == at && rm != nil {
				continue
			}
			c.W.Violate("lost-board", "board %s was lost by removing board %d of %d (%s)", show(decBoard(init[j])), at, len(init), rm)
			return
		}
		if k < prev {
			c.W.Violate("reordered", "board %s moved before its neighbour (%s)", show(decBoard(init[j])), rm)
			return
		}
		if j != at {
			prev = k
		}
	}
	if rm != nil && rm.OK() {
		if _, ok := last[at]; ok {
			c.W.Violate("not-removed", "%s but the board is still there", rm)
			return
		}
		if len(fin) < len(init)-1+okAdds || len(fin) > len(init)-1+okAdds+maybeAdds {
			c.W.Violate("count", "%s of %d boards with %d added left %d", rm, len(init), okAdds, len(fin))
			return
		}
	}
	if len(fin) < len(init)-1+okAdds || len(fin) > len(init)+okAdds+maybeAdds {
		c.W.Violate("count", "%s of %d boards with %d to %d added left %d", rm, len(init), okAdds, okAdds+maybeAdds, len(fin))
		return
	}
	for id, e := range added {
		if _, ok := lastAdd[id]; e.OK() && !ok {
			c.W.Violate("lost-add", "%s but the board is not in the list (%s)", e, rm)
			return
		}
	}
	for _, e := range c.events("boards") {
		if !e.OK() {
			continue
		}
		have := map[string]bool{}
		for _, r := range e.Res.Recs {
			have[r.ID] = true
		}
		for j, r := range init {
			if x := decBoard(r); j != at && !have[x.ID] {
				c.W.Violate("read-lost", "%s lacks board %s (%s)", e, x.ID, rm)
				return
			}
		}
		for id, a := range added {
			if a.OK() && a.Ret < e.Inv && !have[id] {
				c.W.Violate("read-lost", "%s lacks the added board %s", e, id)
				return
			}
		}
	}
	if rm != nil && !rm.Done {
		c.Hit("removal cut short by a crash")
	}
}
