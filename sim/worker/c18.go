package main

import (
	"fmt"
	"strings"

	"simrt"
)

// Scenarios in which every operation is judged on its own, from the storage
// before and after it. Every task has a home (and a process) to itself, so the
// judgement is exact while other tasks run.
//
// C09: databases with different homes do not influence each other.
// C10: nothing stays open or locked after an operation.
// C18: a persistent failure makes operations fail, and honestly.
// C19: a failing or slow disk never makes a query return something else.
// C20: an operation touches only what it names.

func init() {
	add("C09", &Scenario{Name: "homes", Gen: genC09, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
	add("C10", &Scenario{Name: "hygiene", Gen: genC10, Prepare: prepAlone, After: afterC10, Check: checkC10})
	add("C10", &Scenario{Name: "attach", Gen: genAttach, After: afterAttach, Check: checkC10})
	add("C18", &Scenario{Name: "standing", Weight: 6, Gen: genC18, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterC18})
	add("C18", &Scenario{Name: "standing-post", Gen: together(genC01), After: afterStanding, Check: checkC01})
	add("C18", &Scenario{Name: "standing-boards", Gen: together(genC02), After: afterStanding, Check: checkC02})
	add("C18", &Scenario{Name: "standing-names", Gen: together(genC03), After: afterStanding, Check: checkC03})
	add("C18", &Scenario{Name: "standing-text", Gen: together(genC05mix), After: afterStanding, Check: checkText})
	add("C18", &Scenario{Name: "standing-rewrite", Gen: together(genC04), After: afterStanding, Check: checkText})
	add("C18", &Scenario{Name: "standing-draft", Gen: together(genC06), After: afterStanding, Check: checkC06})
	add("C18", &Scenario{Name: "standing-update", Gen: together(genC08), After: afterStanding, Check: checkC08})
	add("C19", &Scenario{Name: "queries", Gen: genC19, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
	add("C20", &Scenario{Name: "confined", Weight: 4, Gen: genC20, Snap: true, Prepare: prepAlone, Before: beforeAlone, After: afterAlone})
}

// ---- confinement ----

var mutating = map[string]bool{"create": true, "write": true, "trunc": true, "unlink": true, "rename": true, "mkdir": true, "link": true, "symlink": true, "chmod": true, "chown": true}

func prepAlone(c *Ctx) {
	cur := map[int]*Event{}
	c.Aux["cur"] = cur
	c.W.OnSys = func(t *simrt.Task, class, path string) {
		e := cur[t.ID]
		if e == nil || path == "" || c.W.Fail != nil || strings.HasPrefix(e.Op.K, "!") {
			return
		}
		h := homeOf(e.Op)
		inside := path == h || strings.HasPrefix(path, h+"/")
		switch {
		case !inside && (mutating[class] || strings.HasPrefix(path, c.Home)):
			c.W.Violate("outside", "%s made a %s call on %s, which does not belong to %s", opString(e.Op), class, c.rel(path), c.rel(h))
		case inside && mutating[class] && isQuery(e.Op.K):
			c.W.Violate("query-wrote", "the query %s made a %s call on %s", opString(e.Op), class, c.rel(path))
		}
	}
}

func beforeAlone(c *Ctx, t *simrt.Task, e *Event) {
	c.Aux["cur"].(map[int]*Event)[t.ID] = e
}

func afterAlone(c *Ctx, t *simrt.Task, e *Event) {
	delete(c.Aux["cur"].(map[int]*Event), t.ID)
	if c.W.Fail != nil || strings.HasPrefix(e.Op.K, "!") {
		return
	}
	if e.Op.K == "open" {
		c.noSpurious(e)
		return
	}
	if e.Op.K == "open-driver" {
		if e.OK() {
			c.W.Violate("no-driver", "%s succeeded", e)
		}
		return
	}
	if e.Op.K == "tpath" {
		want := strings.Join(append(append([]string{}, e.Op.S[2:]...), "sentinel-1", "sentinel-2"), "/")
		if e.Res.S != want {
			c.W.Violate("caller-changed", "%s: the path of the caller, %s, became %s", e, want, e.Res.S)
		}
		return
	}
	c.judge(e)
	if e.Hard > 0 && e.OK() {
		c.Hit("a call that met a fault and succeeded")
	}
	if e.Hard > 0 && !e.OK() {
		c.Hit("a call that met a fault and failed")
	}
}

// ---- several databases in one process ----

func genC09(g *Gen) {
	n := g.Range(2, 4)
	for i := 0; i < n; i++ {
		h := "@/" + g.Pick("bbs", "x", "home") + idx("", i)
		p := g.populate(h, true)
		open := op("open", h, g.Pick("file://"+h, "file://"+h+"?UTMP=1993", h))
		ops := []simrt.Op{open}
		for k := g.Range(2, 7); k > 0; k-- {
			switch {
			case g.Chance(0.12):
				ops = append(ops, open)
			case g.Chance(0.04):
				ops = append(ops, op("open-driver", h, "nodriver", "file://"+h))
			default:
				ops = append(ops, g.anyOp(p, g.Chance(0.4)))
			}
		}
		if i == 0 && g.Chance(0.1) { // and very many others
			at := g.Range(1, len(ops))
			var many []simrt.Op
			for k := int(g.PickI(5, 15, 40, 130)); k > 0; k-- {
				many = append(many, op("open", "@/"+idx("o", k), "@/"+idx("o", k)))
			}
			ops = append(append(append([]simrt.Op{}, ops[:at]...), many...), ops[at:]...)
		}
		g.Task(0, 0, ops...)
	}
	g.Schedule(true)
	if g.Chance(0.3) {
		g.FaultMix(0, 0.5, 0.5)
	}
}

// ---- hygiene ----

func genC10(g *Gen) {
	p := g.populate("@", true)
	for i, n := 0, g.Range(1, 3); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(2, 8); k > 0; k-- {
			ops = append(ops, g.anyOp(p, g.Chance(0.5)))
		}
		g.Task(i, 0, ops...)
	}
	var ops []simrt.Op
	for k := g.Range(1, 4); k > 0; k-- {
		ops = append(ops, g.anyOp(p, g.Chance(0.6)))
	}
	g.Task(2, 1, ops...)
	g.Schedule(false)
	g.FaultMix(0.2, 0.5, 0.1)
}

func afterC10(c *Ctx, t *simrt.Task, e *Event) {
	if l := c.W.K.OpenFDs(t.Proc); len(l) > 0 {
		c.W.Violate("left-open", "after %s these files are still open: %s", e, c.rel(strings.Join(l, " ")))
		return
	}
	if l := c.W.K.Locks(t.Proc); len(l) > 0 {
		c.W.Violate("left-locked", "after %s these locks are still held: %s", e, c.rel(strings.Join(l, " ")))
		return
	}
	if n := c.W.K.LiveMappings(t.Proc); n > 0 {
		c.W.Violate("left-mapped", "after %s %d mappings are left", e, n)
	}
	if e.Hard > 0 && !e.OK() {
		c.Hit("a call that met a fault and failed")
	}
}

// genAttach opens, makes and closes shared memory and mapped files while the
// calls for that fail.
func genAttach(g *Gen) {
	l := shmLayout{align: 4, users: int64(g.Range(1, 5)), idlen: 12, bits: 2}
	var setup []simrt.Op
	for i := 0; i < 2; i++ {
		g.File(fmt.Sprintf("@/dump%d", i), string(g.Bytes(g.Range(1, 9000))))
		setup = append(setup, opI("shm-create", []int64{int64(700 + i), int64(g.Range(1, 9000))}, idx("own", i)))
	}
	g.File("@/empty", "")
	g.Task(2, -1, setup...)
	for t, nt := 0, g.Range(1, 2); t < nt; t++ {
		var ops []simrt.Op
		var open []string
		for k := g.Range(3, 10); k > 0; k-- {
			h := fmt.Sprintf("h%d", g.Uniq())
			conn := g.Pick("@/dump0", "file:@/dump1", "shmkey:700", "shmkey:701", "file:@/empty", "@/none", "shmkey:702")
			switch g.N(6) {
			case 0:
				ops = append(ops, opI("mmap-create", []int64{g.PickI(1, 4096, 5000, 0, -1)}, h, fmt.Sprintf("@/new%d", g.N(3))))
			case 1:
				ops = append(ops, opI("shm-create", []int64{int64(g.Range(700, 704)), int64(g.Range(1, 9000))}, h))
			case 2:
				ops = append(ops, opI("pcache-open", l.args(), h, conn))
			case 3:
				if len(open) > 0 {
					i := g.N(len(open))
					ops = append(ops, op("cache-close", open[i]))
					open = append(open[:i], open[i+1:]...)
				}
				continue
			default:
				ops = append(ops, op("cache-open", h, conn))
			}
			open = append(open, h)
		}
		for _, h := range open {
			ops = append(ops, op("cache-close", h))
		}
		g.Task(t, 0, ops...)
	}
	g.Schedule(false)
	g.P.Gen.Kinds = map[string]float64{}
	for _, k := range []string{"eio", "enomem", "emfile", "eacces", "keepmap", "noctl"} {
		if g.Chance(0.6) {
			g.P.Gen.Kinds[k] = []float64{0.05, 0.15, 0.4}[g.N(3)]
		}
	}
	g.P.Gen.Max = g.Range(1, 10)
}

// afterAttach: a process has no more mappings and files than it was given
// handles it has not closed.
func afterAttach(c *Ctx, t *simrt.Task, e *Event) {
	key := idx("open", e.Proc)
	open, _ := c.Aux[key].(map[string]bool)
	if open == nil {
		open = map[string]bool{}
		c.Aux[key] = open
	}
	h := e.Op.S[0]
	if e.Op.K == "cache-close" {
		if open[h] && e.Hard > 0 {
			c.Hit("a mapping that could not be undone")
		}
		delete(open, h)
	} else if e.OK() {
		if e.Op.K != "shm-create" {
			open[h] = !strings.HasPrefix(e.Op.S[1], "shmkey:")
		} else {
			open[h] = false
		}
	} else if e.Hard > 0 {
		c.Hit("an attempt that failed on the way")
	}
	files := 0
	for _, f := range open {
		if f {
			files++
		}
	}
	if l := c.W.K.OpenFDs(t.Proc); len(l) > files {
		c.W.Violate("left-open", "after %s, with %d mapped files in use, these are open: %s", e, files, c.rel(strings.Join(l, " ")))
	}
	if n := c.W.K.LiveMappings(t.Proc); n > len(open) {
		c.W.Violate("left-mapped", "after %s, with %d objects in use, there are %d mappings", e, len(open), n)
	}
	if l := c.W.K.Locks(t.Proc); len(l) > 0 {
		c.W.Violate("left-locked", "after %s these locks are still held: %s", e, c.rel(strings.Join(l, " ")))
	}
}

func checkC10(c *Ctx) { c.allReturned() }

// ---- persistent failures ----

func genC18(g *Gen) {
	n := g.Range(1, 2)
	for i := 0; i < n; i++ {
		h := "@/h" + idx("", i)
		p := g.populate(h, true)
		var ops []simrt.Op
		for k := g.Range(2, 6); k > 0; k-- {
			ops = append(ops, g.anyOp(p, g.Chance(0.65)))
		}
		g.Task(i, 0, ops...)
		ops = nil
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, g.anyOp(p, g.Chance(0.5)))
		}
		g.Task(2, 1+i, ops...) // the failure is over
	}
	g.standing()
	g.Schedule(false)
}

// standing makes one or two kinds of calls fail all the time.
func (g *Gen) standing() {
	for k := g.Range(1, 2); k > 0; k-- {
		s := simrt.Standing{Call: g.Pick("open", "create", "create", "read", "write", "write", "stat", "flock", "unlink", "rename", "trunc", "getdents", "any", "chmod", "lseek", "close")}
		s.Path = g.Pick("", "", ".DIR", ".BRD", "/boards/", "/home/", ".PASSWDS")
		switch s.Call {
		case "flock":
			s.Errno = int(g.PickI(37, 12))
		case "create", "open":
			s.Errno = int(g.PickI(28, 13, 24, 23, 5, 30, 122))
		case "write":
			s.Errno = int(g.PickI(28, 5, 122))
		default:
			s.Errno = int(g.PickI(5, 13, 30))
		}
		g.P.Standing = append(g.P.Standing, s)
	}
	if g.Chance(0.2) {
		g.P.DiskFree = g.PickI(1, 20, 60, 130, 200, 300, 600)
	}
}

// together turns a scenario of several processes into one where something
// fails all the time.
func together(gen func(g *Gen)) func(g *Gen) {
	return func(g *Gen) {
		gen(g)
		if g.Chance(0.35) {
			if g.Chance(0.4) {
				g.P.Gen.Kinds, g.P.DiskFree = nil, 0
			}
			g.P.Standing = []simrt.Standing{{Call: g.Pick("flock", "flock", "fcntl"), Errno: int(g.PickI(37, 12, 95))}}
		} else {
			g.P.Gen.Kinds, g.P.DiskFree = nil, 0
			g.standing()
		}
	}
}

// afterStanding: where locks do not work nothing reports success that takes one.
func afterStanding(c *Ctx, t *simrt.Task, e *Event) {
	if e.OK() && e.Met("flock") {
		for _, s := range c.P.Standing {
			if s.Call == "flock" {
				c.W.Violate("unlocked", "%s although it could not lock what it used", e)
				return
			}
		}
	}
}

func afterC18(c *Ctx, t *simrt.Task, e *Event) {
	if afterAlone(c, t, e); c.W.Fail == nil {
		afterStanding(c, t, e)
	}
}

// ---- queries on a failing disk ----

func genC19(g *Gen) {
	p := g.populate("@", false)
	for i, n := 0, g.Range(1, 3); i < n; i++ {
		var ops []simrt.Op
		for k := g.Range(2, 5); k > 0; k-- {
			ops = append(ops, g.anyOp(p, false))
		}
		g.Task(i%2, 0, ops...)
	}
	g.Schedule(false)
	g.FaultMix(0, 0.55, 0.3)
}

// ---- confinement ----

func genC20(g *Gen) {
	n := g.Range(1, 3)
	for i := 0; i < n; i++ {
		h := "@/" + g.Pick("a", "bbs") + idx("", i)
		p := g.populate(h, true)
		var ops []simrt.Op
		for k := g.Range(3, 8); k > 0; k-- {
			if g.Chance(0.08) {
				ops = append(ops, op("tpath", h, p.boards[0], "D1", g.Pick("D2", "x")))
				continue
			}
			ops = append(ops, g.anyOp(p, g.Chance(0.6)))
		}
		g.Task(i%2, 0, ops...)
	}
	g.Schedule(g.Chance(0.3))
	g.FaultMix(0.05, 0.25, 0.1)
}
