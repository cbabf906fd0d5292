package main

import (
	"fmt"
	"strings"

	"simrt"
)

// C17: file locks, between the handles of this library and against other
// programs which lock the files of a BBS.

func init() {
	add("C17", &Scenario{Name: "handles", Gen: genC17, Check: checkC17})
	add("C17", &Scenario{Name: "readers", Gen: genC17readers, Check: checkC17readers})
	add("C17", &Scenario{Name: "outsider", Gen: genC17out, Before: beforeC17out, After: afterC17out, Check: checkC17out})
}

func genC17(g *Gen) {
	files := []string{"@/lk0", "@/lk1"}[:g.Range(1, 2)]
	if g.Chance(0.7) {
		g.File(files[0], "x")
	}
	naps := g.Chance(0.2)
	solo := g.Chance(0.3) // one process, several threads
	for t, nt := 0, g.Range(2, 5); t < nt; t++ {
		p := g.N(3)
		if solo {
			p = 0
		}
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			h, f := fmt.Sprintf("h%d", g.Uniq()), files[g.N(len(files))]
			ops = append(ops, op("lk-open", h, f))
			for j := g.Range(1, 3); j > 0; j-- {
				ops = append(ops, op(g.Pick("lk-lock", "lk-lock", "lk-rlock"), h))
				for w := g.N(3); w > 0; w-- { // some time
					ops = append(ops, op("lk-open", fmt.Sprintf("w%d", g.Uniq()), "@/other"))
				}
				if naps && g.Chance(0.5) {
					ops = append(ops, g.nap())
				}
				if g.Chance(0.2) { // conversion, or the same lock again
					ops = append(ops, op(g.Pick("lk-lock", "lk-rlock"), h))
				}
				if g.Chance(0.7) {
					ops = append(ops, op("lk-unlock", h))
					if g.Chance(0.1) {
						ops = append(ops, op("lk-unlock", h))
					}
				}
			}
			ops = append(ops, op("lk-close", h))
		}
		g.Task(p, 0, ops...)
	}
	var ops []simrt.Op
	for _, f := range files {
		// Readers share, whatever happened before, and closing unlocks.
		ops = append(ops, op("lk-open", "a"+f, f), op("lk-open", "b"+f, f), op("lk-rlock", "a"+f), op("lk-rlock", "b"+f), op("lk-unlock", "b"+f), op("lk-unlock", "a"+f),
			op("lk-lock", "a"+f), op("lk-unlock", "a"+f), op("lk-lock", "b"+f), op("lk-close", "b"+f), op("lk-lock", "a"+f), op("lk-close", "a"+f))
	}
	g.Task(2, 1, ops...)
	g.Schedule(true)
	g.FaultMix(0.25, 0.25, 0.25)
}

// nap: what holds a lock takes its time; one of a run may take long.
func (g *Gen) nap() simrt.Op {
	d := 17
	if g.napped {
		d = 6
	}
	g.napped = true
	return opI("!sleep", []int64{1e6 << uint(g.N(d))})
}

type hold struct {
	file     string
	ex       bool
	proc     int
	h        string
	from, to int
	e        *Event
}

func (h *hold) String() string {
	return fmt.Sprintf("%s (from %d to %d)", h.e, h.from, h.to)
}

// holds are the intervals in which handles certainly had a lock.
func holds(c *Ctx) []*hold {
	file := map[string]string{}
	cur := map[string]*hold{}
	var all []*hold
	for _, e := range c.Ev {
		if !strings.HasPrefix(e.Op.K, "lk-") {
			continue
		}
		k := idx(e.Op.S[0]+"/", e.Proc)
		if h := cur[k]; h != nil && e.Op.K != "lk-open" {
			h.to = e.Inv
			delete(cur, k)
		}
		if e.Op.K == "lk-open" && e.OK() {
			file[k] = e.Op.S[1]
		}
		if (e.Op.K == "lk-lock" || e.Op.K == "lk-rlock") && e.OK() {
			h := &hold{file: file[k], ex: e.Op.K == "lk-lock", proc: e.Proc, h: e.Op.S[0], from: e.Ret, to: 1 << 60, e: e}
			cur[k] = h
			all = append(all, h)
		}
	}
	for _, h := range all {
		if p := c.W.Proc(h.proc); p.Dead && h.to > p.DeadSeq {
			h.to = p.DeadSeq
		}
	}
	return all
}

func checkC17(c *Ctx) {
	if !c.allReturned() {
		return
	}
	for _, e := range c.Ev {
		if e.Res.Err == "harness: no such handle" {
			continue
		}
		if !c.noSpurious(e) {
			return
		}
	}
	l := holds(c)
	for i, a := range l {
		for _, b := range l[:i] {
			if a.file != b.file || a.from >= b.to || b.from >= a.to {
				continue
			}
			if a.ex || b.ex {
				c.W.Violate("not-exclusive", "%s and %s overlap", a, b)
				return
			}
			c.Hit("readers shared a lock")
		}
	}
}

// ---- readers ----

// genC17readers: several wait for a shared lock until a writer is done, or find
// the file free, and then keep it for long.
func genC17readers(g *Gen) {
	f := "@/lk0"
	g.File(f, "x")
	other := func(max int) (ops []simrt.Op) {
		for w := g.N(max); w > 0; w-- {
			ops = append(ops, op("lk-open", fmt.Sprintf("w%d", g.Uniq()), "@/other"))
		}
		return
	}
	sleep := func(ns int64) simrt.Op { return opI("!sleep", []int64{ns}) }
	solo := g.Chance(0.3)
	proc := func() int {
		if solo {
			return 0
		}
		return g.N(3)
	}
	if g.Chance(0.8) {
		ops := append([]simrt.Op{op("lk-open", "w", f), op("lk-lock", "w")}, other(4)...)
		ops = append(ops, sleep(1e6<<uint(g.N(6))))
		if g.Chance(0.7) {
			ops = append(ops, op("lk-unlock", "w"))
		}
		g.Task(proc(), 0, append(ops, op("lk-close", "w"))...)
	}
	for t, nt := 0, g.Range(2, 4); t < nt; t++ {
		h := fmt.Sprintf("r%d", t)
		ops := []simrt.Op{op("lk-open", h, f)}
		if g.Chance(0.8) {
			ops = append(ops, sleep(1e5+int64(g.N(1000))))
		}
		ops = append(append(ops, other(3)...), op("lk-rlock", h), sleep(readFor), op("lk-unlock", h), op("lk-close", h))
		g.Task(proc(), 0, ops...)
	}
	g.Schedule(true)
	g.FaultMix(0, 0.2, 0)
}

const readFor = 20e9

// checkC17readers: whoever asks for a shared lock while others read, and nobody
// writes or waits to write, gets it at once.
func checkC17readers(c *Ctx) {
	checkC17(c)
	if c.W.Fail != nil {
		return
	}
	for _, e := range c.events("lk-lock") {
		for _, h := range holds(c) {
			if !h.ex && h.from < e.Ret && e.Inv < h.to {
				return // a writer came late
			}
		}
	}
	l := holds(c)
	for _, a := range l {
		for _, e := range c.events("lk-rlock") {
			if !a.ex && e != a.e && e.Inv < a.from && a.to < e.Ret {
				c.W.Violate("not-shared", "%s had to wait until %s ended", e, a)
				return
			}
			if !a.ex && e != a.e && a.to < never && e.Ret < a.to && a.from < e.Ret {
				c.Hit("readers read together")
			}
		}
	}
}

// ---- other programs ----

func genC17out(g *Gen) {
	b := "test"
	g.File("@/.BRD", g.boardSeed(append(g.boardIDs(g.Range(1, 3)), b)...))
	n := g.Range(1, 4)
	g.File(boardDir(b)+"/.DIR", g.articleSeed(n))
	art := "M.1500000000.A.123"
	g.File(boardDir(b)+"/"+art, g.content("i", 400))
	files := []string{"@/.BRD", boardDir(b) + "/.DIR", boardDir(b) + "/" + art}
	f := files[g.N(3)]
	naps := g.Chance(0.2)
	for t, nt := 0, g.Range(1, 2); t < nt; t++ {
		var ops []simrt.Op
		for k := g.Range(1, 2); k > 0; k-- {
			h := fmt.Sprintf("h%d", g.Uniq())
			ops = append(ops, op("lk-open", h, f), op("lk-lock", h))
			for w := g.Range(2, 12); w > 0; w-- {
				ops = append(ops, op("lk-open", fmt.Sprintf("w%d", g.Uniq()), "@/other"))
			}
			if naps {
				ops = append(ops, g.nap())
			}
			if g.Chance(0.3) {
				ops = append(ops, op("lk-close", h))
			} else {
				ops = append(ops, op("lk-unlock", h), op("lk-close", h))
			}
		}
		g.Task(2, 0, ops...)
	}
	for t, nt := 0, g.Range(1, 3); t < nt; t++ {
		var ops []simrt.Op
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, g.lockedOp(f, b, art, n))
		}
		g.Task(g.N(2), 0, ops...)
	}
	g.Task(3, 1, g.lockedOp(f, b, art, n), g.lockedOp(f, b, art, n))
	g.Schedule(true)
	g.FaultMix(0.15, 0.15, 0.3)
	if g.P.Gen.Kinds["short"] == 0 && g.Chance(0.5) {
		g.P.Sched = simrt.SchedSpec{Kind: "random", P: 0.9}
	}
}

func (g *Gen) lockedOp(f, b, art string, n int) simrt.Op {
	switch {
	case strings.HasSuffix(f, ".BRD"):
		switch g.N(4) {
		case 0, 1:
			return op("boards", "@")
		case 2:
			return g.addBoardOp()
		}
		return opI("rmboard", []int64{0}, "@")
	case strings.HasSuffix(f, ".DIR"):
		switch g.N(4) {
		case 0, 1:
			return op("list", "@", b)
		case 2:
			return g.addOp(b)
		}
		return opI("update", []int64{int64(g.N(n)), int64(g.N(100))}, "@", b, "recommend", "")
	}
	switch g.N(4) {
	case 0, 1:
		return op("read", "@", b, art)
	case 2:
		return opB("append", g.comment(), "@", b, art)
	}
	return opB("write", g.content("x", 300), "@", b, art)
}

func beforeC17out(c *Ctx, t *simrt.Task, e *Event) { c.lockedState(e, false) }
func afterC17out(c *Ctx, t *simrt.Task, e *Event)  { c.lockedState(e, true) }

// lockedState notes what a file holds when it is locked and compares it when it
// is unlocked.
func (c *Ctx) lockedState(e *Event, after bool) {
	if !strings.HasPrefix(e.Op.K, "lk-") {
		return
	}
	k := e.Op.S[0]
	switch {
	case e.Op.K == "lk-open" && !strings.HasPrefix(k, "w"):
		c.Aux["file "+k] = e.Op.S[1]
	case e.Op.K == "lk-lock" && after && e.OK():
		c.Aux["state "+k] = c.locked(k)
	case (e.Op.K == "lk-unlock" || e.Op.K == "lk-close") && !after:
		if s, ok := c.Aux["state "+k]; ok && s != c.locked(k) && c.W.Fail == nil {
			c.W.Violate("changed-while-locked", "%s was changed while another program had locked it", c.rel(c.Aux["file "+k].(string)))
		}
		delete(c.Aux, "state "+k)
	}
}

func (c *Ctx) locked(k string) string {
	b, ok := c.W.K.ReadFile(c.Aux["file "+k].(string))
	if !ok {
		return absent
	}
	return string(b)
}

func checkC17out(c *Ctx) {
	if !c.allReturned() {
		return
	}
	l := holds(c)
	for _, e := range c.Ev {
		if strings.HasPrefix(e.Op.K, "lk-") || e.Op.K == "!sleep" || !e.Done {
			continue
		}
		// A removal at a position that is gone fails.
		if e.Op.K != "rmboard" && !c.noSpurious(e) {
			return
		}
		if !e.OK() {
			continue
		}
		for _, h := range l {
			if h.from < e.Inv && e.Ret < h.to {
				c.W.Violate("ignored-lock", "%s although another program had locked the file: %s", e, h)
				return
			}
			if h.from < e.Ret && e.Inv < h.to {
				c.Hit("a call waited for another program")
			}
		}
	}
}
