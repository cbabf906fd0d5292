package main

import (
	"fmt"
	"hash/fnv"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	glue0 "gobbs0/zsimglue"
	glue1 "gobbs1/zsimglue"
	glue2 "gobbs2/zsimglue"
	"simapi"
	"simrt"
)

// Event is one operation of the recorded history.
type Event struct {
	Task, Proc, Phase, Idx int
	Op                     *simrt.Op // with the home substituted
	Res                    simapi.Res
	Inv, Ret               int
	Done                   bool // the call returned
	Hard                   int  // injected faults that may make it fail
	Faults                 int  // all injected faults
	HardOn                 []string
	WallInv, WallRet       int64
	Before, After          map[string]string // storage, when the scenario records it
}

func (e *Event) OK() bool { return e.Done && e.Res.OK() }

// Met says whether a call of one of these classes met a hard fault.
func (e *Event) Met(classes ...string) bool {
	for _, h := range e.HardOn {
		for _, c := range classes {
			if h == c {
				return true
			}
		}
	}
	return false
}

func (e *Event) String() string {
	r := "never returned"
	if e.Done {
		r = "ok"
		if e.Res.Panic != "" {
			r = "panic " + e.Res.Panic
		} else if e.Res.Err != "" {
			r = "error " + e.Res.Err
		}
	}
	return fmt.Sprintf("task %d (process %d) %s: %s", e.Task, e.Proc, opString(e.Op), r)
}

func opString(o *simrt.Op) string {
	var a []string
	for _, s := range o.S {
		a = append(a, fmt.Sprintf("%q", s))
	}
	for _, i := range o.I {
		a = append(a, fmt.Sprint(i))
	}
	if o.B != nil {
		s := o.B
		if len(s) > 24 {
			a = append(a, fmt.Sprintf("%q...(%d bytes)", s[:24], len(o.B)))
		} else {
			a = append(a, fmt.Sprintf("%q", s))
		}
	}
	return o.K + "(" + strings.Join(a, ", ") + ")"
}

// Ctx is one execution.
type Ctx struct {
	W    *simrt.World
	P    *simrt.Plan
	Sc   *Scenario
	Home string
	Ev   []*Event
	Init map[string]string // storage at the start
	Dirs map[string]bool   // directories at the start
	Aux  map[string]interface{}
	http map[int]http.Handler
	mux  map[int]*http.ServeMux
	proc map[int]simapi.Process
	Hits map[string]int
}

// Hit counts that a rare situation was reached.
func (c *Ctx) Hit(s string) { c.Hits[s]++ }

// Scenario is a family of executions deciding one property.
type Scenario struct {
	Name      string
	Weight    int
	Gen       func(g *Gen)
	Prepare   func(c *Ctx)
	Before    func(c *Ctx, t *simrt.Task, e *Event)
	After     func(c *Ctx, t *simrt.Task, e *Event)
	Check     func(c *Ctx)
	AllowExit bool
	Snap      bool // record the storage before and after every operation
}

var props = map[string][]*Scenario{}

func add(prop string, s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	props[prop] = append(props[prop], s)
}

func scenario(prop, name string) *Scenario {
	for _, s := range props[prop] {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Gen builds a plan.
type Gen struct {
	*simrt.Rng
	P        *simrt.Plan
	Thorough bool
	uniq     int
	napped   bool
}

func makePlan(prop string, seed uint64, thorough bool) *simrt.Plan {
	r := simrt.NewRng(seed)
	scs := props[prop]
	tot := 0
	for _, s := range scs {
		tot += s.Weight
	}
	x := r.N(tot)
	var sc *Scenario
	for _, s := range scs {
		if x -= s.Weight; x < 0 {
			sc = s
			break
		}
	}
	p := &simrt.Plan{Prop: prop, Scenario: sc.Name, Seed: seed, Params: map[string]int64{}, Text: map[string]string{}, Files: map[string][]byte{}}
	p.Clock = 1600000000e9 + int64(r.N(1e9))*1e9/1000
	if r.Chance(0.01) {
		p.Clock = r.PickI(2147483646e9, 4294967294e9, 4102444800e9, 86400e9, 999999998e9)
	}
	p.Tick = r.PickI(0, 1000, 100000, 2000000)
	p.RandSeed = r.U64()
	g := &Gen{Rng: r, P: p, Thorough: thorough}
	sc.Gen(g)
	g.limitChunk()
	return p
}

// Run outcome.
type Outcome struct {
	Plan    *simrt.Plan
	Fail    *simrt.Failure
	Hash    uint64
	IHash   uint64
	Stats   simrt.Stats
	Trace   []string
	Unsup   string
	Tainted bool
	Ops     int
	OpsDone int
	Hits    map[string]int
	Conc    bool
}

var execs int

func newProcess(id int) simapi.Process {
	switch id {
	case 0:
		return glue0.New()
	case 1:
		return glue1.New()
	}
	return glue2.New()
}

var saved []savedVar

type savedVar struct {
	copy    int
	at, val reflect.Value
}

// copied is v, with maps and slices of its own.
func copied(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Map:
		if !v.IsNil() && v.Len() < 1000 {
			m := reflect.MakeMapWithSize(v.Type(), v.Len())
			for it := v.MapRange(); it.Next(); {
				m.SetMapIndex(it.Key(), it.Value())
			}
			return m
		}
	case reflect.Slice:
		if !v.IsNil() && v.Len() < 1000 {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			return s
		}
	}
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

// freshProcesses gives the package-level variables of every copy of the
// repository the values they have when a process starts.
func freshProcesses() {
	if saved == nil {
		for i, l := range [][]interface{}{glue0.Vars(), glue1.Vars(), glue2.Vars()} {
			for _, p := range l {
				v := reflect.ValueOf(p).Elem()
				saved = append(saved, savedVar{i, v, copied(v)})
			}
		}
	}
	for i := 0; i < 3; i++ {
		freshCopy(i)
	}
}

func freshCopy(n int) {
	for _, s := range saved {
		if s.copy == n {
			s.at.Set(copied(s.val))
		}
	}
	resetFlags(n)
}

func resetFlags(proc int) {
	switch proc {
	case 0:
		glue0.ResetFlags()
	case 1:
		glue1.ResetFlags()
	default:
		glue2.ResetFlags()
	}
}

func sub(home, s string) string {
	if strings.HasPrefix(s, "@") {
		return home + s[1:]
	}
	if i := strings.Index(s, "=@"); i > 0 {
		return s[:i+1] + home + s[i+2:]
	}
	if strings.HasPrefix(s, "file://@") || strings.HasPrefix(s, "file:@") {
		return strings.Replace(s, "@", home, 1)
	}
	return s
}

func execute(p *simrt.Plan, trace bool) *Outcome {
	execs++
	freshProcesses()
	sc := scenario(p.Prop, p.Scenario)
	if sc == nil {
		panic("no scenario " + p.Prop + "/" + p.Scenario)
	}
	w := simrt.NewWorld(p)
	w.Tracing = trace
	c := &Ctx{W: w, P: p, Sc: sc, Home: fmt.Sprintf("/h/%06d", execs%1000000), Aux: map[string]interface{}{}, http: map[int]http.Handler{}, mux: map[int]*http.ServeMux{}, proc: map[int]simapi.Process{}, Hits: map[string]int{}}
	w.K.MkdirAll("/cwd")
	w.K.MkdirAll("/tmp")
	w.K.MkdirAll(c.Home)
	var names []string
	for f := range p.Files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		b := p.Files[f]
		old := age(p.Seed, f)
		f = sub(c.Home, f)
		if strings.HasSuffix(f, "/") {
			w.K.MkdirAll(f)
		} else {
			w.K.WriteFile(f, b)
			w.K.Age(f, old)
		}
	}
	if sc.Prepare != nil {
		sc.Prepare(c)
	}
	c.Init = w.K.Walk()
	c.Dirs = w.K.Dirs()
	phases := map[int]bool{}
	for _, t := range p.Tasks {
		phases[t.Phase] = true
	}
	var order []int
	for ph := range phases {
		order = append(order, ph)
	}
	sort.Ints(order)
	http.SimServe = func(h http.Handler) (error, bool) {
		if simrt.W == nil {
			return nil, false
		}
		t := simrt.CurrentTask()
		if t == nil {
			return nil, false
		}
		c.http[t.Proc.ID] = h
		if t.Main() { // it would go on for ever
			t.EndProgram(0)
		}
		t.Proc.Served = true
		return http.ErrServerClosed, true
	}
	http.SimMux = func() *http.ServeMux {
		pr := simrt.CurrentProc()
		if pr == nil {
			return nil
		}
		if c.mux[pr.ID] == nil {
			c.mux[pr.ID] = http.SimDefaultMux(fmt.Sprint("gobbs", min(pr.ID, 2)))
		}
		return c.mux[pr.ID]
	}
	net.SimListen = func() bool { return simrt.CurrentProc() != nil }
	simT0 := w.Wall()
	w.Run(func() {
		for _, ph := range order {
			w.K.SetActive(ph == p.Gen.Phase)
			var sp []simrt.Spawn
			for i := range p.Tasks {
				if p.Tasks[i].Phase != ph {
					continue
				}
				id := i
				tp := &p.Tasks[i]
				if w.Proc(tp.Proc).Dead { // what comes afterwards runs in a process that is alive
					x := *tp
					tp = &x
					for tp.Proc = 0; w.Proc(tp.Proc).Dead; tp.Proc++ {
					}
				}
				sp = append(sp, simrt.Spawn{ID: id, Proc: w.Proc(tp.Proc), Name: fmt.Sprint(id), Fn: func(t *simrt.Task) { c.runTask(t, tp) }})
			}
			w.RunTasks(ph, sp)
			if w.Fail != nil {
				break
			}
		}
		w.K.SetActive(false)
	})
	if !sc.AllowExit && w.Fail == nil {
		for i := 0; i < 64; i++ {
			if pr := w.Proc(i); pr.Exited {
				op := "?"
				for _, e := range c.Ev {
					if e.Proc == i && !e.Done {
						op = opString(e.Op)
					}
				}
				w.Violate("exit", "process %d was ended with status %d by %s", i, pr.ExitCode, op)
			}
		}
	}
	for _, e := range c.Ev {
		if e.Done && strings.HasPrefix(e.Res.Err, "harness:") && strings.Contains(e.Res.Err, "unknown operation") {
			panic(e.Res.Err)
		}
	}
	if w.Fail == nil && sc.Check != nil && w.Unsupported == "" && !w.Tainted {
		sc.Check(c)
	}
	o := &Outcome{Plan: p, Fail: w.Fail, Hash: w.Hash(), IHash: w.IHash(), Stats: w.Stats, Trace: w.Trace, Unsup: w.Unsupported, Tainted: w.Tainted || w.Leaked, Hits: c.Hits}
	o.Stats.SimNs = w.Wall() - simT0
	for _, e := range c.Ev {
		o.Ops++
		if e.Done {
			o.OpsDone++
		}
	}
	act := map[int]bool{}
	for _, e := range c.Ev {
		if e.Phase == 0 {
			act[e.Task] = true
		}
	}
	o.Conc = len(act) > 1
	w.K.Release()
	return o
}

func (c *Ctx) runTask(t *simrt.Task, tp *simrt.TaskPlan) {
	pr := c.proc[tp.Proc]
	if pr == nil {
		if tp.Proc > 2 { // its copy of the code was one of a process that is dead
			freshCopy(2)
		}
		pr = newProcess(tp.Proc)
		c.proc[tp.Proc] = pr
	}
	s := pr.NewSession()
	for i := range tp.Ops {
		if c.W.Fail != nil {
			return
		}
		o := tp.Ops[i]
		op := &simrt.Op{K: o.K, I: o.I, B: o.B}
		for _, x := range o.S {
			op.S = append(op.S, sub(c.Home, x))
		}
		e := &Event{Task: t.ID, Proc: tp.Proc, Phase: tp.Phase, Idx: i, Op: op}
		c.Ev = append(c.Ev, e)
		t.BeginOp(opString(op))
		c.W.Note("task %d: %s", t.ID, opString(op))
		if c.Sc.Before != nil {
			c.Sc.Before(c, t, e)
		}
		if c.Sc.Snap {
			e.Before = c.W.K.Walk()
		}
		e.WallInv = c.W.Wall()
		e.Inv = c.W.Seq()
		if strings.HasPrefix(op.K, "!") {
			c.special(t, e)
		} else if op.K == "serve" {
			if c.http[tp.Proc] != nil { // started again
				c.W.K.CloseAll(t.Proc)
				freshCopy(min(tp.Proc, 2))
				delete(c.mux, tp.Proc)
			}
			t.Program(func() { c.do(s, e) })
		} else {
			c.do(s, e)
		}
		e.Ret = c.W.Seq()
		e.WallRet = c.W.Wall()
		e.Hard = t.OpHard()
		e.HardOn = t.OpHardOn()
		e.Faults = t.OpFaults()
		e.Done = true
		if c.Sc.Snap {
			e.After = c.W.K.Walk()
		}
		c.W.Note("%s", e)
		if c.Sc.After != nil {
			c.Sc.After(c, t, e)
		}
	}
}

// do calls the code under test; a panic there is a violation of any property.
func (c *Ctx) do(s simapi.Session, e *Event) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(simrt.Ended); ok {
				panic(r)
			}
			e.Res.Panic = fmt.Sprint(r)
			if _, ok := r.(runtime.Error); ok || true {
				c.W.Violate("panic", "%s panicked: %v\n%s", opString(e.Op), r, frames(string(debug.Stack())))
			}
		}
	}()
	e.Res = s.Do(&simapi.Op{K: e.Op.K, S: e.Op.S, I: e.Op.I, B: e.Op.B})
}

func frames(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines) && len(out) < 8; i++ {
		l := strings.TrimSpace(lines[i])
		if strings.HasPrefix(l, "gobbs") && !strings.Contains(l, "zsimglue") {
			out = append(out, "  in "+l)
		}
	}
	return strings.Join(out, "\n")
}

// toolNames fills in the names which are not known beforehand: $last is the
// article this process made last, $new the newest of the board.
func (c *Ctx) toolNames(e *Event) {
	for i, s := range e.Op.S {
		name := ""
		switch s {
		case "$last":
			name, _ = c.Aux[fmt.Sprint("last", e.Proc)].(string)
		case "$new":
			for _, a := range e.Op.S {
				if strings.HasPrefix(a, "M.") {
					name = a
				}
			}
			board := ""
			for j, a := range e.Op.S {
				if a == "--board" && j+1 < len(e.Op.S) {
					board = e.Op.S[j+1]
				}
			}
			d := c.path(boardDir(board)) + "/"
			for _, p := range keys(c.W.K.Walk()) {
				if _, old := c.Init[p]; !old && strings.HasPrefix(p, d+"M.") {
					name = strings.TrimPrefix(p, d)
				}
			}
		default:
			continue
		}
		if name == "" {
			name = "M.1.A.404"
		}
		e.Op.S[i] = name
	}
}

func (c *Ctx) special(t *simrt.Task, e *Event) {
	switch e.Op.K {
	case "!http": // method, target, content type, body
		h := c.http[e.Proc]
		if h == nil {
			e.Res.Err = "harness: no server"
			return
		}
		req := httptest.NewRequest(e.Op.S[0], e.Op.S[1], strings.NewReader(e.Op.S[3]))
		if e.Op.S[2] != "" {
			req.Header.Set("Content-Type", e.Op.S[2])
		}
		for i := 4; i+1 < len(e.Op.S); i += 2 {
			req.Header.Set(e.Op.S[i], e.Op.S[i+1])
		}
		rec := httptest.NewRecorder()
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.Res.Panic = fmt.Sprint(r)
					c.W.Violate("panic", "request %s %s panicked: %v\n%s", e.Op.S[0], e.Op.S[1], r, frames(string(debug.Stack())))
				}
			}()
			h.ServeHTTP(rec, req)
		}()
		e.Res.N = []int64{int64(rec.Code)}
		e.Res.Raw = rec.Body.Bytes()
	case "!tool": // bbstool with these arguments
		pr := c.W.Proc(e.Proc)
		c.toolNames(e)
		pr.Args = append([]string{"bbstool"}, e.Op.S...)
		n := len(pr.Stdout)
		op := &simrt.Op{K: "bbstool"}
		resetFlags(e.Proc)
		ev := &Event{Op: op}
		freshCopy(min(e.Proc, 2))
		pr.Stderr = nil
		code := t.Program(func() { c.do(c.proc[e.Proc].NewSession(), ev) })
		c.W.K.CloseAll(pr)
		e.Res = ev.Res
		e.Res.N = []int64{int64(code)}
		e.Res.Raw = append([]byte(nil), pr.Stderr...)
		e.Res.S = string(pr.Stdout[n:])
		if _, f, ok := strings.Cut(e.Res.S, "\nnew filename: "); ok {
			c.Aux[fmt.Sprint("last", e.Proc)] = strings.TrimSpace(f)
		}
	case "!fill": // another program replaces the file
		c.W.K.Remove(e.Op.S[0])
		c.W.K.WriteFile(e.Op.S[0], e.Op.B)
	case "!over": // another program writes over the file, as long as nobody locks it
		c.W.K.WriteFile(e.Op.S[0], e.Op.B)
		c.W.K.Touch(e.Op.S[0])
	case "!rm":
		c.W.K.Remove(e.Op.S[0])
	case "!sleep": // this thread does nothing for some time
		t.Pause(e.Op.I[0])
	case "!clock":
		c.W.SetWall(c.W.Wall() + e.Op.I[0])
	default:
		panic("unknown special " + e.Op.K)
	}
}

// age is how long ago a file was last changed when a run starts: a moment,
// minutes, weeks or years.
func age(seed uint64, f string) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed, f)
	x := h.Sum64()
	unit := []int64{0, 1e9, 60e9, 86400e9, 30 * 86400e9}[x%5]
	return unit * int64(x>>8%60)
}
