package simrt

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing/synctest"
	"time"
	_ "unsafe"
)

//go:linkname goid runtime.simGoid
func goid() uint64

//go:linkname parentGoid runtime.simParentGoid
func parentGoid() uint64

//go:linkname inBubble runtime.simInBubble
func inBubble() bool

//go:linkname setRand runtime.simSetRand
func setRand(on bool, seed uint64, low bool)

const (
	stNew = iota
	stParked
	stRunning
	stBlocked
	stDone
	stZombie
)

// Task is a simulated thread.
type Task struct {
	ID    int
	Proc  *Proc
	Name  string
	Panic string

	goid      uint64
	state     int
	wake      chan struct{}
	cond      func() bool
	why       string
	dying     bool
	unwinding bool
	stalled   bool
	until     int64 // stalled until this simulated time
	slept     int64 // the time at the last step
	child     bool
	parent    *Task // who started it
	program   bool  // runs a program's main function
	prio      int

	steps, sysn, nown int
	opSteps, opSys    int
	opBytes           int
	opBusy, naps      int
	opAt              int64
	opHard, opFaults  int
	hardOn            []string // the kinds of calls that met them
	pre               []Preempt
	curOp             string
}

// Proc is a simulated operating system process.
type Proc struct {
	ID       int
	Name     string
	Args     []string
	Dead     bool
	DeadSeq  int // when it died, on the scale of Seq
	Exited   bool
	Served   bool // a thread of its serves requests, and the main function need not end
	ExitCode int
	Stdout   []byte
	Stderr   []byte // what came last
	cwd      string
	fds      map[int]*OpenFile
	shm      map[uintptr]*shmAttach
	w        *World
}

// Failure is a violation found while a run proceeds.
type Failure struct {
	Class  string
	Detail string
}

// Stats describes what a run exercised.
type Stats struct {
	Steps    int
	Syscalls int
	Switches int
	Faults   map[string]int
	Jumps    int
	SimNs    int64
	Blocked  int
}

// World is one simulated execution.
type World struct {
	Plan  *Plan
	K     *Kernel
	Tasks []*Task
	Stats Stats
	Fail  *Failure
	Phase int
	Trace []string // human readable event log (only when Tracing)

	Tracing     bool
	Unsupported string
	Tainted     bool // a goroutine could not be unwound; the OS process must not be reused
	Leaked      bool // so could a thread of a simulated process that died, which does not matter to the run
	OnSys       func(t *Task, class, path string)

	procs   map[int]*Proc
	byGoid  map[uint64]*Task
	ctl     uint64
	cur     *Task
	rng     *Rng
	frng    *Rng
	hash    uint64
	ihash   uint64
	wall    int64
	bubble0 time.Time
	nfault  int
	killing bool
	seq     int
	pcts    map[int]bool
	preMap  map[[2]int]int
	fltMap  map[[2]int][]Fault
	jmpMap  map[[2]int]int64
	noSched bool
	actors  int
	bytes   int
}

// W is the world being simulated, nil when none is.
var W *World

const (
	maxOpSys    = 20000
	moreOpSys   = 200000 // at most, in addition, as more is read and written
	maxNaps     = 3000000
	maxOpNs     = int64(time.Hour)
	maxOpSteps  = 8000000
	maxRunSteps = 30000000
	byteSteps   = 64 // what is allowed in addition for every byte read or written
)

func NewWorld(p *Plan) *World {
	w := &World{Plan: p, procs: map[int]*Proc{}, byGoid: map[uint64]*Task{}}
	w.Stats.Faults = map[string]int{}
	w.K = newKernel(w)
	w.rng = NewRng(p.Seed ^ 0x5eed5eed)
	w.frng = NewRng(p.Seed ^ 0xfa017fa0)
	w.hash = 14695981039346656037
	w.ihash = w.hash
	w.wall = p.Clock
	w.preMap = map[[2]int]int{}
	w.fltMap = map[[2]int][]Fault{}
	w.jmpMap = map[[2]int]int64{}
	if p.Fixed {
		for _, x := range p.Preempts {
			w.preMap[[2]int{x.T, x.S}] = x.To
		}
		for _, f := range p.Faults {
			w.fltMap[[2]int{f.T, f.N}] = append(w.fltMap[[2]int{f.T, f.N}], f)
		}
		for _, j := range p.Jumps {
			w.jmpMap[[2]int{j.T, j.N}] = j.Delta
		}
	} else {
		p.Preempts, p.Faults, p.Jumps = nil, nil, nil
	}
	return w
}

// Hash identifies the execution; IHash identifies the interleaving of system
// calls on shared files.
func (w *World) Hash() uint64  { return w.hash }
func (w *World) IHash() uint64 { return w.ihash }

func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	return h
}

func (w *World) note(format string, a ...interface{}) {
	if w.Tracing && len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, fmt.Sprintf(format, a...))
	}
}

// Note adds a line to the readable trace.
func (w *World) Note(format string, a ...interface{}) { w.note(format, a...) }

// Violate records a violation; the first one wins.
func (w *World) Violate(class, format string, a ...interface{}) {
	if w.Fail == nil {
		w.Fail = &Failure{Class: class, Detail: fmt.Sprintf(format, a...)}
		w.note("VIOLATION %s: %s", class, w.Fail.Detail)
	}
}

// Seq returns a global event number (real-time order of invocations/returns).
func (w *World) Seq() int { w.seq++; return w.seq }

func (w *World) Proc(id int) *Proc {
	p := w.procs[id]
	if p == nil {
		p = &Proc{ID: id, Name: fmt.Sprintf("p%d", id), cwd: "/cwd", fds: map[int]*OpenFile{}, shm: map[uintptr]*shmAttach{}, w: w}
		w.procs[id] = p
	}
	return p
}

// Run executes body on the controller goroutine inside a fresh bubble.
func (w *World) Run(body func()) {
	defer func() {
		W = nil
		setRand(false, 0, false)
		rand.SimReset()
		if r := recover(); r != nil {
			if strings.Contains(fmt.Sprint(r), "deadlock") {
				w.Tainted = w.Tainted || !w.Leaked
				return
			}
			panic(r)
		}
	}()
	rand.SimReset()
	synctest.SimRun(func() {
		w.ctl = goid()
		W = w
		setRand(true, w.Plan.RandSeed, w.Plan.RandLow)
		body()
		W = nil
	})
}

// Spawn is a task to be run in a phase.
type Spawn struct {
	ID   int
	Proc *Proc
	Name string
	Fn   func(t *Task)
}

// RunTasks runs a group of tasks to completion under the scheduler.
func (w *World) RunTasks(phase int, sp []Spawn) {
	w.Phase = phase
	var group []*Task
	for _, s := range sp {
		t := w.newTask(s.ID, s.Proc, s.Name)
		group = append(group, t)
		fn := s.Fn
		go func() {
			t.goid = goid()
			w.byGoid[t.goid] = t
			t.state = stParked
			<-t.wake
			defer w.finish(t)
			if t.dying {
				return
			}
			growStack(0)
			debug.SetPanicOnFault(true)
			fn(t)
		}()
		synctest.SimWait() // one at a time
	}
	if w.Plan.Sched.Kind == "pct" && !w.Plan.Fixed {
		perm := w.rng.Perm(len(group))
		for i, t := range group {
			t.prio = 1000 + perm[i]
		}
		if w.pcts == nil {
			w.pcts = map[int]bool{}
			n := w.Plan.Sched.Len
			if n < 8 {
				n = 8
			}
			for i := 0; i < w.Plan.Sched.Depth; i++ {
				w.pcts[w.rng.N(n)] = true
			}
		}
	}
	w.control()
	w.cur = nil
}

func growStack(n int) byte {
	var buf [32 << 10]byte
	for i := 0; i < len(buf); i += 4096 {
		buf[i] = byte(n + i)
	}
	if n < 6 {
		return growStack(n+1) + buf[4096]
	}
	return buf[0]
}

func (w *World) newTask(id int, p *Proc, name string) *Task {
	t := &Task{ID: id, Proc: p, Name: name, wake: make(chan struct{}, 1)}
	t.opAt = time.SimBubbleNow()
	t.slept = t.opAt
	w.Tasks = append(w.Tasks, t)
	return t
}

func (w *World) alive() (n int) {
	for _, t := range w.Tasks {
		if t.state == stDone || t.state == stZombie || (t.child && t.state == stRunning) {
			continue // a child that is not parked has ended (or waits for others)
		}
		n++
	}
	return
}

func (w *World) runnable() []*Task {
	var r, st []*Task
	for _, t := range w.Tasks {
		ok := t.state == stParked || (t.state == stBlocked && (t.dying || t.cond()))
		if !ok {
			continue
		}
		if t.dying {
			return []*Task{t}
		}
		if t.until > time.SimBubbleNow() {
			continue
		}
		if t.stalled && t.until == 0 {
			st = append(st, t)
		} else {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return st
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func find(r []*Task, id int) *Task {
	for _, t := range r {
		if t.ID == id {
			return t
		}
	}
	return nil
}

// choose picks the next task after from stopped running (blocked or finished).
func (w *World) choose(from, key int, r []*Task) *Task {
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 {
		return r[0]
	}
	if w.Plan.Fixed {
		if to, ok := w.preMap[[2]int{from, key}]; ok {
			if t := find(r, to); t != nil {
				return t
			}
		}
		return r[0]
	}
	t := r[0]
	switch w.Plan.Sched.Kind {
	case "pct":
		for _, x := range r {
			if x.prio > t.prio {
				t = x
			}
		}
	case "seq":
	default:
		t = r[w.rng.N(len(r))]
	}
	if t != r[0] {
		w.Plan.Preempts = append(w.Plan.Preempts, Preempt{T: from, S: key, To: t.ID})
	}
	return t
}

func (w *World) resume(t *Task) {
	t.state = stRunning
	w.cur = t
	w.Stats.Switches++
	w.hash = mix(w.hash, uint64(t.ID)+77)
	t.wake <- struct{}{}
}

// control drives the group until every task has ended.
func (w *World) control() {
	idle := time.Duration(0)
	step := time.Millisecond
	n := 0
	for {
		synctest.SimWait()
		if w.alive() == 0 {
			return
		}
		if r := w.runnable(); len(r) > 0 {
			n++
			t := w.choose(-1-w.Phase, n, r)
			idle, step = 0, time.Millisecond
			w.resume(t)
			continue
		}
		// Nobody can run: perhaps somebody sleeps. Let simulated time pass.
		if !w.killing && w.onlyDead() {
			// They wait for something that only dead threads could have done.
			for _, t := range w.Tasks {
				if t.state != stDone && t.Proc.Dead {
					t.state = stZombie
				}
			}
			w.Leaked = true
			continue
		}
		if idle > 30*time.Minute || w.killing {
			if !w.killing && w.onlyServers() {
				for _, t := range w.Tasks {
					if t.state != stDone {
						t.state = stZombie
					}
				}
				w.Leaked = true
				continue
			}
			if !w.killing {
				var who []string
				for _, t := range w.Tasks {
					if t.state != stDone && t.state != stZombie {
						who = append(who, fmt.Sprintf("task %d (%s in %s, %s)", t.ID, t.Proc.Name, t.curOp, t.why))
					}
				}
				w.Violate("stuck", "no task can make progress: %s", strings.Join(who, "; "))
				w.killAll()
				continue
			}
			for _, t := range w.Tasks {
				if t.state != stDone {
					if !t.child {
						w.Tainted = true
					}
					t.state = stZombie
				}
			}
			return
		}
		for _, t := range w.Tasks {
			if d := time.Duration(t.until - time.SimBubbleNow()); t.state == stParked && d > 0 && d < step {
				step = d
			}
		}
		time.Sleep(step)
		idle += step
		if step < 5*time.Minute {
			step *= 2
		}
	}
}

// onlyServers says whether all threads that have not ended belong to programs that serve.
func (w *World) onlyServers() bool {
	for _, t := range w.Tasks {
		if t.state == stDone || t.state == stZombie || t.child {
			continue
		}
		if !t.program || !t.Proc.Served {
			return false
		}
	}
	return true
}

// onlyDead says whether all threads that have not ended belong to dead processes.
func (w *World) onlyDead() bool {
	for _, t := range w.Tasks {
		if t.state == stDone || t.state == stZombie || (t.child && t.state == stRunning) {
			continue
		}
		if !t.Proc.Dead {
			return false
		}
	}
	return true
}

func (w *World) killAll() {
	w.killing = true
	for _, t := range w.Tasks {
		if t.state != stDone {
			t.dying = true
		}
	}
}

func (w *World) finish(t *Task) {
	if r := recover(); r != nil {
		t.Panic = fmt.Sprint(r)
		st := string(debug.Stack())
		w.Violate("panic", "%s panicked in %s: %v\n%s", t.Proc.Name, t.curOp, r, trimStack(st))
	}
	t.state = stDone
	w.note("task %d ends", t.ID)
	if w.cur == t {
		if n := w.choose(t.ID, -1000000-t.steps, w.runnable()); n != nil {
			w.resume(n)
		} else {
			w.cur = nil
		}
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines) && len(out) < 12; i++ {
		if strings.Contains(lines[i], "/gobbs") || strings.Contains(lines[i], "go-bbs") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	return strings.Join(out, "\n")
}

// self returns the task running on this goroutine, nil for foreign goroutines.
func (w *World) self() *Task {
	id := goid()
	if t := w.cur; t != nil && t.goid == id {
		return t
	}
	if id == w.ctl || !inBubble() {
		return nil
	}
	if t := w.byGoid[id]; t != nil {
		return t
	}
	// A goroutine started by simulated code.
	var p *Proc
	q := w.byGoid[parentGoid()]
	if q == nil {
		q = w.cur
	}
	if q != nil {
		p = q.Proc
	} else {
		p = w.Proc(0)
	}
	w.actors++
	t := w.newTask(1000+w.actors, p, "child")
	t.goid = id
	t.child = true
	t.parent = q
	t.state = stRunning
	w.byGoid[id] = t
	return t
}

// park waits until the scheduler resumes t.
func (w *World) park(t *Task) {
	t.state = stParked
	<-t.wake
	w.checkDying(t)
}

func (w *World) checkDying(t *Task) {
	if t.dying && !t.unwinding {
		t.unwinding = true
		runtime.Goexit()
	}
}

// switchTo hands over to target and waits.
func (w *World) switchTo(t, target *Task) {
	t.state = stParked
	w.resume(target)
	<-t.wake
	w.checkDying(t)
}

// block waits until cond holds.
func (w *World) block(t *Task, why string, cond func() bool) {
	if cond() {
		return
	}
	w.Stats.Blocked++
	t.state = stBlocked
	t.cond = cond
	t.why = why
	w.note("task %d waits: %s", t.ID, why)
	if n := w.choose(t.ID, -t.steps, w.runnable()); n != nil {
		w.resume(n)
	} else {
		w.cur = nil
	}
	<-t.wake
	t.why = ""
	w.checkDying(t)
}

// Pause lets ns of simulated time pass for t.
func (t *Task) Pause(ns int64) {
	w := t.Proc.w
	t.steps++
	t.until = time.SimBubbleNow() + ns
	t.state = stParked
	if x := w.choose(t.ID, -2000000-t.steps, w.runnable()); x != nil {
		w.resume(x)
	} else {
		w.cur = nil
	}
	<-t.wake
	t.until = 0
	w.checkDying(t)
}

// Y is called before every statement of the instrumented code.
func Y() {
	w := W
	if w == nil {
		return
	}
	t := w.self()
	if t == nil {
		return
	}
	w.step(t, false)
}

// step accounts for one step of t and lets the scheduler decide.
func (w *World) step(t *Task, sys bool) {
	if t.dying {
		if t.unwinding {
			t.opSteps++
			if t.opSteps > 3*maxOpSteps {
				panic("simulated thread does not unwind")
			}
			return
		}
		w.checkDying(t)
	}
	if w.cur != t {
		w.park(t)
	}
	t.steps++
	t.opSteps++
	if now := time.SimBubbleNow(); now != t.slept { // time passes: this is no busy loop
		t.slept = now
		if t.naps++; t.naps < maxNaps {
			t.opSteps, t.opBusy = 0, 0
		}
	}
	w.Stats.Steps++
	if sys {
		t.sysn++
		t.opSys++
		t.opBusy++
		w.Stats.Syscalls++
	}
	w.wall += w.Plan.Tick
	if t.opSteps > maxOpSteps+byteSteps*t.opBytes || t.opBusy > maxOpSys+min(t.opBytes/64, moreOpSys) || t.slept-t.opAt > maxOpNs || w.Stats.Steps > maxRunSteps+byteSteps*w.bytes {
		w.Violate("nontermination", "%s did not finish %s within %d steps and %d system calls", t.Proc.Name, t.curOp, t.opSteps, t.opBusy)
		w.killAll()
		w.checkDying(t)
		return
	}
	if w.noSched {
		return
	}
	if w.Plan.Fixed {
		if len(w.preMap) == 0 {
			return
		}
		if to, ok := w.preMap[[2]int{t.ID, t.steps}]; ok {
			if x := find(w.runnable(), to); x != nil && x != t {
				w.note("switch %d -> %d", t.ID, x.ID)
				w.switchTo(t, x)
			}
		}
		return
	}
	s := &w.Plan.Sched
	var target *Task
	if sys {
		switch s.Kind {
		case "seq", "":
			return
		case "pct":
			if w.pcts[w.Stats.Syscalls] {
				t.prio = 500 - w.Stats.Syscalls
				for _, x := range w.runnable() {
					if x.prio > t.prio && (target == nil || x.prio > target.prio) {
						target = x
					}
				}
			}
		default:
			if !w.rng.Chance(s.P) {
				return
			}
			if r := w.runnable(); len(r) > 0 {
				target = r[w.rng.N(len(r))]
			}
		}
	} else {
		if s.PY == 0 || !w.rng.Chance(s.PY) {
			return
		}
		if r := w.runnable(); len(r) > 0 {
			target = r[w.rng.N(len(r))]
		}
	}
	if target == nil || target == t {
		return
	}
	w.Plan.Preempts = append(w.Plan.Preempts, Preempt{T: t.ID, S: t.steps, To: target.ID})
	w.note("switch %d -> %d", t.ID, target.ID)
	w.switchTo(t, target)
}

// moved accounts for n bytes read or written: working on them takes steps.
func (t *Task) moved(n int) {
	t.opBytes += n
	t.Proc.w.bytes += n
}

// BeginOp resets the per-operation budget.
func (t *Task) BeginOp(name string) {
	t.opSteps, t.opSys, t.opBusy, t.opBytes, t.naps, t.opHard, t.opFaults = 0, 0, 0, 0, 0, 0, 0
	t.opAt = time.SimBubbleNow()
	t.slept = t.opAt
	t.hardOn = nil
	t.curOp = name
}

// met counts an injected fault, for the operation that met it and for those
// which wait for it; a hard one may make the call fail.
func (t *Task) met(hard bool, on string) {
	for ; t != nil; t = t.parent {
		t.opFaults++
		if hard {
			t.opHard++
		}
		if on != "" {
			t.hardOn = append(t.hardOn, on)
		}
	}
}

// OpSyscalls is the number of system calls made since BeginOp.
func (t *Task) OpSyscalls() int { return t.opSys }
func (t *Task) Dying() bool     { return t.dying }

// OpHard counts the injected faults since BeginOp that may make a call fail;
// OpFaults counts all of them.
func (t *Task) OpHard() int   { return t.opHard }
func (t *Task) OpFaults() int { return t.opFaults }

// OpHardOn are the classes of the calls that met an injected hard fault.
func (t *Task) OpHardOn() []string { return t.hardOn }

// CurrentProc is the simulated process of the calling goroutine.
func CurrentProc() *Proc {
	if w := W; w != nil {
		if t := w.self(); t != nil {
			return t.Proc
		}
	}
	return nil
}

// Kill ends process p as kill -9 would: descriptors are closed, locks released,
// threads disappear; only what the kernel holds survives.
func (w *World) Kill(p *Proc, why string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.DeadSeq = w.Seq()
	w.note("%s dies: %s", p.Name, why)
	w.hash = mix(w.hash, uint64(p.ID)+0xdead)
	w.K.closeAll(p)
	for _, t := range w.Tasks {
		if t.Proc == p && t.state != stDone {
			t.dying = true
		}
	}
}

// Ended is what a main function panics with when its program ends.
type Ended struct {
	T    *Task
	Code int
}

// Program runs the main function of a program and returns its exit status.
func (t *Task) Program(main func()) (code int) {
	t.program = true
	defer func() {
		t.program = false
		if r := recover(); r != nil {
			e, ok := r.(Ended)
			if !ok || e.T != t {
				panic(r)
			}
			t.dying, t.unwinding = false, false
			code = e.Code
		}
	}()
	main()
	return 0
}

// EndProgram ends the program t runs; its deferred functions have no effect.
func (t *Task) EndProgram(code int) {
	t.Proc.w.note("%s: exit(%d)", t.Proc.Name, code)
	t.dying, t.unwinding = true, true
	panic(Ended{t, code})
}

// CurrentTask is the thread of the calling goroutine.
func CurrentTask() *Task {
	if w := W; w != nil {
		return w.self()
	}
	return nil
}

// Main says whether t runs a main function (and not a goroutine of it).
func (t *Task) Main() bool { return t.program }

// Goexit ends the calling task if its process is dead.
func (w *World) exitIfDead(t *Task) { w.checkDying(t) }

func init() {
	syscall.SimHook = sysHook
	time.SimNow = func() (int64, bool) {
		w := W
		if w == nil {
			return 0, false
		}
		t := w.self()
		if t == nil {
			return 0, false
		}
		return w.readClock(t), true
	}
	os.SimExit = func(code int) bool {
		w := W
		if w == nil {
			return false
		}
		t := w.self()
		if t == nil {
			return false
		}
		p := t.Proc
		if t.program && !t.dying {
			t.EndProgram(code)
		}
		if t.child && p.Served && !t.dying { // it ended because the simulation does
			runtime.Goexit()
		}
		if !t.dying {
			p.Exited = true
			p.ExitCode = code
			w.Kill(p, fmt.Sprintf("exit(%d)", code))
		}
		t.unwinding = true
		runtime.Goexit()
		return true
	}
	rand.SimWarm()
	rand.SimProc = func() int {
		w := W
		if w == nil {
			return 0
		}
		t := w.self()
		if t == nil {
			return 0
		}
		return t.Proc.ID + 1
	}
}

func (w *World) readClock(t *Task) int64 {
	if t.dying {
		return w.wall
	}
	t.nown++
	p := w.Plan
	if p.Fixed {
		if d, ok := w.jmpMap[[2]int{t.ID, t.nown}]; ok {
			w.wall += d
			w.Stats.Jumps++
			w.note("clock jumps by %v", time.Duration(d))
		}
	} else if p.Gen.JumpP > 0 && w.frng.Chance(p.Gen.JumpP) {
		span := p.Gen.JumpMax - p.Gen.JumpMin
		d := p.Gen.JumpMin
		if span > 0 {
			d += int64(w.frng.U64() % uint64(span))
		}
		p.Jumps = append(p.Jumps, Jump{T: t.ID, N: t.nown, Delta: d})
		w.wall += d
		w.Stats.Jumps++
		w.note("clock jumps by %v", time.Duration(d))
	}
	return w.wall + int64(time.SimBubbleNow()-bubbleStart)
}

const bubbleStart = 946684800000000000

// Wall is the simulated wall clock without side effects.
func (w *World) Wall() int64 { return w.wall + int64(time.SimBubbleNow()-bubbleStart) }

// SetWall moves the simulated wall clock (harness use).
func (w *World) SetWall(ns int64) { w.wall = ns - int64(time.SimBubbleNow()-bubbleStart) }

// Args is what os.Args reads as in instrumented code.
func Args() []string {
	if w := W; w != nil {
		if t := w.self(); t != nil && t.Proc.Args != nil {
			return t.Proc.Args
		}
	}
	return os.Args
}
