// Package simrt is the deterministic simulator: a seeded scheduler, a simulated
// kernel (files, locks, shared memory, clock, randomness) and a fault injector.
// Every system call of simulated code is routed here by the standard library
// overlay; nothing simulated code does reaches the real operating system.
package simrt

import "encoding/json"

// Op is one client operation of a simulated program.
type Op struct {
	K string   `json:"k"`
	S []string `json:"s,omitempty"`
	I []int64  `json:"i,omitempty"`
	B []byte   `json:"b,omitempty"`
}

// TaskPlan is a simulated thread: the operations it performs, in order.
type TaskPlan struct {
	Proc  int  `json:"proc"`            // simulated process
	Phase int  `json:"phase,omitempty"` // phases run one after another
	Ops   []Op `json:"ops"`
}

// Preempt hands the processor to task To when task T is at its local step S.
type Preempt struct {
	T  int `json:"t"`
	S  int `json:"s"`
	To int `json:"to"`
}

// Fault is injected at the N-th system call of task T.
type Fault struct {
	T    int    `json:"t"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
	Call string `json:"call,omitempty"` // informative: what was hit
}

// Jump moves the wall clock when task T reads it for the N-th time.
type Jump struct {
	T     int   `json:"t"`
	N     int   `json:"n"`
	Delta int64 `json:"delta_ns"`
}

// FaultSpec drives fault generation while a plan is explored.
type FaultSpec struct {
	Kinds   map[string]float64 `json:"kinds,omitempty"` // kind -> probability per eligible call
	Max     int                `json:"max,omitempty"`
	Phase   int                `json:"phase,omitempty"` // phase in which faults may be injected
	Path    string             `json:"path,omitempty"`  // only calls on paths with this suffix
	JumpP   float64            `json:"jump_p,omitempty"`
	JumpMin int64              `json:"jump_min,omitempty"`
	JumpMax int64              `json:"jump_max,omitempty"`
}

// SchedSpec drives schedule generation while a plan is explored.
type SchedSpec struct {
	Kind  string  `json:"kind,omitempty"` // random, pct, seq
	P     float64 `json:"p,omitempty"`    // preemption probability per system call
	PY    float64 `json:"py,omitempty"`   // preemption probability per statement
	Depth int     `json:"depth,omitempty"`
	Len   int     `json:"len,omitempty"`
}

// Standing is a fault that stays: every call of the given kind on the path
// fails from the start of the faulty phase until it ends.
type Standing struct {
	Call  string `json:"call"` // open, create, read, write, stat, flock, unlink, rename, trunc, getdents, mmap, any
	Path  string `json:"path,omitempty"`
	Errno int    `json:"errno"`
	Phase int    `json:"phase,omitempty"`
	Name  string `json:"name,omitempty"`
}

// Plan is a complete, replayable description of one simulated execution.
type Plan struct {
	Prop     string            `json:"prop"`
	Scenario string            `json:"scenario"`
	Seed     uint64            `json:"seed"`
	Params   map[string]int64  `json:"params,omitempty"`
	Text     map[string]string `json:"text,omitempty"`
	Files    map[string][]byte `json:"files,omitempty"` // the disk at the start; "@" is the BBS home; a trailing slash makes a directory
	Tasks    []TaskPlan        `json:"tasks"`

	Clock    int64  `json:"clock_ns"` // wall clock at the start
	Tick     int64  `json:"tick_ns"`  // added per simulated step
	RandSeed uint64 `json:"rand_seed"`
	RandLow  bool   `json:"rand_low,omitempty"`  // low-entropy randomness (collisions)
	DiskFree int64  `json:"disk_free,omitempty"` // bytes left on the disk in the faulty phase (0: plenty)
	FDLimit  int    `json:"fd_limit,omitempty"`
	Chunk    int64  `json:"chunk,omitempty"` // reads return at most this many bytes (0: no limit)

	Standing []Standing `json:"standing,omitempty"`

	// Generation settings, used when Fixed is false.
	Fixed bool      `json:"fixed"`
	Gen   FaultSpec `json:"gen,omitempty"`
	Sched SchedSpec `json:"sched,omitempty"`

	// Decisions: consumed when Fixed, produced otherwise.
	Preempts []Preempt `json:"preempts,omitempty"`
	Faults   []Fault   `json:"faults,omitempty"`
	Jumps    []Jump    `json:"jumps,omitempty"`

	Prelude []uint64 `json:"prelude,omitempty"` // seeds run before, in the same real process

	// Filled in for replay files.
	Violation string   `json:"violation,omitempty"`
	Class     string   `json:"class,omitempty"`
	Hash      string   `json:"hash,omitempty"`
	Trace     []string `json:"trace,omitempty"`
}

// Clone returns a deep copy.
func (p *Plan) Clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (p *Plan) P(k string) int64 { return p.Params[k] }

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng starts a stream of its own for every seed: the seed is mixed first,
// or neighbouring seeds would give the same stream with a shift.
func NewRng(seed uint64) *Rng { return &Rng{s: mix64(mix64(seed+0x1234567) ^ 0x9e3779b97f4a7c15)} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int      { return a + r.N(b-a+1) }
func (r *Rng) F() float64              { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Chance(p float64) bool   { return p > 0 && r.F() < p }
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) PickI(s ...int64) int64  { return s[r.N(len(s))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
