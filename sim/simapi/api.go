// Package simapi is what the simulator's clients see of the code under test:
// operations by name and neutral results. Each copy of the repository has its
// own implementation (the glue), so that several simulated processes with
// separate package state can run in one operating system process.
package simapi

// Rec is a record as the library presents it.
type Rec struct {
	Kind  string   `json:"k,omitempty"`
	ID    string   `json:"id,omitempty"` // file name, board ID or user ID
	Owner string   `json:"o,omitempty"`
	Date  string   `json:"d,omitempty"`
	Title string   `json:"t,omitempty"`
	S     []string `json:"s,omitempty"`
	N     []int64  `json:"n,omitempty"`
	Sub   []Rec    `json:"sub,omitempty"`
	Nil   bool     `json:"nil,omitempty"`
}

// Res is the outcome of one operation.
type Res struct {
	Err   string // "" when the call reported success
	Panic string
	Recs  []Rec
	Raw   []byte
	S     string
	N     []int64
	NilR  bool // the result was nil
}

func (r *Res) OK() bool { return r.Err == "" && r.Panic == "" }

// Env is what an implementation may use.
type Env struct {
	Home string
}

// Op is an operation and its arguments.
type Op struct {
	K string
	S []string
	I []int64
	B []byte
}

// Session is one client (thread) of a process.
type Session interface {
	Do(op *Op) Res
}

// Process is one simulated process running one copy of the code.
type Process interface {
	NewSession() Session
}
