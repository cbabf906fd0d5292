package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// writeOverlay generates, from the installed toolchain's own sources, the
// replacement files that route system calls, the clock, randomness, process
// exit and HTTP serving of simulated goroutines to the simulator. Goroutines
// that are not simulated behave as ever.
func writeOverlay(goroot, dir string) (string, error) {
	src := filepath.Join(goroot, "src")
	repl := map[string]string{}
	put := func(rel, content string) error {
		f := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(f, []byte(content), 0644); err != nil {
			return err
		}
		repl[filepath.Join(src, rel)] = f
		return nil
	}
	edit := func(rel string, pairs ...string) error {
		b, err := os.ReadFile(filepath.Join(src, rel))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if !strings.Contains(s, pairs[i]) {
				return fmt.Errorf("overlay: %s does not contain %q", rel, pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		return put(rel, s)
	}
	steps := []func() error{
		func() error {
			return edit("syscall/syscall_linux.go",
				"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
				`//go:linkname runtime_simInBubble runtime.simInBubble
func runtime_simInBubble() bool

// SimHook is consulted by every system call of a simulated goroutine.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil && runtime_simInBubble() {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	if SimHook != nil && (trap == SYS_MUNMAP || trap == SYS_SHMDT) {
		return 0, 0, 0 // a finalizer of a process that is no more
	}
	return simReal3(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil && runtime_simInBubble() {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return simReal6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func simReal3(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`,
				"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(",
				"//go:uintptrkeepalive\n//go:nosplit\nfunc simReal6(")
		},
		func() error {
			return put("runtime/zsim.go", `package runtime

import _ "unsafe"

var simRandOn bool
var simRandLow bool
var simRandState uint64
var simRandSeed uint64
var simRandLast uint64
var simRandStuck int

//go:linkname simInBubble
func simInBubble() bool { return getg().bubble != nil }

//go:linkname simGoid
func simGoid() uint64 { return getg().goid }

//go:linkname simParentGoid
func simParentGoid() uint64 { return getg().parentGoid }

//go:linkname simSetRand
func simSetRand(on bool, seed uint64, low bool) {
	simRandOn, simRandSeed, simRandState, simRandLow, simRandStuck = on, seed, seed, low, 0
}

//go:nosplit
func simMix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandNext() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simMix(simRandState)
	if simRandLow {
		// Sometimes one value comes again and again.
		if simRandStuck > 0 {
			simRandStuck--
			return simRandLast
		}
		if z>>58 == 63 {
			simRandStuck, simRandLast = int(z>>8&63), z
			return z
		}
		if z>>60 < 11 {
			return simMix(simRandSeed + z&3)
		}
	}
	return z
}
`)
		},
		func() error {
			// No thread loses the processor because its time is up.
			return edit("runtime/proc.go", "			preemptone(pp)\n			// If pp is in a syscall", "			if !simRandOn {\n				preemptone(pp)\n			}\n			// If pp is in a syscall")
		},
		func() error {
			return edit("runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n",
				"	if simRandOn && getg().bubble != nil {\n		return simRandNext()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n")
		},
		func() error {
			return edit("internal/runtime/maps/runtime_alg.go", "uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15 + 77*uint64(i))",
				"key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(2*i+1)")
		},
		func() error {
			return edit("runtime/runtime2.go", "	waitReasonChanReceiveNilChan:    true,\n",
				`	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
	waitReasonSemacquire:            true,
	waitReasonChanReceiveNilChan:    true,
`)
		},
		func() error {
			return put("testing/synctest/zsim.go", `package synctest

import "internal/synctest"

func SimRun(f func()) { synctest.Run(f) }
func SimWait()        { synctest.Wait() }
`)
		},
		func() error {
			return edit("time/time.go", "func Now() Time {\n",
				`func Now() Time {
	if SimNow != nil && runtimeIsBubbled() {
		if ns, ok := SimNow(); ok {
			return Unix(0, ns)
		}
	}
`, "// Now returns the current local time.\n", "", "//go:linkname Now\n", `// SimNow is the simulated clock.
var SimNow func() (int64, bool)

// SimBubbleNow is the time of the simulated timers.
func SimBubbleNow() int64 { return runtimeNano() }

//go:linkname Now
`)
		},
		func() error {
			return edit("os/proc.go", "func Exit(code int) {\n", `func Exit(code int) {
	if SimExit != nil && SimExit(code) {
		return
	}
`, "// Exit causes", `// SimExit ends a simulated process.
var SimExit func(code int) bool

// Exit causes`)
		},
		func() error {
			return edit("math/rand/rand.go", "func globalRand() *Rand {\n", `func globalRand() *Rand {
	if SimProc != nil {
		if p := SimProc(); p > 0 {
			if r := simRands[p]; r != nil {
				return r
			}
		}
	}
`, "	orig := globalRandGenerator.Load()\n", `	if SimProc != nil {
		if p := SimProc(); p > 0 {
			r := New(new(lockedSource))
			r.Seed(seed)
			simRands[p] = r
			return
		}
	}
	orig := globalRandGenerator.Load()
`, "var randautoseed = ", `// SimProc identifies the simulated process: each has its own global source.
var SimProc func() int
var simRands = map[int]*Rand{}

// SimWarm does what is done once only, so that the first run is like the others.
func SimWarm() {
	randseednop.Value()
	randseednop.IncNonDefault()
	randautoseed.Value()
	globalRand()
}

// SimReset forgets the sources of simulated processes.
func SimReset() {
	for k := range simRands {
		delete(simRands, k)
	}
}

var randautoseed = `)
		},
		func() error {
			return edit("net/http/server.go", "func (s *Server) ListenAndServe() error {\n", `func (s *Server) ListenAndServe() error {
	if err, ok := simServe(s.Handler); ok {
		return err
	}
`, "func (s *Server) Serve(l net.Listener) error {\n", `func (s *Server) Serve(l net.Listener) error {
	if err, ok := simServe(s.Handler); ok {
		return err
	}
`, "func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {\n", `func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {
	if err, ok := simServe(s.Handler); ok {
		return err
	}
`, "func Handle(pattern string, handler Handler) {\n", `func Handle(pattern string, handler Handler) {
	if simHandle(pattern, handler) {
		return
	}
`, "func HandleFunc(pattern string, handler func(ResponseWriter, *Request)) {\n", `func HandleFunc(pattern string, handler func(ResponseWriter, *Request)) {
	if simHandle(pattern, HandlerFunc(handler)) {
		return
	}
`)
		},
		func() error {
			// Nobody sends a simulated process signals.
			return edit("os/signal/signal.go", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if c == nil {\n		panic(\"os/signal: Notify using nil channel\")\n	}\n",
				`func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if os.SimExit != nil && runtime_simInBubble() {
		return
	}
`, "var handlers struct {", `//go:linkname runtime_simInBubble runtime.simInBubble
func runtime_simInBubble() bool

var handlers struct {`, "\t\"sync\"\n", "\t\"sync\"\n\t_ \"unsafe\"\n")
		},
		func() error {
			return edit("net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
				`func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if SimListen != nil && SimListen() {
		return simListener{}, nil
	}
`)
		},
		func() error {
			return put("net/zsim.go", `package net

// SimListen says whether the caller is simulated; nobody connects to it.
var SimListen func() bool

type simListener struct{}

func (simListener) Accept() (Conn, error) { return nil, ErrClosed }
func (simListener) Close() error          { return nil }
func (simListener) Addr() Addr            { return &TCPAddr{IP: IPv4(127, 0, 0, 1), Port: 80} }
`)
		},
		func() error {
			return put("net/http/zsim.go", `package http

import (
	"runtime"
	"strings"
)

// SimServe receives the handler a simulated server would serve.
var SimServe func(h Handler) (error, bool)

// SimMux is the default mux of the simulated process of the caller.
var SimMux func() *ServeMux

type simRoute struct {
	pattern string
	h       Handler
}

var simRoutes = map[string][]simRoute{} // by the copy of the code whose init adds them

// SimDefaultMux is the default mux as a process that runs this copy starts with.
func SimDefaultMux(pkg string) *ServeMux {
	m := NewServeMux()
	for _, r := range simRoutes[pkg] {
		m.Handle(r.pattern, r.h)
	}
	return m
}

func simHandle(pattern string, h Handler) bool {
	if SimMux != nil {
		if m := SimMux(); m != nil {
			m.Handle(pattern, h)
			return true
		}
	}
	if pc, _, _, ok := runtime.Caller(2); ok {
		if pkg, _, ok := strings.Cut(runtime.FuncForPC(pc).Name(), "/"); ok && strings.HasPrefix(pkg, "gobbs") {
			simRoutes[pkg] = append(simRoutes[pkg], simRoute{pattern, h})
			return true
		}
	}
	return false
}

func simServe(h Handler) (error, bool) {
	if SimServe == nil {
		return nil, false
	}
	if h == nil || h == Handler(DefaultServeMux) {
		if SimMux != nil {
			if m := SimMux(); m != nil {
				h = m
			}
		}
	}
	return SimServe(h)
}
`)
		},
	}
	for _, f := range steps {
		if err := f(); err != nil {
			return "", err
		}
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": repl})
	if err != nil {
		return "", err
	}
	name := filepath.Join(dir, "overlay.json")
	return name, os.WriteFile(name, b, 0644)
}
