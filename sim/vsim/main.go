// Command vsim builds the simulator around the current tree of the repository
// and runs checks and replays.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verif   = flag.String("verif", "/verif", "location of the verification tree")
	repo    = flag.String("repo", "/repo", "location of the repository")
	propF   = flag.String("prop", "", "property to check")
	tier    = flag.String("tier", "", "quick or thorough")
	mode    = flag.String("mode", "check", "check, replay, build, selftest, run")
	fileF   = flag.String("file", "", "replay file")
	workF   = flag.String("work", "", "scratch directory to keep (default: a new one, removed at the end)")
	seconds = flag.Int("seconds", 0, "search time, seconds")
	jobs    = flag.Int("jobs", 0, "worker processes")
)

func die(code int, format string, a ...interface{}) {
	fmt.Printf(format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var scratch string

func cleanup() {
	if scratch != "" && *workF == "" {
		os.RemoveAll(scratch)
	}
}

func run(dir string, env []string, timeout time.Duration, name string, args ...string) (string, string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		return "", "", err
	}
	err := wait(c, timeout, nil)
	return o.String(), e.String(), err
}

var errHang = errors.New("no answer")

// wait ends a process that takes too long, or whose watch stands still; such
// a process first prints where its threads are.
func wait(c *exec.Cmd, timeout time.Duration, watch func() string) error {
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	end := time.Now().Add(timeout)
	last, since := "", time.Now()
	for {
		select {
		case err := <-done:
			return err
		case <-time.After(500 * time.Millisecond):
		}
		hung := time.Now().After(end)
		if watch != nil {
			if s := watch(); s != last {
				last, since = s, time.Now()
			} else if time.Since(since) > hangTime {
				hung = true
			}
		}
		if hung {
			c.Process.Signal(syscall.SIGQUIT)
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				c.Process.Kill()
				<-done
			}
			return errHang
		}
	}
}

const hangTime = 20 * time.Second

// hangLine tells where in the code under test a process that gave no answer
// was running, if it was.
func hangLine(e string) string {
	for _, g := range strings.Split(e, "\n\n") {
		l := strings.SplitN(g, "\n", 2)
		if len(l) < 2 || !strings.HasPrefix(l[0], "goroutine ") || !strings.Contains(l[0], "[running") {
			continue
		}
		for _, f := range strings.Split(l[1], "\n") {
			if i := strings.Index(f, "gobbs"); i >= 0 && !strings.HasPrefix(f, "\t") {
				if j := strings.IndexByte(f, '('); j > 0 {
					// the package path names the copy of the code
					return clip(f, 200)
				}
			}
		}
	}
	return ""
}

func must(err error) {
	if err != nil {
		die(2, "vsim: %v", err)
	}
}

// build assembles the worker from the repository's working tree.
func build() string {
	if *workF != "" {
		scratch = *workF
		must(os.MkdirAll(scratch, 0755))
	} else {
		d, err := os.MkdirTemp("", "vsim-")
		must(err)
		scratch = d
	}
	goroot, _, err := run("/", nil, time.Minute, "go", "env", "GOROOT")
	must(err)
	goroot = strings.TrimSpace(goroot)
	od := filepath.Join(scratch, "overlay")
	must(os.MkdirAll(od, 0755))
	ov, err := writeOverlay(goroot, od)
	must(err)
	sim := filepath.Join(*verif, "sim")
	for i := 0; i < 3; i++ {
		d := filepath.Join(scratch, fmt.Sprintf("gobbs%d", i))
		must(os.RemoveAll(d))
		if err := cloneRepo(*repo, d, fmt.Sprintf("gobbs%d", i), filepath.Join(sim, "glue"), filepath.Join(goroot, "src/flag/flag.go")); err != nil {
			die(2, "vsim: %v", err)
		}
	}
	wd := filepath.Join(scratch, "worker")
	must(os.RemoveAll(wd))
	must(os.MkdirAll(wd, 0755))
	srcs, _ := filepath.Glob(filepath.Join(sim, "worker", "*.go"))
	for _, s := range srcs {
		b, err := os.ReadFile(s)
		must(err)
		must(os.WriteFile(filepath.Join(wd, filepath.Base(s)), b, 0644))
	}
	// The worker needs whatever the repository needs.
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	var reqs []string
	in := false
	for _, l := range strings.Split(string(mod), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
		case in && t == ")":
			in = false
		case in && t != "":
			reqs = append(reqs, t)
		case strings.HasPrefix(t, "require "):
			reqs = append(reqs, strings.TrimPrefix(t, "require "))
		}
	}
	g := "module worker\n\ngo 1.25\n\ngodebug randseednop=0\n\nrequire (\n"
	for _, m := range []string{"gobbs0", "gobbs1", "gobbs2", "simrt", "simapi"} {
		g += "\t" + m + " v0.0.0\n"
	}
	for _, r := range reqs {
		g += "\t" + r + "\n"
	}
	g += ")\n\nreplace (\n"
	for i := 0; i < 3; i++ {
		g += fmt.Sprintf("\tgobbs%d => %s/gobbs%d\n", i, scratch, i)
	}
	g += fmt.Sprintf("\tsimrt => %s/simrt\n\tsimapi => %s/simapi\n)\n", sim, sim)
	must(os.WriteFile(filepath.Join(wd, "go.mod"), []byte(g), 0644))
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(wd, "go.sum"), sum, 0644))
	bin := filepath.Join(scratch, "simworker")
	t0 := time.Now()
	_, e, err := run(wd, []string{"GOFLAGS=-mod=mod", "GOWORK=off"}, 14*time.Minute, "go", "build", "-overlay", ov, "-trimpath", "-ldflags=-checklinkname=0", "-o", bin, ".")
	if err != nil {
		die(2, "vsim: building the simulator failed: %v\n%s", err, e)
	}
	fmt.Printf("built the simulator from %s in %.1fs\n", *repo, time.Since(t0).Seconds())
	return bin
}

var workerEnv = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "GOTRACEBACK=crash"}

func worker(bin string, timeout time.Duration, args ...string) (string, string, error) {
	return run(scratch, workerEnv, timeout, bin, args...)
}

// Plan is the part of a plan the driver looks at.
type Plan map[string]interface{}

func (p Plan) s(k string) string { s, _ := p[k].(string); return s }
func (p Plan) n(k string) uint64 {
	switch x := p[k].(type) {
	case json.Number:
		v, _ := strconv.ParseUint(string(x), 10, 64)
		return v
	case uint64:
		return x
	}
	return 0
}

type Report struct {
	Runs, Ops, OpsDone, Conc                         int
	Steps, Syscalls, Switches, Blocked, Jumps, SimNs int64
	Faults, Hits, Scen                               map[string]int
	Execs, Inter                                     map[string]bool
	Fails                                            []Plan
	Unsup                                            map[string]int
	Tainted                                          int
	LastSeed                                         uint64
	Samples                                          []string
}

type Verdict struct {
	Failed bool
	Class  string
	Detail string
	Hash   string
	Trace  []string
	Unsup  string
	Taint  bool
	Plan   Plan
}

func decode(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

func (r *Report) merge(o *Report) {
	r.Runs += o.Runs
	r.Ops += o.Ops
	r.OpsDone += o.OpsDone
	r.Conc += o.Conc
	r.Steps += o.Steps
	r.Syscalls += o.Syscalls
	r.Switches += o.Switches
	r.Blocked += o.Blocked
	r.Jumps += o.Jumps
	r.SimNs += o.SimNs
	r.Tainted += o.Tainted
	for _, x := range []struct{ a, b map[string]int }{{r.Faults, o.Faults}, {r.Hits, o.Hits}, {r.Scen, o.Scen}, {r.Unsup, o.Unsup}} {
		for k, n := range x.b {
			x.a[k] += n
		}
	}
	for k := range o.Execs {
		r.Execs[k] = true
	}
	for k := range o.Inter {
		r.Inter[k] = true
	}
	r.Fails = append(r.Fails, o.Fails...)
	r.Samples = append(r.Samples, o.Samples...)
}

func newReport() *Report {
	return &Report{Faults: map[string]int{}, Hits: map[string]int{}, Scen: map[string]int{}, Execs: map[string]bool{}, Inter: map[string]bool{}, Unsup: map[string]int{}}
}

type crash struct {
	seed uint64
	text string
	hang bool
}

// search runs the batches of a check on all processors.
func search(bin, prop string, base uint64, dur time.Duration, thorough bool) (*Report, []crash) {
	n := *jobs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	total := newReport()
	var crashes []crash
	var mu sync.Mutex
	var wg sync.WaitGroup
	end := time.Now().Add(dur)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			seed := base + uint64(i)
			nfail := 0
			for time.Until(end) > 200*time.Millisecond {
				out := filepath.Join(scratch, fmt.Sprintf("out-%d.json", i))
				st := filepath.Join(scratch, fmt.Sprintf("status-%d", i))
				os.Remove(out)
				os.Remove(st)
				left := time.Until(end)
				args := []string{"-mode", "batch", "-prop", prop, "-seed", fmt.Sprint(seed), "-stride", fmt.Sprint(n), "-dur", left.String(), "-status", st, "-out", out}
				if thorough {
					args = append(args, "-thorough")
				}
				var eb bytes.Buffer
				c := exec.Command(bin, args...)
				c.Dir, c.Env, c.Stderr = scratch, append(os.Environ(), workerEnv...), &eb
				err := c.Start()
				if err == nil {
					err = wait(c, left+90*time.Second, func() string {
						b, _ := os.ReadFile(st)
						return string(b)
					})
				}
				e := eb.String()
				b, rerr := os.ReadFile(out)
				if err != nil || rerr != nil {
					sb, _ := os.ReadFile(st)
					s, _ := strconv.ParseUint(strings.TrimLeft(strings.TrimSpace(string(sb)), "0"), 10, 64)
					mu.Lock()
					crashes = append(crashes, crash{s, fmt.Sprintf("%v\n%s", err, clip(e, 4000)), err == errHang})
					mu.Unlock()
					if s == 0 || nfail > 3 {
						return
					}
					nfail++
					seed = s + uint64(n)
					continue
				}
				r := newReport()
				if err := decode(b, r); err != nil {
					mu.Lock()
					crashes = append(crashes, crash{0, err.Error(), false})
					mu.Unlock()
					return
				}
				mu.Lock()
				for _, f := range r.Fails {
					f["_first"] = seed
					f["_stride"] = uint64(n)
				}
				total.merge(r)
				mu.Unlock()
				seed = r.LastSeed + uint64(n)
				if len(r.Fails) >= 3 {
					return
				}
			}
		}(i)
	}
	wg.Wait()
	sort.Slice(crashes, func(i, j int) bool { return crashes[i].seed < crashes[j].seed })
	return total, crashes
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writePlan(p Plan, name string) string {
	q := Plan{}
	for k, v := range p {
		if !strings.HasPrefix(k, "_") {
			q[k] = v
		}
	}
	b, err := json.MarshalIndent(q, "", " ")
	must(err)
	f := filepath.Join(scratch, name)
	must(os.WriteFile(f, b, 0644))
	return f
}

// runPlan executes a plan in a fresh process.
func runPlan(bin string, p Plan, trace, thorough bool) (*Verdict, string, error) {
	f := writePlan(p, fmt.Sprintf("plan-%d.json", time.Now().UnixNano()))
	defer os.Remove(f)
	args := []string{"-mode", "plan", "-file", f}
	if trace {
		args = append(args, "-trace")
	}
	if thorough {
		args = append(args, "-thorough")
	}
	limit := time.Minute
	if p.s("class") == "hang" {
		limit = hangTime
	}
	o, e, err := worker(bin, limit, args...)
	if err != nil {
		return nil, e, err
	}
	v := &Verdict{}
	if err := decode([]byte(o), v); err != nil {
		return nil, e, err
	}
	return v, e, nil
}

// confirm makes sure a failing plan fails in the same way in fresh processes.
func confirm(bin string, p Plan, thorough bool) (Plan, bool) {
	try := func(q Plan) bool {
		h := ""
		for i := 0; i < 2; i++ {
			v, _, err := runPlan(bin, q, false, thorough)
			if err != nil || !v.Failed || v.Class != p.s("class") || v.Unsup != "" {
				return false
			}
			if i > 0 && v.Hash != h {
				return false
			}
			h = v.Hash
		}
		return true
	}
	p["fixed"] = true
	if try(p) {
		return p, true
	}
	// Perhaps it depends on what ran before in the same process.
	first, stride, seed := p.n("_first"), p.n("_stride"), p.n("seed")
	if stride == 0 {
		return p, false
	}
	for _, n := range []uint64{1, 8, 64} {
		var pre []uint64
		for i := n; i >= 1; i-- {
			if seed-first >= i*stride {
				pre = append(pre, seed-i*stride)
			}
		}
		if len(pre) == 0 {
			break
		}
		p["prelude"] = pre
		if try(p) {
			return p, true
		}
	}
	delete(p, "prelude")
	return p, false
}

func size(p Plan) int {
	b, _ := json.Marshal(p)
	return len(b)
}

func minimise(bin string, p Plan, thorough bool) Plan {
	f := writePlan(p, "shrink.json")
	out := filepath.Join(scratch, "shrunk.json")
	args := []string{"-mode", "shrink", "-file", f, "-dur", "20s", "-out", out}
	if thorough {
		args = append(args, "-thorough")
	}
	if _, _, err := worker(bin, 45*time.Second, args...); err != nil {
		return p
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return p
	}
	q := Plan{}
	if decode(b, &q) != nil {
		return p
	}
	q["class"] = p["class"]
	a, _, e1 := runPlan(bin, q, false, thorough)
	c, _, e2 := runPlan(bin, q, false, thorough)
	if e1 != nil || e2 != nil || !a.Failed || !c.Failed || a.Class != p.s("class") || a.Hash != c.Hash {
		return p
	}
	return q
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	switch *mode {
	case "check":
		check()
	case "replay":
		replay()
	case "build":
		fmt.Println(build())
	case "selftest":
		selftest()
	default:
		die(2, "unknown mode")
	}
	cleanup()
}

func check() {
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	thorough := *tier == "thorough"
	dur := 24 * time.Second
	if thorough {
		dur = 600 * time.Second
	}
	if *seconds > 0 {
		dur = time.Duration(*seconds) * time.Second
	}
	bin := build()
	base := uint64(seed)*1000000000 + 1
	ts := time.Now()
	rep, crashes := search(bin, *propF, base, dur, thorough)
	searchS := time.Since(ts).Seconds()
	known := loadKnown()

	var found []Plan
	unconfirmed := 0
	suppressed := map[string]int{}
	sort.SliceStable(rep.Fails, func(i, j int) bool { return size(rep.Fails[i]) < size(rep.Fails[j]) })
	classes := map[string]int{}
	for _, f := range rep.Fails {
		if id := known.match(*propF, f); id != "" {
			suppressed[id]++
			continue
		}
		key := f.s("scenario") + "/" + f.s("class")
		if classes[key] >= 2 || len(found) >= 3 {
			continue
		}
		q, ok := confirm(bin, f, thorough)
		if !ok {
			unconfirmed++
			fmt.Printf("note: seed %v scenario %s class %s did not reproduce: %s\n", f["seed"], f.s("scenario"), f.s("class"), clip(f.s("violation"), 300))
			continue
		}
		classes[key] += 2
		found = append(found, minimise(bin, q, thorough))
	}
	// A worker that died: the code under test may have ended the whole process.
	infra, odd := "", 0
	for _, c := range crashes {
		if c.seed == 0 {
			infra = c.text
			continue
		}
		if len(found) > 0 {
			break
		}
		args := []string{"-mode", "gen", "-prop", *propF, "-seed", fmt.Sprint(c.seed)}
		if thorough {
			args = append(args, "-thorough")
		}
		o, _, err := worker(bin, time.Minute, args...)
		if err != nil {
			infra = c.text
			continue
		}
		p := Plan{}
		if decode([]byte(o), &p) != nil {
			infra = c.text
			continue
		}
		var texts []string
		p["class"] = "fatal"
		if c.hang {
			p["class"] = "hang"
		}
		for i := 0; i < 2; i++ {
			_, e, err := runPlan(bin, p, false, thorough)
			if err == errHang && hangLine(e) != "" {
				texts = append(texts, hangLine(e))
				p["class"] = "hang"
			} else if err != nil && strings.Contains(e, "gobbs") && fatalLine(e) != "" {
				texts = append(texts, fatalLine(e))
				p["class"] = "fatal"
			} else {
				break
			}
		}
		if len(texts) == 2 && p.s("class") == "hang" {
			p["violation"] = "an operation does not end and waits for nothing; it was running " + texts[0]
			found = append(found, p)
		} else if len(texts) == 2 && texts[0] == texts[1] {
			p["violation"] = "the process was ended by the runtime: " + texts[0]
			found = append(found, p)
		} else {
			odd++
			fmt.Printf("note: the worker that ran seed %d ended, which did not reproduce: %s\n", c.seed, clip(c.text, 600))
		}
	}

	replayPath := ""
	viol := 0
	for _, p := range found {
		viol++
		if p.s("class") != "fatal" && p.s("class") != "hang" {
			if v, _, err := runPlan(bin, p, true, thorough); err == nil {
				p["trace"] = v.Trace
				p["hash"] = v.Hash
				p["violation"] = v.Detail
			}
		}
		p["tier"] = *tier
		p["repo_tree"] = treeHash()
		if replayPath == "" {
			dir := filepath.Join(*verif, "replays")
			must(os.MkdirAll(dir, 0755))
			replayPath = filepath.Join(dir, fmt.Sprintf("%s-%v.json", *propF, p["seed"]))
			b, _ := json.MarshalIndent(stripped(p), "", " ")
			must(os.WriteFile(replayPath, b, 0644))
		}
		fmt.Printf("found: scenario %s, class %s, seed %v: %s\n", p.s("scenario"), p.s("class"), p["seed"], clip(p.s("violation"), 1500))
		if tr, ok := p["trace"].([]string); ok {
			for i, l := range tr {
				if i > 120 {
					fmt.Println("  ...")
					break
				}
				fmt.Println("  " + clip(l, 240))
			}
		}
	}
	evidence(rep, seed, t0, searchS, viol, suppressed, crashes, unconfirmed)
	for _, k := range known {
		if k.Property == *propF && k.Kind == "finding" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *propF, k.Text)
		}
	}
	fmt.Printf("%s: %d simulated runs, %d distinct executions, %d interleavings, %d scheduling points, %d faults injected, %.0fs of search\n", *propF, rep.Runs, len(rep.Execs), len(rep.Inter), rep.Syscalls, sum(rep.Faults), searchS)
	if viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propF, replayPath)
		cleanup()
		os.Exit(1)
	}
	if infra != "" {
		die(2, "vsim: a worker failed: %s", infra)
	}
	// Rare runs without an answer are told, in the evidence too; many mean that
	// this check gives none.
	if n := sum(rep.Unsup); n > 0 {
		fmt.Printf("note: %d runs met system calls the simulated kernel lacks: %v\n", n, rep.Unsup)
		if n*20 > rep.Runs {
			die(2, "vsim: system calls the simulated kernel lacks: %v", rep.Unsup)
		}
	}
	if odd+unconfirmed > 3 {
		die(2, "vsim: %d failures did not reproduce, %d workers ended", unconfirmed, odd)
	}
	if rep.Runs == 0 {
		die(2, "vsim: nothing was run")
	}
}

func stripped(p Plan) Plan {
	q := Plan{}
	for k, v := range p {
		if !strings.HasPrefix(k, "_") {
			q[k] = v
		}
	}
	return q
}

func sum(m map[string]int) (n int) {
	for _, x := range m {
		n += x
	}
	return
}

func fatalLine(e string) string {
	for _, l := range strings.Split(e, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return ""
}

func treeHash() string {
	o, _, err := run(*repo, nil, time.Minute, "git", "rev-parse", "HEAD")
	if err != nil {
		return ""
	}
	h := sha256.New()
	d, _, _ := run(*repo, nil, time.Minute, "git", "diff", "HEAD")
	h.Write([]byte(d))
	return strings.TrimSpace(o) + "+" + hex.EncodeToString(h.Sum(nil))[:8]
}

type knownEntry struct {
	Kind     string
	Property string
	Match    map[string]string // of a failing plan: scenario, class, violation (substring)
	Text     string
}
type knownList []knownEntry

// loadKnown reads known-findings.txt: lines "fixed: ..." record repairs and
// suppress nothing; lines "finding: property=.. scenario=.. class=.. has="..." text"
// name a defect that is not repaired.
func loadKnown() (l knownList) {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if !strings.HasPrefix(s, "finding:") {
			continue
		}
		e := knownEntry{Kind: "finding", Match: map[string]string{}}
		rest := strings.TrimSpace(strings.TrimPrefix(s, "finding:"))
		for {
			i := strings.IndexByte(rest, ' ')
			w := rest
			if i >= 0 {
				w = rest[:i]
			}
			kv := strings.SplitN(w, "=", 2)
			if len(kv) != 2 || (kv[0] != "property" && kv[0] != "scenario" && kv[0] != "class" && kv[0] != "has") {
				break
			}
			if kv[0] == "property" {
				e.Property = kv[1]
			} else {
				e.Match[kv[0]] = strings.ReplaceAll(kv[1], "_", " ")
			}
			if i < 0 {
				rest = ""
				break
			}
			rest = rest[i+1:]
		}
		e.Text = rest
		l = append(l, e)
	}
	return
}

func (l knownList) match(prop string, p Plan) string {
	for _, e := range l {
		if e.Property != prop || len(e.Match) == 0 {
			continue
		}
		ok := true
		for k, v := range e.Match {
			switch k {
			case "has":
				ok = ok && strings.Contains(p.s("violation"), v)
			default:
				ok = ok && strings.ReplaceAll(p.s(k), "_", " ") == v
			}
		}
		if ok {
			return e.Text
		}
	}
	return ""
}

func evidence(r *Report, seed int64, t0 time.Time, searchS float64, viol int, suppressed map[string]int, crashes []crash, unconfirmed int) {
	if len(r.Samples) > 6 {
		r.Samples = r.Samples[:6]
	}
	samples := []interface{}{}
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	n := len(r.Inter)
	if len(r.Execs) > n {
		n = len(r.Execs)
	}
	cov := map[string]interface{}{
		"evaluations":         r.Runs,
		"distinct_nontrivial": n,
		"rule":                "each evaluation is one simulated execution of the real code generated from one seed (initial disk, client programs, schedule, clock, randomness, faults); two are distinct when the sequences of (thread, system call, result, scheduling decision, fault) differ",
		"samples":             samples,
		"simulated_runs":      r.Runs, "runs_per_hour": int(float64(r.Runs) / searchS * 3600), "distinct_executions": len(r.Execs),
		"distinct_interleavings_of_concurrent_runs": len(r.Inter), "concurrent_runs": r.Conc,
		"interleaving_measure":      "hash of the sequence of (thread, system call, file) in runs with at least two active threads",
		"operations_started":        r.Ops,
		"operations_returned":       r.OpsDone,
		"steps":                     r.Steps,
		"scheduling_points":         r.Syscalls,
		"context_switches":          r.Switches,
		"lock_waits":                r.Blocked,
		"simulated_seconds":         float64(r.SimNs) / 1e9,
		"clock_jumps":               r.Jumps,
		"faults_injected":           r.Faults,
		"faults_total":              sum(r.Faults),
		"scenarios":                 r.Scen,
		"reached":                   r.Hits,
		"search_seconds":            searchS,
		"aborted_runs":              r.Tainted,
		"worker_deaths":             len(crashes),
		"failures_not_reproduced":   unconfirmed,
		"unsupported_system_calls":  r.Unsup,
		"known_findings_suppressed": suppressed,
		"real_components":           "all Go source of the repository's current tree (three copies, one per simulated process), the Go standard library above the system call layer, golang.org/x/text, golang-jwt",
		"simulated_components":      "system calls (files, directories, locks, mmap, System V shared memory), wall clock, timers, math/rand and runtime randomness, thread scheduling, process exit and kill, HTTP transport (handlers are called directly)",
	}
	ev := map[string]interface{}{"property": *propF, "tier": *tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{"a killed process loses nothing the kernel accepted: power loss is not modelled", "every system call is atomic with respect to other threads, as on a local POSIX file system with O_APPEND and flock"}}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(*verif, "evidence")
	must(os.MkdirAll(dir, 0755))
	must(os.WriteFile(filepath.Join(dir, *propF+".json"), append(b, '\n'), 0644))
}

func replay() {
	b, err := os.ReadFile(*fileF)
	must(err)
	p := Plan{}
	must(decode(b, &p))
	bin := build()
	thorough := p.s("tier") == "thorough"
	v, e, err := runPlan(bin, p, true, thorough)
	if err != nil {
		l := fatalLine(e)
		if p.s("class") == "hang" {
			l = ""
			if err == errHang && hangLine(e) != "" {
				l = "no end: running " + hangLine(e)
			}
		}
		if l != "" && (p.s("class") == "fatal" || p.s("class") == "hang") {
			fmt.Println(l)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.s("prop"), *fileF)
			cleanup()
			os.Exit(1)
		}
		die(2, "vsim: %v\n%s", err, clip(e, 4000))
	}
	for _, l := range v.Trace {
		fmt.Println(l)
	}
	if v.Failed {
		fmt.Printf("class %s: %s\nexecution hash %s (recorded %s)\n", v.Class, v.Detail, v.Hash, p.s("hash"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.s("prop"), *fileF)
		cleanup()
		os.Exit(1)
	}
	fmt.Println("the recorded violation does not occur on this tree")
}

// selftest: the same seed must give the same execution in separate processes
// and wherever it stands in a batch.
func selftest() {
	bin := build()
	o, e, err := worker(bin, time.Minute, "-mode", "list")
	if err != nil {
		die(2, "%v %s", err, e)
	}
	bad := 0
	if *propF == "" || *propF == "kernel" {
		o, e, err := worker(bin, 5*time.Minute, "-mode", "kernel", "-seed", "1", "-max", "20000")
		fmt.Print(o)
		if err != nil {
			fmt.Println(err, clip(e, 2000))
			bad++
		}
	}
	for _, p := range strings.Fields(o) {
		if *propF != "" && p != *propF {
			continue
		}
		a, e1, err1 := worker(bin, 5*time.Minute, "-mode", "hashes", "-prop", p, "-seed", "1", "-max", "300")
		b, e2, err2 := worker(bin, 5*time.Minute, "-mode", "hashes", "-prop", p, "-seed", "1", "-max", "300")
		c, _, err3 := worker(bin, 5*time.Minute, "-mode", "hashes", "-prop", p, "-seed", "200", "-max", "101")
		if err1 != nil || err2 != nil || err3 != nil {
			fmt.Println(p, err1, clip(e1, 2000), err2, clip(e2, 200))
			bad++
			continue
		}
		la, lb, lc := strings.Split(a, "\n"), strings.Split(b, "\n"), strings.Split(c, "\n")
		diff := 0
		for i := range la {
			if i >= len(lb) || la[i] != lb[i] {
				diff++
			}
		}
		off := 0
		for i := range lc {
			if i+199 < len(la) && lc[i] != la[i+199] {
				off++
			}
		}
		fmt.Printf("%s: 300 seeds twice, %d differ; 101 seeds from another start, %d differ\n", p, diff, off)
		bad += diff + off
	}
	if bad > 0 {
		die(1, "selftest failed")
	}
}
