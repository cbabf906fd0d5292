// Command worker runs simulated executions of the code under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"simrt"
)

// Report is what a batch prints.
type Report struct {
	Runs     int
	Ops      int
	OpsDone  int
	Conc     int
	Steps    int64
	Syscalls int64
	Switches int64
	Blocked  int64
	Jumps    int64
	SimNs    int64
	Faults   map[string]int
	Hits     map[string]int
	Scen     map[string]int
	Execs    map[string]bool // distinct executions (hashes), bounded
	Inter    map[string]bool // distinct interleavings of system calls on shared files
	Fails    []*simrt.Plan
	Unsup    map[string]int
	Tainted  int
	LastSeed uint64
	Samples  []string
}

const maxDistinct = 400000

func batch(prop string, first, stride uint64, dur time.Duration, max int, thorough bool, status string) *Report {
	r := &Report{Faults: map[string]int{}, Hits: map[string]int{}, Scen: map[string]int{}, Execs: map[string]bool{}, Inter: map[string]bool{}, Unsup: map[string]int{}}
	t0 := time.Now()
	var sf *os.File
	if status != "" {
		sf, _ = os.Create(status)
	}
	classes := map[string]int{}
	heap := 0
	for seed := first; ; seed += stride {
		if (dur > 0 && time.Since(t0) > dur) || (max > 0 && r.Runs >= max) {
			break
		}
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%020d\n", seed)), 0)
		}
		p := makePlan(prop, seed, thorough)
		o := execute(p, false)
		r.add(o, seed)
		if len(r.Samples) < 2 {
			r.Samples = append(r.Samples, describe(o))
		}
		if o.Fail != nil {
			key := o.Plan.Scenario + "/" + o.Fail.Class
			if classes[key] < 3 {
				classes[key]++
				p.Violation, p.Class, p.Hash = o.Fail.Detail, o.Fail.Class, fmt.Sprintf("%016x", o.Hash)
				r.Fails = append(r.Fails, p)
			}
			if len(r.Fails) >= 6 {
				break
			}
		}
		if o.Tainted {
			r.Tainted++
			break
		}
		heap++
		if heap%64 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 384<<20 {
				runtime.GC()
			}
		}
	}
	return r
}

func (r *Report) add(o *Outcome, seed uint64) {
	r.Runs++
	r.LastSeed = seed
	r.Ops += o.Ops
	r.OpsDone += o.OpsDone
	if o.Conc {
		r.Conc++
	}
	r.Steps += int64(o.Stats.Steps)
	r.Syscalls += int64(o.Stats.Syscalls)
	r.Switches += int64(o.Stats.Switches)
	r.Blocked += int64(o.Stats.Blocked)
	r.Jumps += int64(o.Stats.Jumps)
	if o.Stats.SimNs > 0 {
		r.SimNs += o.Stats.SimNs
	}
	for k, n := range o.Stats.Faults {
		r.Faults[k] += n
	}
	for k, n := range o.Hits {
		r.Hits[k] += n
	}
	r.Scen[o.Plan.Scenario]++
	if len(r.Execs) < maxDistinct {
		r.Execs[fmt.Sprintf("%x", o.Hash)] = true
	}
	if o.Conc && len(r.Inter) < maxDistinct {
		r.Inter[fmt.Sprintf("%x", o.IHash)] = true
	}
	if o.Unsup != "" {
		r.Unsup[o.Unsup]++
	}
}

func describe(o *Outcome) string {
	p := o.Plan
	var sb strings.Builder
	fmt.Fprintf(&sb, "seed %d scenario %s:", p.Seed, p.Scenario)
	for i, t := range p.Tasks {
		fmt.Fprintf(&sb, " [task %d, process %d, phase %d:", i, t.Proc, t.Phase)
		for j := range t.Ops {
			if j > 5 {
				sb.WriteString(" ...")
				break
			}
			sb.WriteString(" " + t.Ops[j].K)
		}
		sb.WriteString("]")
	}
	fmt.Fprintf(&sb, " preemptions=%d", len(p.Preempts))
	for _, f := range p.Faults {
		fmt.Fprintf(&sb, " fault{task %d call %d: %s on %s}", f.T, f.N, f.Kind, f.Call)
	}
	return sb.String()
}

func readPlan(f string) *simrt.Plan {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := &simrt.Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return p
}

func writeJSON(f string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if f == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(f, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Verdict is the outcome of running one plan.
type Verdict struct {
	Failed bool
	Class  string
	Detail string
	Hash   string
	IHash  string
	Trace  []string
	Unsup  string
	Taint  bool
	Steps  int
	Plan   *simrt.Plan
}

func verdict(o *Outcome) *Verdict {
	v := &Verdict{Hash: fmt.Sprintf("%016x", o.Hash), IHash: fmt.Sprintf("%016x", o.IHash), Trace: o.Trace, Unsup: o.Unsup, Taint: o.Tainted, Steps: o.Stats.Steps}
	if o.Fail != nil {
		v.Failed, v.Class, v.Detail = true, o.Fail.Class, o.Fail.Detail
	}
	return v
}

func main() {
	prop := flag.String("prop", "", "property")
	mode := flag.String("mode", "batch", "batch, plan, shrink, list, hashes")
	seed := flag.Uint64("seed", 1, "first seed")
	stride := flag.Uint64("stride", 1, "distance between seeds")
	dur := flag.Duration("dur", 0, "time budget")
	max := flag.Int("max", 0, "number of runs")
	thorough := flag.Bool("thorough", false, "larger executions")
	status := flag.String("status", "", "file naming the seed being run")
	file := flag.String("file", "", "plan file")
	out := flag.String("out", "-", "result file")
	trace := flag.Bool("trace", false, "record a readable trace")
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	// Memory without end is to end this process, in every run alike.
	for r, max := range map[int]uint64{syscall.RLIMIT_DATA: 3 << 30, syscall.RLIMIT_CORE: 0} {
		syscall.Setrlimit(r, &syscall.Rlimit{Cur: max, Max: max})
	}
	debug.SetMaxStack(48 << 20)
	debug.SetTraceback("all")
	switch *mode {
	case "list":
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	case "batch":
		writeJSON(*out, batch(*prop, *seed, *stride, *dur, *max, *thorough, *status))
	case "kernel":
		if kernelTest(*seed, *max) > 0 {
			os.Exit(1)
		}
	case "hashes":
		for i := 0; i < *max; i++ {
			o := execute(makePlan(*prop, *seed+uint64(i)**stride, *thorough), false)
			f := ""
			if o.Fail != nil {
				f = o.Fail.Class
			}
			fmt.Printf("%d %016x %s\n", *seed+uint64(i)**stride, o.Hash, f)
		}
	case "seed": // one generated plan, with its decisions
		p := makePlan(*prop, *seed, *thorough)
		o := execute(p, *trace)
		v := verdict(o)
		v.Plan = p
		writeJSON(*out, v)
	case "gen":
		writeJSON(*out, makePlan(*prop, *seed, *thorough))
	case "plan":
		p := readPlan(*file)
		for _, s := range p.Prelude {
			execute(makePlan(p.Prop, s, *thorough), false)
		}
		writeJSON(*out, verdict(execute(p, *trace)))
	case "shrink":
		p := readPlan(*file)
		writeJSON(*out, shrink(p, *dur))
	default:
		os.Exit(3)
	}
}
