package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type RunSpec struct {
	Harness  string         `json:"h"` // package path suffix and function: "hben.RoundInts"
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Time     int            `json:"time"`  // seconds, quick
	TTime    int            `json:"ttime"` // seconds, thorough
	Preempt  int            `json:"preempt"`
	TPreempt int            `json:"tpreempt"`
	Switches int            `json:"switches"`
	MaxAlloc int            `json:"maxalloc"`
	MaxSteps int64          `json:"maxsteps"`
	MaxG     int            `json:"maxg"`
	MaxTime  int            `json:"maxtimesteps"`
	Conc     int            `json:"conc"`
	NoNative bool           `json:"nonative"`
	Reach    []string       `json:"reach"`
	Tiers    string         `json:"tier"` // "", "quick" or "thorough"
	Note     string         `json:"note"`
}

type CheckSpec struct {
	Property    string    `json:"property"`
	Level       string    `json:"level"`
	Runs        []RunSpec `json:"runs"`
	Assumptions []string  `json:"assumptions"`
}

type RunResult struct {
	Harness     string           `json:"harness"`
	Params      map[string]int   `json:"bounds"`
	Paths       int64            `json:"paths"`
	Ends        map[string]int64 `json:"path_ends"`
	Steps       int64            `json:"instructions_executed"`
	Queries     int64            `json:"solver_queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	FastDecided int64            `json:"decided_by_byte_domains"`
	Cached      int64            `json:"answered_from_query_cache"`
	Asserts     map[string]int64 `json:"assertions_evaluated"`
	Trivial     int64            `json:"assertions_true_after_simplification"`
	Reach       map[string]int64 `json:"reach_witnesses"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	TimedOut    bool             `json:"timed_out"`
	Truncated   map[string]int64 `json:"truncated,omitempty"`
	Unsupported map[string]int64 `json:"unsupported,omitempty"`
	Depth       int              `json:"max_decisions_on_a_path"`
	Preempt     int              `json:"preemption_bound,omitempty"`
	MaxG        int              `json:"max_goroutines,omitempty"`
	Validated   int              `json:"paths_validated_natively"`
	Mismatch    []string         `json:"native_mismatches,omitempty"`
	MissedReach []string         `json:"missed_witnesses,omitempty"`
	Solver2     *CrossCheck      `json:"second_solver,omitempty"`
	viol        []*Violation
	samples     []Sample
}

type CrossCheck struct {
	Solver   string `json:"solver"`
	Queries  int    `json:"queries"`
	Agree    int    `json:"agree"`
	Disagree int    `json:"disagree"`
}

type Sample struct {
	Inputs []InputVal     `json:"inputs"`
	Params map[string]int `json:"params"`
}

const verifDir = "/verif"

var harnessDir = verifDir + "/harness"

func mainErr(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(2 << 30)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		mainErr(2, "usage: gosym check ID | run pkg.Func | selftest")
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	tier := fs.String("tier", "", "quick or thorough")
	seed := fs.Int("seed", 1, "seed")
	nw := fs.Int("j", runtime.NumCPU(), "workers")
	dbg := fs.Bool("debug", false, "debug")
	par := fs.String("p", "", "params k=v,...")
	tm := fs.Int("time", 60, "seconds")
	pre := fs.Int("preempt", 0, "preemption bound")
	sw := fs.Int("switches", 1000, "switch bound")
	only := fs.String("only", "", "only runs whose name contains")
	maxg := fs.Int("maxg", 0, "goroutine bound")
	maxts := fs.Int("maxtimesteps", 0, "bound on advances of the clock")
	noNat := fs.Bool("nonative", false, "no native replay")
	nofast := fs.Bool("nofast", false, "no byte-domain shortcut")
	cmd := os.Args[1]
	var arg string
	rest := os.Args[2:]
	if len(rest) > 0 && !strings.HasPrefix(rest[0], "-") {
		arg = rest[0]
		rest = rest[1:]
	}
	fs.Parse(rest)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			*seed = n
		}
	}
	switch cmd {
	case "selftest":
		os.Exit(selftest(*seed))
	case "run":
		r := RunSpec{Harness: arg, Params: map[string]int{}, Time: *tm, Preempt: *pre, Switches: *sw, NoNative: *noNat, MaxG: *maxg, MaxTime: *maxts}
		for _, kv := range strings.Split(*par, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n, _ := strconv.Atoi(v)
				r.Params[k] = n
			}
		}
		en := &Engine{tier: *tier, nw: *nw, debug: *dbg, nofast: *nofast}
		res, err := en.run(r, "X")
		if err != nil {
			mainErr(2, "ERROR %v", err)
		}
		b, _ := json.MarshalIndent(res, "", "  ")
		fmt.Println(string(b))
		for _, v := range res.viol {
			b, _ := json.MarshalIndent(v, "", "  ")
			fmt.Println(string(b))
		}
	case "check":
		os.Exit(runCheck(arg, *tier, *seed, *nw, *only, *dbg))
	default:
		mainErr(2, "unknown command %s", cmd)
	}
}

type Engine struct {
	tier   string
	nw     int
	debug  bool
	nofast bool
	progs  map[string]*Program
	bins   map[string]string
	tmp    string
	seed   int
}

func (en *Engine) program(pkg string) (*Program, error) {
	if en.progs == nil {
		en.progs = map[string]*Program{}
	}
	if p, ok := en.progs[pkg]; ok {
		return p, nil
	}
	p, err := loadProgram("verifharness/"+pkg, harnessDir, harnessDir+"/go.work", nil)
	if err != nil {
		return nil, err
	}
	en.progs[pkg] = p
	return p, nil
}

func z3Bin() string {
	if b := os.Getenv("VERIF_Z3"); b != "" {
		return b
	}
	return "z3-new"
}

func (en *Engine) run(r RunSpec, prop string) (*RunResult, error) {
	pkg, fn, ok := strings.Cut(r.Harness, ".")
	if !ok {
		return nil, fmt.Errorf("bad harness name %q", r.Harness)
	}
	t0 := time.Now()
	p, err := en.program(pkg)
	if err != nil {
		return nil, err
	}
	if en.debug {
		fmt.Println("loaded in", time.Since(t0))
	}
	mainFn := p.harness.Func(fn)
	if mainFn == nil {
		return nil, fmt.Errorf("harness function %s not found", r.Harness)
	}
	params := map[string]int{}
	for k, v := range r.Params {
		params[k] = v
	}
	secs := r.Time
	pre := r.Preempt
	if en.tier == "thorough" {
		for k, v := range r.Thorough {
			params[k] = v
		}
		if r.TTime > 0 {
			secs = r.TTime
		} else {
			secs *= 6
		}
		if r.TPreempt > 0 {
			pre = r.TPreempt
		}
	}
	if secs == 0 {
		secs = 60
	}
	cfg := &Config{concLimit: 1100, maxDepth: 3000, maxSteps: 20_000_000, maxAlloc: 1 << 30, maxTimeSteps: 40, maxG: 24,
		debug: en.debug, preempt: pre, switches: 1000, params: params, noFast: en.nofast}
	if r.Switches > 0 {
		cfg.switches = r.Switches
	}
	if r.MaxAlloc > 0 {
		cfg.maxAlloc = r.MaxAlloc
	}
	if r.MaxSteps > 0 {
		cfg.maxSteps = r.MaxSteps
	}
	if r.MaxG > 0 {
		cfg.maxG = r.MaxG
	}
	if r.MaxTime > 0 {
		cfg.maxTimeSteps = r.MaxTime
	}
	if d := params["maxdepth"]; d > 0 {
		cfg.maxDepth = d
	}
	if r.Conc > 0 {
		cfg.concLimit = r.Conc
	}
	p.codes.Range(func(k, v any) bool { v.(*Code).hits.Store(0); return true })
	ex := newExplorer(en.nw)
	ws := make([]*Worker, en.nw)
	var wg sync.WaitGroup
	var initErr error
	var imu sync.Mutex
	t1 := time.Now()
	// the first worker compiles, the others then run from the shared code
	for i := range ws {
		ws[i] = newWorker(i, p, ex, cfg, z3Bin(), 20000)
		ws[i].main = mainFn
	}
	one := func(i int) {
		if err := ws[i].runInit(); err != nil {
			imu.Lock()
			initErr = err
			imu.Unlock()
		}
	}
	one(0)
	if initErr == nil {
		for i := 1; i < len(ws); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); one(i) }()
		}
		wg.Wait()
	}
	if initErr != nil {
		return nil, initErr
	}
	if en.debug {
		fmt.Println("init in", time.Since(t1))
	}
	t2 := time.Now()
	ex.deadline = t2.Add(time.Duration(secs) * time.Second)
	ex.push(0, workItem{})
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(time.Second):
				ex.cond.Broadcast()
				if en.debug {
					ex.mu.Lock()
					fmt.Fprintln(os.Stderr, "paths", ex.Paths, "viol", len(ex.Violations), "ends", ex.Killed)
					ex.mu.Unlock()
				}
			}
		}
	}()
	for _, w := range ws {
		wg.Add(1)
		go func() { defer wg.Done(); w.run() }()
	}
	wg.Wait()
	close(stopTick)
	var st SolverStats
	for _, w := range ws {
		st.add(&w.sol.Stats)
		w.sol.Close()
	}
	res := &RunResult{Harness: r.Harness, Params: params, Paths: ex.Paths, Ends: ex.Killed, Steps: ex.Steps, Queries: st.Queries, Sat: st.Sat,
		Unsat: st.Unsat, Unknown: st.Unknown, FastDecided: st.FastSat + st.FastUnsat, Cached: st.Cached, Asserts: ex.Asserts, Trivial: st.Trivial, Reach: ex.Reach,
		SolverS: st.Time.Seconds(), WallS: time.Since(t0).Seconds(), TimedOut: ex.TimedOut, Truncated: ex.Truncated, Unsupported: ex.Unsupported, Depth: ex.MaxDepth, Preempt: pre, MaxG: ex.MaxG}
	for _, l := range r.Reach {
		if ex.Reach[l] == 0 {
			res.MissedReach = append(res.MissedReach, l)
		}
	}
	for _, v := range ex.Violations {
		v.Params = params
	}
	res.viol = ex.Violations
	res.samples = ex.samples
	return res, nil
}

func (p *Program) encodedFuncs() []string {
	var r []string
	p.codes.Range(func(k, v any) bool {
		c := v.(*Code)
		if c.isRepo && c.hits.Load() > 0 {
			r = append(r, c.name)
		}
		return true
	})
	sort.Strings(r)
	return r
}

func runCheck(id, tier string, seed, nw int, only string, dbg bool) int {
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", id+".json"))
	if err != nil {
		mainErr(2, "ERROR %v", err)
	}
	var spec CheckSpec
	if err := json.Unmarshal(b, &spec); err != nil {
		mainErr(2, "ERROR spec: %v", err)
	}
	known := loadKnown()
	en := &Engine{tier: tier, nw: nw, debug: dbg, seed: seed}
	en.tmp, err = os.MkdirTemp("", "gosym")
	if err != nil {
		mainErr(2, "ERROR %v", err)
	}
	defer os.RemoveAll(en.tmp)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verifDir, "out"), 0o755)
	var results []*RunResult
	funcs := map[string]bool{}
	nviol := 0
	var unconf []string
	knownSeen := map[string]bool{}
	var sampleOut []any
	exhaustive := true
	for _, r := range spec.Runs {
		if only != "" && !strings.Contains(r.Harness, only) {
			continue
		}
		if r.Tiers != "" && r.Tiers != tier {
			continue
		}
		res, err := en.run(r, id)
		if err != nil {
			fmt.Printf("ERROR property=%s harness=%s %v\n", id, r.Harness, err)
			return 2
		}
		pkg, _, _ := strings.Cut(r.Harness, ".")
		for _, f := range en.progs[pkg].encodedFuncs() {
			funcs[f] = true
		}
		for i, v := range res.viol {
			rep := filepath.Join(verifDir, "out", fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(r.Harness, ".", "_"), i))
			ok, how := en.confirm(r, v, rep)
			v.Native = how
			writeReplay(rep, id, r, v)
			if k := known.match(id, r.Harness, v); k != "" {
				if !knownSeen[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				}
				knownSeen[k] = true
				continue
			}
			if !ok {
				unconf = append(unconf, fmt.Sprintf("%s: %s: %s (%s): %s", r.Harness, v.Kind, v.Msg, v.Where, how))
				continue
			}
			if nviol == 0 || i < 3 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
				fmt.Printf("  %s %s: %s in %s [%s]\n", r.Harness, v.Kind, v.Msg, v.Where, how)
			}
			nviol++
		}
		if len(res.viol) == 0 && !r.NoNative {
			en.validate(r, res)
		}
		for i, s := range res.samples {
			if i < 2 {
				sampleOut = append(sampleOut, map[string]any{"harness": r.Harness, "inputs": s.Inputs})
			}
		}
		if res.TimedOut || len(res.Truncated) > 0 || len(res.Unsupported) > 0 || res.Unknown > 0 || len(res.MissedReach) > 0 {
			exhaustive = false
			fmt.Printf("REDUCED property=%s harness=%s timed_out=%v truncated=%v unsupported=%v unknown=%d missed_witnesses=%v\n", id, r.Harness, res.TimedOut, res.Truncated, res.Unsupported, res.Unknown, res.MissedReach)
		}
		fmt.Printf("%s %s: %d paths, %d queries (%d sat, %d unsat), %d by byte domains, %.1fs solver, %.1fs wall, %d violations, ends %v\n",
			id, r.Harness, res.Paths, res.Queries, res.Sat, res.Unsat, res.FastDecided, res.SolverS, res.WallS, len(res.viol), res.Ends)
		results = append(results, res)
		if nviol > 0 {
			break
		}
	}
	for _, u := range unconf {
		fmt.Println("UNCONFIRMED", u)
	}
	writeEvidence(id, tier, seed, spec, results, funcs, nviol, unconf, knownSeen, sampleOut, exhaustive, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func writeEvidence(id, tier string, seed int, spec CheckSpec, results []*RunResult, funcs map[string]bool, nviol int, unconf []string, known map[string]bool, samples []any, exhaustive bool, wall float64) {
	var paths, queries, sat, unsat, unk, fast, asserts, steps, trivial int64
	var solver float64
	val := 0
	for _, r := range results {
		paths += r.Paths
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		fast += r.FastDecided
		steps += r.Steps
		trivial += r.Trivial
		solver += r.SolverS
		val += r.Validated
		for _, n := range r.Asserts {
			asserts += n
		}
	}
	if samples == nil {
		samples = []any{"no completed path"}
	}
	level := spec.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level, "wall_s": wall, "violations": nviol,
		"assumptions": spec.Assumptions,
		"coverage": map[string]any{
			"explanation": "Symbolic execution of the SSA of the functions below, regenerated from /repo in this run; every path within the bounds is explored, branch feasibility and assertions are decided by the SMT solver (z3) or, for conditions over one input byte, by an exact 256-entry table. states = execution paths, transitions = SSA instructions executed symbolically.",
			"states":      paths, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
			"functions_encoded": sortedKeys(funcs), "solver_queries": queries, "sat": sat, "unsat": unsat, "unknown": unk,
			"decided_by_byte_domains": fast, "assertions_evaluated": asserts, "assertions_true_after_simplification": trivial, "solver_s": solver,
			"runs": results, "exhaustive": exhaustive, "unconfirmed_counterexamples": unconf, "known_findings_seen": sortedKeys(known),
			"solver": z3Bin(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
}

func writeReplay(path, id string, r RunSpec, v *Violation) {
	m := map[string]any{"property": id, "harness": r.Harness, "kind": v.Kind, "msg": v.Msg, "where": v.Where, "stack": v.Stack,
		"inputs": v.Inputs, "params": v.Params, "schedule": v.Sched, "confirmed": v.Native}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}
