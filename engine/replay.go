package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// ---- native replay: the harness compiled by the ordinary compiler, run on recorded inputs ----

func (en *Engine) nativeBin(r RunSpec) (string, error) {
	if en.bins == nil {
		en.bins = map[string]string{}
	}
	if b, ok := en.bins[r.Harness]; ok {
		if b == "" {
			return "", fmt.Errorf("build failed")
		}
		return b, nil
	}
	pkg, fn, _ := strings.Cut(r.Harness, ".")
	src := fmt.Sprintf(`package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"

	h "verifharness/%s"
	"verifharness/sym"
)

func main() {
	if err := sym.Load(os.Args[1]); err != nil {
		fmt.Println("LOAD", err)
		os.Exit(9)
	}
	h.%s()
	if s := os.Getenv("VERIF_ALLOC"); s != "" {
		n, _ := strconv.ParseUint(s, 10, 64)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.TotalAlloc > n {
			fmt.Println("ALLOCATED", m.TotalAlloc)
			os.Exit(4)
		}
	}
	fmt.Println("REPLAY-OK")
}
`, pkg, fn)
	name := "replay_" + pkg + "_" + fn
	mf := filepath.Join(en.tmp, name+".go")
	if err := os.WriteFile(mf, []byte(src), 0o644); err != nil {
		return "", err
	}
	ov := map[string]any{"Replace": map[string]string{harnessDir + "/cmd/" + name + "/main.go": mf}}
	b, _ := json.Marshal(ov)
	of := filepath.Join(en.tmp, name+".json")
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(en.tmp, name)
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./cmd/"+name)
	cmd.Dir = harnessDir
	cmd.Env = append(os.Environ(), "GOWORK="+harnessDir+"/go.work", "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		en.bins[r.Harness] = ""
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	en.bins[r.Harness] = bin
	return bin, nil
}

type natResult struct {
	code    int
	out     string
	timeout bool
}

// runNative executes the harness in a scratch directory as an unprivileged user.
func (en *Engine) runNative(bin string, inputs []InputVal, params map[string]int, alloc int, limit time.Duration) natResult {
	dir, err := os.MkdirTemp(en.tmp, "n")
	if err != nil {
		return natResult{code: 99, out: err.Error()}
	}
	defer os.RemoveAll(dir)
	// deep scratch directory: relative escapes stay inside it
	work := filepath.Join(dir, "a", "b", "c", "d", "e", "f", "w")
	os.MkdirAll(work, 0o777)
	os.Chmod(en.tmp, 0o755)
	os.Chmod(dir, 0o755)
	for d := work; d != dir; d = filepath.Dir(d) {
		os.Chown(d, 65534, 65534)
		os.Chmod(d, 0o777)
	}
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "params": params})
	in := filepath.Join(dir, "inputs.json")
	os.WriteFile(in, b, 0o644)
	os.Chmod(bin, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, in)
	cmd.Dir = work
	cmd.Env = []string{"HOME=" + work, "TMPDIR=" + work, "GOTRACEBACK=all", "GODEBUG=", "PATH=/usr/bin:/bin", "VERIF_SCRATCH=" + work}
	if alloc > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_ALLOC=%d", alloc))
	}
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Setpgid: true}
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	r := natResult{out: buf.String()}
	if len(r.out) > 20000 {
		r.out = r.out[:20000]
	}
	if ctx.Err() != nil {
		r.timeout = true
		r.code = -1
		return r
	}
	if err != nil {
		r.code = 99
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return r
}

// confirm replays a counterexample; it reports whether the violation stands.
func (en *Engine) confirm(r RunSpec, v *Violation, rep string) (bool, string) {
	if r.NoNative || v.multiG {
		return en.confirmEngine(r, v)
	}
	bin, err := en.nativeBin(r)
	if err != nil {
		return false, err.Error()
	}
	alloc := 0
	if strings.HasPrefix(v.Msg, "allocation of more than") {
		alloc = 1 << 29
	}
	n := en.runNative(bin, v.Inputs, v.Params, alloc, 60*time.Second)
	switch {
	case n.timeout:
		if v.Kind == "deadlock" || v.Kind == "hang" {
			return true, "native run does not terminate"
		}
		return false, "native run did not terminate within 60s"
	case v.Kind == "deadlock" && (strings.Contains(n.out, "all goroutines are asleep") || n.code != 0):
		return true, "native: " + firstLine(n.out)
	case v.Kind == "assert" && n.code == 3:
		if strings.Contains(n.out, "ASSERTION-FAILED: "+v.Msg) {
			return true, "native: same assertion failed"
		}
		return true, "native: " + firstLine(n.out)
	case v.Kind == "panic" && alloc > 0 && (n.code == 4 || n.code == 2):
		return true, "native: " + firstLine(n.out)
	case n.code == 2 || n.code == 3:
		return true, "native: " + firstLine(n.out)
	case n.code == -1:
		return true, "native: killed by a signal: " + firstLine(n.out)
	}
	return false, fmt.Sprintf("not reproduced natively (exit %d): %s", n.code, firstLine(n.out))
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "ASSERTION-FAILED") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

// confirmEngine re-executes the counterexample in the engine with every input
// replaced by its concrete value and the schedule fixed.
func (en *Engine) confirmEngine(r RunSpec, v *Violation) (bool, string) {
	pkg, fn, _ := strings.Cut(r.Harness, ".")
	p, err := en.program(pkg)
	if err != nil {
		return false, err.Error()
	}
	cfg := &Config{concLimit: 1100, maxDepth: 3000, maxSteps: 20_000_000, maxAlloc: 1 << 30, maxTimeSteps: 40, maxG: 24, params: v.Params, switches: 1000, preempt: r.Preempt}
	if en.tier == "thorough" && r.TPreempt > 0 {
		cfg.preempt = r.TPreempt
	}
	if d := v.Params["maxdepth"]; d > 0 {
		cfg.maxDepth = d
	}
	if r.Switches > 0 {
		cfg.switches = r.Switches
	}
	if r.MaxAlloc > 0 {
		cfg.maxAlloc = r.MaxAlloc
	}
	if r.MaxSteps > 0 {
		cfg.maxSteps = r.MaxSteps
	}
	if r.MaxG > 0 {
		cfg.maxG = r.MaxG
	}
	if r.MaxTime > 0 {
		cfg.maxTimeSteps = r.MaxTime
	}
	if r.Conc > 0 {
		cfg.concLimit = r.Conc
	}
	ex := newExplorer(1)
	w := newWorker(0, p, ex, cfg, z3Bin(), 20000)
	defer w.sol.Close()
	w.main = p.harness.Func(fn)
	if err := w.runInit(); err != nil {
		return false, err.Error()
	}
	w.replaying = true
	// every recorded input byte is pinned; the trail supplies scheduling and choices
	w.pin = map[string]InputVal{}
	for _, in := range v.Inputs {
		w.pin[in.Name] = in
	}
	for _, in := range v.model {
		w.pinVars = append(w.pinVars, in)
	}
	w.runPath(workItem{trail: onlyChoices(v.trail), model: v.model})
	for _, x := range ex.Violations {
		if x.Kind == v.Kind && x.Msg == v.Msg {
			return true, "replayed in the engine with concrete inputs and the recorded schedule"
		}
	}
	var got []string
	for _, x := range ex.Violations {
		got = append(got, x.Msg)
	}
	return false, fmt.Sprintf("engine replay gave %v, ends %v, unsupported %v", got, ex.Killed, ex.Unsupported)
}

// onlyChoices keeps the scheduling and case decisions of a trail; the decisions on
// symbolic conditions are recomputed from the concrete inputs.
func onlyChoices(n *dnode) *dnode {
	var all []*dnode
	for ; n != nil; n = n.parent {
		if n.kind == dChoose {
			all = append(all, n)
		}
	}
	var out *dnode
	for i := len(all) - 1; i >= 0; i-- {
		c := *all[i]
		c.parent = out
		c.depth = len(all) - 1 - i
		out = &c
	}
	return out
}

// validate runs sampled passing paths natively: the real build must agree.
func (en *Engine) validate(r RunSpec, res *RunResult) {
	if len(res.samples) == 0 {
		return
	}
	bin, err := en.nativeBin(r)
	if err != nil {
		res.Mismatch = append(res.Mismatch, err.Error())
		return
	}
	for i, s := range res.samples {
		if i >= 6 {
			break
		}
		n := en.runNative(bin, s.Inputs, s.Params, 0, 30*time.Second)
		if n.code == 0 {
			if !strings.Contains(n.out, "ASSUMPTION-FAILED") {
				res.Validated++
			}
			continue
		}
		res.Mismatch = append(res.Mismatch, fmt.Sprintf("%v: exit %d %s", s.Inputs, n.code, firstLine(n.out)))
	}
}

// ---- known findings ----

type knownList struct{ ents []knownEnt }
type knownEnt struct{ prop, harness, msg, where, text string }

func loadKnown() *knownList {
	k := &knownList{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return k
	}
	var f struct {
		Known []struct {
			Property, Harness, Msg, Where, What string
		}
	}
	if json.Unmarshal(b, &f) != nil {
		return k
	}
	for _, e := range f.Known {
		k.ents = append(k.ents, knownEnt{e.Property, e.Harness, e.Msg, e.Where, e.What})
	}
	return k
}

func (k *knownList) match(prop, harness string, v *Violation) string {
	for _, e := range k.ents {
		if e.prop == prop && (e.harness == "" || e.harness == harness) && strings.Contains(v.Msg, e.msg) && (e.where == "" || e.where == v.Where) {
			return e.text
		}
	}
	return ""
}
