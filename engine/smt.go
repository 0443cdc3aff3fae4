package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Z3Scratch is the solver for queries the incremental session does not settle quickly.
const Z3Scratch = "z3"

var sessions atomic.Uint32

// Result of a satisfiability query.
type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	FastSat, FastUnsat           int64 // decided by the exact per-byte domain table
	BadModels                    int64
	Cached                       int64
	Trivial                      int64 // assertions whose condition simplified to true
	Time                         time.Duration
	Restarts                     int64
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.FastSat += o.FastSat
	s.FastUnsat += o.FastUnsat
	s.Trivial += o.Trivial
	s.Cached += o.Cached
	s.Time += o.Time
	s.Restarts += o.Restarts
}

// Solver is an incremental SMT-LIB session with one z3 process.
type Solver struct {
	tb       *TB
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	sess     uint32
	asserted []*Term // one push level per entry
	declared int
	vars     []*Term
	timeout  int
	local    map[*Term]bool // definitions of a dump
	Stats    SolverStats
	Slowest  time.Duration
	log      io.Writer
}

func NewSolver(tb *TB, bin string, timeoutMs int) *Solver {
	s := &Solver{tb: tb, bin: bin, timeout: timeoutMs}
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.sess = sessions.Add(1)
	s.asserted = nil
	s.declared = 0
	s.vars = nil
	s.puts("(set-option :global-declarations true)\n(set-option :print-success false)\n")
	s.puts(fmt.Sprintf("(set-option :timeout %d)\n", min(300, s.timeout)))
	// No set-logic: with QF_BV, z3's incremental mode is some forty times slower on these queries.
}

func (s *Solver) puts(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.Close()
	s.Stats.Restarts++
	s.start()
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.v == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) done(t *Term) bool {
	if s.local != nil {
		return s.local[t]
	}
	return t.sess == s.sess
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.done(t) {
		return
	}
	// iterative post-order to survive deep terms
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		x := it.t
		if x.op == OConst || s.done(x) {
			continue
		}
		if !it.done && x.op != OVar {
			st = append(st, item{x, true})
			for _, c := range [3]*Term{x.a, x.b, x.c} {
				if c != nil && c.op != OConst && !s.done(c) {
					st = append(st, item{c, false})
				}
			}
			continue
		}
		if s.local != nil {
			s.local[x] = true
		} else {
			x.sess = s.sess
		}
		s.declared++
		if x.op == OVar {
			s.vars = append(s.vars, x)
			s.puts("(declare-const " + s.ref(x) + " " + sortOf(x.w) + ")\n")
			continue
		}
		var body string
		switch x.op {
		case OExtract:
			body = fmt.Sprintf("((_ extract %d %d) %s)", x.v>>8, x.v&0xff, s.ref(x.a))
		case OZext:
			body = fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, s.ref(x.a))
		case OSext:
			body = fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, s.ref(x.a))
		default:
			var sb strings.Builder
			sb.WriteByte('(')
			sb.WriteString(opNames[x.op])
			for _, c := range [3]*Term{x.a, x.b, x.c} {
				if c != nil {
					sb.WriteByte(' ')
					sb.WriteString(s.ref(c))
				}
			}
			sb.WriteByte(')')
			body = sb.String()
		}
		s.puts("(define-fun " + s.ref(x) + " () " + sortOf(x.w) + " " + body + ")\n")
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil {
		s.start()
	}
	if s.declared > 400000 {
		s.restart()
	}
	k := 0
	for k < len(pc) && k < len(s.asserted) && pc[k] == s.asserted[k] {
		k++
	}
	if k < len(s.asserted) {
		s.puts(fmt.Sprintf("(pop %d)\n", len(s.asserted)-k))
		s.asserted = s.asserted[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.puts("(push 1)\n(assert " + s.ref(pc[k]) + ")\n")
		s.asserted = append(s.asserted, pc[k])
	}
}

// dump renders pc ∧ extra as a self-contained script and lists its variables.
func (s *Solver) dump(pc []*Term, extra *Term) (string, []*Term) {
	var b strings.Builder
	t := &Solver{tb: s.tb, in: bufio.NewWriter(&b), local: map[*Term]bool{}}
	t.puts("(set-logic QF_BV)\n")
	for _, c := range append(append([]*Term(nil), pc...), extra) {
		if c != nil {
			t.define(c)
			t.puts("(assert " + t.ref(c) + ")\n")
		}
	}
	t.puts("(check-sat)\n")
	t.in.Flush()
	return b.String(), t.vars
}

// oneShot decides pc ∧ extra in a fresh, non-incremental process.
func (s *Solver) oneShot(bin string, pc []*Term, extra *Term, ms int) (Sat, []ModelVal) {
	txt, vars := s.dump(pc, extra)
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(s.ref(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		txt += sb.String()
	}
	// both z3 releases and cvc5, the first answer wins
	type ans struct {
		out []byte
	}
	z3args := []string{"-in", "-smt2", "-t:" + strconv.Itoa(ms), "-T:" + strconv.Itoa(ms/1000+2)}
	solvers := [][]string{append([]string{bin}, z3args...), append([]string{z3Bin()}, z3args...),
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + strconv.Itoa(ms)}}
	ch := make(chan ans, len(solvers))
	var cmds []*exec.Cmd
	for _, a := range solvers {
		cmd := exec.Command(a[0], a[1:]...)
		cmd.Stdin = strings.NewReader(txt)
		var buf bytes.Buffer
		cmd.Stdout = &buf
		if err := cmd.Start(); err != nil {
			ch <- ans{}
			continue
		}
		cmds = append(cmds, cmd)
		go func() { cmd.Wait(); ch <- ans{buf.Bytes()} }()
	}
	var out []byte
	for range solvers {
		a := <-ch
		if bytes.HasPrefix(a.out, []byte("unsat")) || bytes.HasPrefix(a.out, []byte("sat")) {
			out = a.out
			break
		}
	}
	for _, c := range cmds {
		c.Process.Kill()
	}
	t := &Solver{tb: s.tb, vars: vars, out: bufio.NewReader(bytes.NewReader(out))}
	line, _ := t.out.ReadString('\n')
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return SatYes, nil
		}
		return SatYes, t.readModel()
	}
	return Unknown, nil
}

type ModelVal struct {
	t *Term
	v uint64
}

// Check decides pc ∧ extra. On SatYes it returns a model of the variables known to
// the session.
func (s *Solver) Check(pc []*Term, extra *Term) (Sat, []ModelVal) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.puts("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	s.puts("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	canceled := strings.Contains(line, "canceled")
	if canceled {
		s.restart()
	}
	if line == "unknown" || line == "timeout" || canceled {
		// from scratch, with the bit-blasting tactics of a non-incremental solver
		if extra != nil && !canceled {
			s.puts("(pop 1)\n")
		}
		if dir := os.Getenv("GOSYM_SLOW"); dir != "" && true {
			txt, _ := s.dump(pc, extra)
			os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dir, len(pc), t0.UnixNano()%100000), []byte(txt+"; "+line+"\n"), 0o644)
		}
		r, m := s.oneShot(Z3Scratch, pc, extra, s.timeout)
		s.count(r, t0)
		return r, m
	}
	r := Unknown
	switch line {
	case "sat":
		r = SatYes
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
	default:
		if err != nil {
			line += " " + err.Error()
		}
		s.Stats.Queries++
		s.Stats.Unknown++
		s.Stats.Time += time.Since(t0)
		fmt.Println("solver: unexpected answer:", line)
		s.restart()
		return Unknown, nil
	}
	var m []ModelVal
	if r == SatYes && len(s.vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range s.vars {
			sb.WriteString(s.ref(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.puts(sb.String())
		s.in.Flush()
		m = s.readModel()
	}
	if extra != nil {
		s.puts("(pop 1)\n")
	}
	s.count(r, t0)
	return r, m
}

func (s *Solver) count(r Sat, t0 time.Time) {
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Slowest {
		s.Slowest = d
	}
	s.Stats.Queries++
	switch r {
	case SatYes:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
}

func (s *Solver) readModel() []ModelVal {
	// ((t5 #x00) (t6 true) ...)
	depth := 0
	var buf []byte
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died while reading a model: " + string(buf))
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		buf = append(buf, c)
		if depth == 0 && len(buf) > 1 && c == ')' {
			break
		}
	}
	txt := string(buf)
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic("solver: " + txt)
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	var m []ModelVal
	for i := 0; i+1 < len(f); {
		vi := i / 2
		v := s.vars[vi]
		val := f[i+1]
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		default:
			panic("solver: cannot parse model value " + val)
		}
		if f[i] != s.ref(v) {
			panic("solver: model order mismatch " + f[i] + " vs " + s.ref(v))
		}
		m = append(m, ModelVal{v, x})
		i += 2
	}
	s.out.ReadString('\n')
	return m
}
