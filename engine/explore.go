package main

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"sync"
	"time"
)

// ---- decisions ----

const (
	dBranch = iota // taken: bool
	dForced        // only one side feasible; not asserted
	dConc          // concretisation: value val, taken or not
	dChoose        // val = alternative
)

type dnode struct {
	parent *dnode
	kind   uint8
	taken  bool
	val    uint64
	depth  int
}

type NV struct {
	name string
	w    uint8
	v    uint64
}

type workItem struct {
	trail *dnode
	model []NV
}

// pathEnd unwinds a path.
type pathEnd struct{ why string }

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type Violation struct {
	Kind   string     `json:"kind"`
	Msg    string     `json:"msg"`
	Where  string     `json:"where"`
	Stack  []string   `json:"stack,omitempty"`
	Inputs []InputVal `json:"inputs"`
	Sched  []string   `json:"schedule,omitempty"`
	trail  *dnode
	model  []NV
	multiG bool
	Native string         `json:"native,omitempty"`
	Params map[string]int `json:"params,omitempty"`
}

type InputVal struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"` // int, bytes, choose
	Int   int64  `json:"int"`
	Bytes []byte `json:"bytes,omitempty"`
}

type domain [4]uint64

func (d *domain) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *domain) first() uint64 {
	for i, x := range d {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

// Explorer coordinates the workers.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queues   [][]workItem
	idle     int
	nworkers int
	stop     bool
	deadline time.Time

	Paths       int64
	Killed      map[string]int64
	Violations  []*Violation
	vkeys       map[string]int
	Unsupported map[string]int64
	Reach       map[string]int64
	Asserts     map[string]int64
	Steps       int64
	MaxPaths    int64
	TimedOut    bool
	Unknowns    int64
	cache       qcache
	Truncated   map[string]int64
	Funcs       map[string]int64
	Stats       SolverStats
	MaxDepth    int
	MaxViol     int
	MaxG        int
	samples     []Sample
	nsample     int64
}

func newExplorer(n int) *Explorer {
	e := &Explorer{nworkers: n, queues: make([][]workItem, n), Killed: map[string]int64{}, vkeys: map[string]int{},
		Unsupported: map[string]int64{}, Reach: map[string]int64{}, Asserts: map[string]int64{}, Truncated: map[string]int64{}, Funcs: map[string]int64{}, MaxViol: 12}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(id int, it workItem) {
	e.mu.Lock()
	e.queues[id] = append(e.queues[id], it)
	if e.idle > 0 {
		e.cond.Signal()
	}
	e.mu.Unlock()
}

func (e *Explorer) pop(id int) (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || (!e.deadline.IsZero() && time.Now().After(e.deadline)) {
			for _, q := range e.queues {
				if len(q) > 0 && !e.stop {
					e.TimedOut = true
				}
			}
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if q := e.queues[id]; len(q) > 0 {
			it := q[len(q)-1]
			e.queues[id] = q[:len(q)-1]
			return it, true
		}
		best := -1
		for i, q := range e.queues {
			if len(q) > 0 && (best < 0 || len(q) > len(e.queues[best])) {
				best = i
			}
		}
		if best >= 0 {
			it := e.queues[best][0]
			e.queues[best] = append([]workItem(nil), e.queues[best][1:]...)
			return it, true
		}
		e.idle++
		if e.idle == e.nworkers {
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
		e.idle--
		if e.stop {
			return workItem{}, false
		}
	}
}

func (e *Explorer) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.Kind + "|" + v.Msg + "|" + v.Where
	e.vkeys[key]++
	if e.vkeys[key] > 3 || len(e.Violations) >= e.MaxViol {
		return
	}
	e.Violations = append(e.Violations, v)
}

// ---- path state on a worker ----

func (w *Worker) beginPath(it workItem) {
	w.pathNo++
	w.pc = w.pc[:0]
	w.prefix = w.prefix[:0]
	for n := it.trail; n != nil; n = n.parent {
		w.prefix = append(w.prefix, n)
	}
	for i, j := 0, len(w.prefix)-1; i < j; i, j = i+1, j-1 {
		w.prefix[i], w.prefix[j] = w.prefix[j], w.prefix[i]
	}
	w.pos = 0
	w.trail = nil
	w.model = it.model
	w.loadModel()
	clear(w.dom)
	clear(w.entangled)
	w.inputs = w.inputs[:0]
	w.nameCnt = map[string]int{}
	w.groups = map[*Term]*group{}
	w.pcset = map[*Term]bool{}
	w.steps = 0
}

func (w *Worker) loadModel() {
	w.tb.newModel()
	for _, m := range w.model {
		w.tb.setVar(w.tb.Var(m.name, m.w), m.v)
	}
}

func (w *Worker) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	if w.pcset[t] {
		return
	}
	w.pcset[t] = true
	w.pc = append(w.pc, t)
	w.link(t)
	if t.nvars == 1 && t.only.w == 8 {
		tt := w.tb.truthTable(t)
		d, ok := w.dom[t.only]
		if !ok {
			w.dom[t.only] = domain(*tt)
		} else {
			for i := range d {
				d[i] &= tt[i]
			}
			w.dom[t.only] = d
		}
		return
	}
	w.markEntangled(t)
}

func (w *Worker) markEntangled(t *Term) {
	for _, v := range w.varsOf(t) {
		w.entangled[v] = true
	}
}

func (w *Worker) varsOf(t *Term) []*Term {
	if t.nvars == 0 {
		return nil
	}
	if t.nvars == 1 {
		return []*Term{t.only}
	}
	if v, ok := w.varMemo[t]; ok {
		return v
	}
	seen := map[*Term]bool{}
	var out []*Term
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.nvars == 0 || seen[x] {
			continue
		}
		seen[x] = true
		if x.nvars == 1 {
			if !seen[x.only] || x == x.only {
				seen[x.only] = true
				out = append(out, x.only)
			}
			continue
		}
		st = append(st, x.a, x.b, x.c)
	}
	w.varMemo[t] = out
	return out
}

// feasible decides pc ∧ c. On SatYes the returned model extends the current one.
func (w *Worker) feasible(c *Term) (Sat, []NV) {
	if c.isConst() {
		if c.v == 1 {
			return SatYes, w.model
		}
		return Unsat, nil
	}
	if c.nvars == 1 && c.only.w == 8 && !w.cfg.noFast {
		v := c.only
		tt := w.tb.truthTable(c)
		d, ok := w.dom[v]
		if !ok {
			d = domain{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		for i := range d {
			d[i] &= tt[i]
		}
		if d.empty() {
			w.sol.Stats.FastUnsat++
			return Unsat, nil
		}
		if !w.entangled[v] {
			w.sol.Stats.FastSat++
			m := make([]NV, 0, len(w.model)+1)
			for _, x := range w.model {
				if x.name != v.name {
					m = append(m, x)
				}
			}
			return SatYes, append(m, NV{v.name, v.w, d.first()})
		}
	}
	r, m := w.solve(c)
	if r == Unknown {
		w.ex.mu.Lock()
		w.ex.Unknowns++
		w.ex.mu.Unlock()
	}
	return r, m
}

// ---- independence: only the constraints connected to a query reach the solver ----

type group struct {
	parent *group
	idx    []int // positions in pc
}

func (g *group) find() *group {
	for g.parent != nil {
		if g.parent.parent != nil {
			g.parent = g.parent.parent
		}
		g = g.parent
	}
	return g
}

func (w *Worker) link(t *Term) {
	var g *group
	for _, v := range w.varsOf(t) {
		x := w.groups[v]
		if x == nil {
			x = g
			if x == nil {
				x = &group{}
			}
			w.groups[v] = x
		}
		x = x.find()
		if g == nil {
			g = x
		} else if g = g.find(); x != g {
			if len(x.idx) > len(g.idx) {
				x, g = g, x
			}
			x.parent = g
			g.idx = append(g.idx, x.idx...)
			x.idx = nil
		}
	}
	if g != nil {
		g = g.find()
		g.idx = append(g.idx, len(w.pc)-1)
	}
}

func (w *Worker) slice(c *Term) []*Term {
	var gs []*group
	var idx []int
	for _, v := range w.varsOf(c) {
		x := w.groups[v]
		if x == nil {
			continue
		}
		x = x.find()
		dup := false
		for _, y := range gs {
			dup = dup || x == y
		}
		if !dup {
			gs = append(gs, x)
			idx = append(idx, x.idx...)
		}
	}
	sort.Ints(idx)
	out := make([]*Term, len(idx))
	for i, j := range idx {
		out[i] = w.pc[j]
	}
	return out
}

type qkey struct{ a, b, c, d uint64 }
type qres struct {
	r Sat
	m []NV // values of the variables of the slice and the query
}

type qcache struct {
	sh [64]struct {
		sync.Mutex
		m map[qkey]qres
	}
}

func (q *qcache) get(k qkey) (qres, bool) {
	s := &q.sh[k.a&63]
	s.Lock()
	r, ok := s.m[k]
	s.Unlock()
	return r, ok
}

func (q *qcache) put(k qkey, r qres) {
	s := &q.sh[k.a&63]
	s.Lock()
	if s.m == nil || len(s.m) > 40000 {
		s.m = map[qkey]qres{}
	}
	s.m[k] = r
	s.Unlock()
}

// satisfies evaluates cs under m alone.
func (w *Worker) satisfies(m []NV, cs []*Term) bool {
	w.tb.newModel()
	for _, x := range m {
		w.tb.setVar(w.tb.Var(x.name, x.w), x.v)
	}
	ok := true
	for _, c := range cs {
		ok = ok && w.tb.eval(c) == 1
	}
	w.loadModel()
	return ok
}

// solve decides pc ∧ c; the model returned on SatYes satisfies the whole of it.
func (w *Worker) solve(c *Term) (Sat, []NV) {
	if c.isFalse() {
		return Unsat, nil
	}
	if w.pcset[w.tb.Not(c)] {
		return Unsat, nil
	}
	if w.pcset[c] {
		return SatYes, w.model
	}
	sl := w.slice(c)
	k := qkey{c: c.h1, d: c.h2}
	for _, t := range sl {
		k.a += mix(t.h1, 17)
		k.b += mix(t.h2, 29)
	}
	res, ok := w.ex.cache.get(k)
	if ok {
		w.sol.Stats.Cached++
	} else {
		r, m := w.sol.Check(sl, c)
		res.r = r
		if r == SatYes {
			in := map[*Term]bool{}
			for _, v := range w.varsOf(c) {
				in[v] = true
			}
			for _, t := range sl {
				for _, v := range w.varsOf(t) {
					in[v] = true
				}
			}
			for _, x := range m {
				if in[x.t] {
					res.m = append(res.m, NV{x.t.name, x.t.w, x.v})
				}
			}
		}
		w.ex.cache.put(k, res)
	}
	if res.r == SatYes && !ok && !w.satisfies(res.m, append(sl, c)) {
		// a wrong model: ask again in a fresh session
		w.sol.restart()
		w.sol.Stats.BadModels++
		r, m := w.sol.Check(sl, c)
		res = qres{r: r}
		if r == SatYes {
			res.m = toNV(m)
			if !w.satisfies(res.m, append(sl, c)) {
				res = qres{r: Unknown}
			}
		}
		w.ex.cache.put(k, res)
	}
	if res.r != SatYes {
		return res.r, nil
	}
	in := make(map[string]bool, len(res.m))
	m := make([]NV, 0, len(w.model)+len(res.m))
	for _, x := range res.m {
		in[x.name] = true
		if x.v != 0 {
			m = append(m, x)
		}
	}
	for _, x := range w.model {
		if !in[x.name] {
			m = append(m, x)
		}
	}
	return SatYes, m
}

func (w *Worker) next(kind uint8) *dnode {
	if w.pos < len(w.prefix) {
		n := w.prefix[w.pos]
		w.pos++
		w.trail = n
		return n
	}
	return nil
}

func (w *Worker) record(kind uint8, taken bool, val uint64) *dnode {
	d := 0
	if w.trail != nil {
		d = w.trail.depth + 1
	}
	n := &dnode{parent: w.trail, kind: kind, taken: taken, val: val, depth: d}
	w.trail = n
	return n
}

func (w *Worker) fork(kind uint8, taken bool, val uint64, model []NV) {
	if w.replaying {
		return
	}
	d := 0
	if w.trail != nil {
		d = w.trail.depth + 1
	}
	w.ex.push(w.id, workItem{&dnode{parent: w.trail, kind: kind, taken: taken, val: val, depth: d}, model})
}

func (w *Worker) mismatch(what string) {
	panic(fmt.Sprintf("internal: decision replay mismatch at %d (%s); nondeterministic execution", w.pos, what))
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.v == 1
	}
	if n := w.next(dBranch); n != nil {
		switch n.kind {
		case dBranch:
			if n.taken {
				w.addPC(c)
			} else {
				w.addPC(w.tb.Not(c))
			}
		case dForced:
		default:
			w.mismatch("branch")
		}
		return n.taken
	}
	side := w.tb.eval(c) == 1
	other := c
	if side {
		other = w.tb.Not(c)
	}
	r, m := w.feasible(other)
	if r == Unsat {
		w.record(dForced, side, 0)
		return side
	}
	if r == SatYes {
		w.fork(dBranch, !side, 0, m)
	}
	w.record(dBranch, side, 0)
	if side {
		w.addPC(c)
	} else {
		w.addPC(w.tb.Not(c))
	}
	return side
}

func (w *Worker) branchVal(v Val) bool {
	if v.x == nil {
		return v.n != 0
	}
	return w.branch(w.term(v, 0))
}

// concretize forks over every feasible value of v.
func (w *Worker) concretize(v Val, width uint8) uint64 {
	t, ok := v.x.(*Term)
	if !ok {
		return v.n
	}
	if t.isConst() {
		return t.v
	}
	for tries := 0; ; tries++ {
		if tries > w.cfg.concLimit {
			w.truncate("concretisation limit (" + fmt.Sprint(w.cfg.concLimit) + " values)")
		}
		if n := w.next(dConc); n != nil {
			if n.kind != dConc && n.kind != dForced {
				w.mismatch("conc")
			}
			eq := w.tb.Eq(t, w.tb.Const(t.w, n.val))
			if n.kind == dForced {
				return n.val
			}
			if n.taken {
				w.addPC(eq)
				return n.val
			}
			w.addPC(w.tb.Not(eq))
			continue
		}
		val := w.tb.eval(t)
		eq := w.tb.Eq(t, w.tb.Const(t.w, val))
		if tries == 0 {
			if vals, ms := w.smallValues(t); vals != nil {
				if len(vals) == 1 {
					w.record(dForced, true, vals[0])
					return vals[0]
				}
				for i, v := range vals {
					if v != val {
						w.fork(dConc, true, v, ms[i])
					}
				}
				w.record(dConc, true, val)
				w.addPC(eq)
				return val
			}
		}
		r, m := w.feasible(w.tb.Not(eq))
		if r == Unsat {
			w.record(dForced, true, val)
			return val
		}
		if r == SatYes {
			w.fork(dConc, false, val, m)
		}
		w.record(dConc, true, val)
		w.addPC(eq)
		return val
	}
}

// smallValues tabulates the feasible values of a term over two or three bytes of small known
// domains, each with a model; nil when the table would be large.
func (w *Worker) smallValues(t *Term) ([]uint64, [][]NV) {
	if w.cfg.noFast || t.nvars < 2 {
		return nil, nil
	}
	vars := w.varsOf(t)
	sl := w.slice(t)
	seen := map[*Term]bool{}
	for _, v := range vars {
		seen[v] = true
	}
	for _, c := range sl {
		for _, v := range w.varsOf(c) {
			if !seen[v] {
				seen[v] = true
				vars = append(vars[:len(vars):len(vars)], v)
			}
		}
		if len(vars) > 3 {
			return nil, nil
		}
	}
	size := 1
	doms := make([][]uint64, len(vars))
	for i, v := range vars {
		if v.w != 8 {
			return nil, nil
		}
		d, ok := w.dom[v]
		if !ok {
			return nil, nil
		}
		for x := uint64(0); x < 256; x++ {
			if d[x/64]>>(x%64)&1 == 1 {
				doms[i] = append(doms[i], x)
			}
		}
		size *= len(doms[i])
		if size > 1024 {
			return nil, nil
		}
	}
	var rest []*Term
	for _, c := range sl {
		if c.nvars > 1 {
			rest = append(rest, c)
		}
	}
	var vals []uint64
	var ms [][]NV
	got := map[uint64]bool{}
	pos := make([]int, len(vars))
	for {
		w.tb.newModel()
		for i, v := range vars {
			w.tb.setVar(v, doms[i][pos[i]])
		}
		x := w.tb.eval(t)
		if !got[x] {
			ok := true
			for _, c := range rest {
				if w.tb.eval(c) != 1 {
					ok = false
					break
				}
			}
			if ok {
				got[x] = true
				m := make([]NV, 0, len(w.model)+len(vars))
				for _, y := range w.model {
					if !slices.ContainsFunc(vars, func(v *Term) bool { return v.name == y.name }) {
						m = append(m, y)
					}
				}
				for i, v := range vars {
					m = append(m, NV{v.name, v.w, doms[i][pos[i]]})
				}
				vals = append(vals, x)
				ms = append(ms, m)
			}
		}
		i := 0
		for ; i < len(pos); i++ {
			if pos[i]++; pos[i] < len(doms[i]) {
				break
			}
			pos[i] = 0
		}
		if i == len(pos) {
			break
		}
	}
	w.loadModel()
	if !got[w.tb.eval(t)] {
		return nil, nil
	}
	w.sol.Stats.FastSat += int64(len(vals))
	return vals, ms
}

// choose forks over n alternatives without touching the path condition.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d := w.next(dChoose); d != nil {
		if d.kind != dChoose {
			w.mismatch("choose")
		}
		// the alternative after this one was forked when this node was created by fork
		if w.pos == len(w.prefix) && int(d.val)+1 < n && !w.replaying {
			// siblings are pushed lazily, by the node that takes alternative val
			sib := &dnode{parent: d.parent, kind: dChoose, val: d.val + 1, depth: d.depth}
			w.ex.push(w.id, workItem{sib, w.model})
		}
		return int(d.val)
	}
	w.fork(dChoose, false, 1, w.model)
	w.record(dChoose, false, 0)
	return 0
}

func (w *Worker) truncate(why string) {
	w.ex.mu.Lock()
	w.ex.Truncated[why]++
	w.ex.mu.Unlock()
	panic(pathEnd{"truncated"})
}

func (w *Worker) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if w.pos < len(w.prefix) {
		// already known to be satisfiable by the item's model
		w.addPC(c)
		return
	}
	if w.tb.eval(c) != 1 {
		r, m := w.feasible(c)
		if r == Unsat {
			panic(pathEnd{"assume"})
		}
		if r == Unknown {
			panic(pathEnd{"unknown"})
		}
		w.model = m
		w.loadModel()
	}
	w.addPC(c)
}

// assert decides the property condition on this path.
func (w *Worker) assert(c *Term, kind, msg, where string) {
	w.ex.mu.Lock()
	w.ex.Asserts[msg]++
	w.ex.mu.Unlock()
	if c.isTrue() {
		w.sol.Stats.Trivial++
		return
	}
	if c.isFalse() {
		if w.pos >= len(w.prefix) {
			w.violation(kind, msg, where, w.model)
		}
		panic(pathEnd{"violation"})
	}
	if n := w.next(dBranch); n != nil {
		// decided when the prefix was first executed
		if n.kind == dBranch {
			w.addPC(c)
		}
		return
	}
	neg := w.tb.Not(c)
	r, m := w.solve(neg)
	switch r {
	case SatYes:
		w.violation(kind, msg, where, m)
		// continue with inputs for which it holds
		r2, m2 := w.feasible(c)
		if r2 != SatYes {
			panic(pathEnd{"violation"})
		}
		w.model = m2
		w.loadModel()
		w.record(dBranch, true, 0)
		w.addPC(c)
	case Unknown:
		w.ex.mu.Lock()
		w.ex.Unknowns++
		w.ex.mu.Unlock()
		if w.tb.eval(c) != 1 {
			panic(pathEnd{"unknown"})
		}
		w.record(dBranch, true, 0)
		w.addPC(c)
	case Unsat:
		w.record(dForced, true, 0) // implied by pc
	}
}

func (w *Worker) violation(kind, msg, where string, model []NV) {
	save := w.model
	w.model = model
	w.loadModel()
	v := &Violation{Kind: kind, Msg: msg, Where: where, trail: w.trail, model: model, multiG: w.everMultiG}
	v.Inputs = w.inputVals()
	v.Stack = w.stackTrace()
	if w.stackOverride != nil {
		v.Stack = w.stackOverride
	}
	v.Sched = append([]string(nil), w.schedLog...)
	w.ex.addViolation(v)
	w.model = save
	w.loadModel()
}

type inputRec struct {
	name, kind string
	terms      []*Term
	val        int
	signed     bool
}

func (w *Worker) run() {
	for {
		it, ok := w.ex.pop(w.id)
		if !ok {
			return
		}
		w.runPath(it)
	}
}

func (w *Worker) runPath(it workItem) {
	w.beginPath(it)
	w.resetPath()
	why := w.execMain()
	w.rollback()
	if why == "done" && len(w.inputs) > 0 {
		w.sample()
	}
	w.ex.mu.Lock()
	w.ex.Paths++
	w.ex.Killed[why]++
	w.ex.Steps += w.steps
	if w.trail != nil && w.trail.depth > w.ex.MaxDepth {
		w.ex.MaxDepth = w.trail.depth
	}
	if w.ex.MaxPaths > 0 && w.ex.Paths >= w.ex.MaxPaths {
		for _, q := range w.ex.queues {
			if len(q) > 0 {
				w.ex.TimedOut = true
			}
		}
		w.ex.stop = true
		w.ex.cond.Broadcast()
	}
	if len(w.ex.Violations) >= w.ex.MaxViol {
		w.ex.stop = true
		w.ex.cond.Broadcast()
	}
	w.ex.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// inputVals evaluates the recorded inputs under the current model.
func (w *Worker) inputVals() []InputVal {
	var out []InputVal
	for _, in := range w.inputs {
		iv := InputVal{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "bytes":
			iv.Bytes = make([]byte, len(in.terms))
			for i, t := range in.terms {
				iv.Bytes[i] = byte(w.tb.eval(t))
			}
		case "choose":
			iv.Int = int64(in.val)
		default:
			iv.Int = int64(w.tb.eval(in.terms[0]))
			if in.signed {
				iv.Int = sext(uint64(iv.Int), in.terms[0].w)
			}
		}
		out = append(out, iv)
	}
	return out
}

// sample keeps some completed paths for native validation.
func (w *Worker) sample() {
	w.ex.mu.Lock()
	w.ex.nsample++
	n := w.ex.nsample
	w.ex.mu.Unlock()
	if n > 4 && n&(n-1) != 0 {
		return
	}
	s := Sample{Inputs: w.inputVals(), Params: w.cfg.params}
	w.ex.mu.Lock()
	// later samples first: they lie deeper in the tree
	w.ex.samples = append([]Sample{s}, w.ex.samples...)
	w.ex.mu.Unlock()
}

func toNV(m []ModelVal) []NV {
	nm := make([]NV, 0, len(m))
	for _, x := range m {
		nm = append(nm, NV{x.t.name, x.t.w, x.v})
	}
	return nm
}
