package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduler: one goroutine of the target runs at a time; every
// synchronisation operation is a scheduling point at which the explorer chooses.

type G struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	cur     *Frame
	root    *Frame
	ready   func() bool // nil: runnable
	why     string
	done    bool
	daemon  bool
	quiesce bool
	wakeAt  int64 // virtual time, ns; 0 = none
	vc      []int
}

func (w *Worker) runnable(g *G) bool {
	return !g.done && !g.quiesce && (g.ready == nil || g.ready())
}

func (w *Worker) candidates(exclude *G) []*G {
	var r []*G
	for _, g := range w.gs {
		if g != exclude && w.runnable(g) {
			r = append(r, g)
		}
	}
	return r
}

// yield is a scheduling point of the running goroutine.
func (w *Worker) yield(what string) {
	if len(w.gs) == 1 || w.noPreempt > 0 {
		return
	}
	if w.preempts >= w.preemptBound {
		return
	}
	c := w.candidates(w.curG)
	if len(c) == 0 {
		return
	}
	k := w.choose(len(c) + 1)
	if k == 0 {
		return
	}
	w.preempts++
	w.schedNote(fmt.Sprintf("g%d(%s) preempted at %s -> g%d(%s)", w.curG.id, w.curG.name, what, c[k-1].id, c[k-1].name))
	w.switchTo(c[k-1])
}

func (w *Worker) schedNote(s string) {
	if len(w.schedLog) < 200 {
		w.schedLog = append(w.schedLog, s)
	}
}

func (w *Worker) switchTo(g *G) {
	me := w.curG
	if g == me {
		return
	}
	me.cur = w.cur
	w.curG = g
	w.cur = g.cur
	g.wake <- struct{}{}
	<-me.wake
	if w.aborting {
		panic(pathEnd{"abort"})
	}
}

// pickNext selects the goroutine to run when the current one cannot continue.
func (w *Worker) pickNext() *G {
	for {
		c := w.candidates(nil)
		if len(c) > 0 {
			k := 0
			if w.switches < w.switchBound {
				k = w.choose(len(c))
				if len(c) > 1 {
					w.switches++
				}
			}
			return c[k]
		}
		// idle: a goroutine waiting for quiescence
		for _, g := range w.gs {
			if g.quiesce && !g.done {
				g.quiesce = false
				return g
			}
		}
		// idle: advance virtual time
		var best *G
		for _, g := range w.gs {
			if !g.done && g.wakeAt > 0 && (best == nil || g.wakeAt < best.wakeAt) {
				best = g
			}
		}
		var tm *timerRec
		for _, t := range w.timers {
			if !t.dead && (tm == nil || t.at < tm.at) {
				tm = t
			}
		}
		if tm != nil && (best == nil || tm.at <= best.wakeAt) {
			w.timeSteps++
			if w.timeSteps > w.cfg.maxTimeSteps {
				panic(pathEnd{"time bound"})
			}
			tm.dead = true
			if tm.at > w.clockNs {
				w.clockNs = tm.at
			}
			tm.fire()
			continue
		}
		if best == nil {
			return nil
		}
		w.timeSteps++
		if w.timeSteps > w.cfg.maxTimeSteps {
			panic(pathEnd{"time bound"})
		}
		if best.wakeAt > w.clockNs {
			w.clockNs = best.wakeAt
		}
	}
}

// block suspends the current goroutine until ready() holds.
func (w *Worker) block(why string, ready func() bool) {
	me := w.curG
	if ready != nil && ready() {
		return
	}
	me.ready = ready
	if ready == nil {
		me.ready = func() bool { return false }
	}
	me.why = why
	g := w.pickNext()
	if g == nil {
		w.deadlock()
	}
	if g != me {
		w.switchTo(g)
	}
	me.ready = nil
	me.why = ""
}

func (w *Worker) deadlock() {
	var ws []string
	for _, g := range w.gs {
		if !g.done && !g.daemon {
			f := g.cur
			if g == w.curG {
				f = w.cur
			}
			ws = append(ws, fmt.Sprintf("%s in %s", g.why, w.whereOf(f)))
		}
	}
	sort.Strings(ws)
	w.violation("deadlock", "all goroutines are blocked: "+strings.Join(ws, "; "), w.whereOf(w.cur), w.model)
	panic(pathEnd{"violation"})
}

func (w *Worker) spawn(fr *Frame, f func(root *Frame), name string) *G {
	if len(w.gs) >= w.cfg.maxG {
		w.truncate("goroutine limit")
	}
	g := &G{id: len(w.gs), name: name, wake: make(chan struct{}), exited: make(chan struct{})}
	g.vc = w.vcFork(w.curG, g.id)
	root := &Frame{w: w, code: fr.code, caller: nil, block: fr.block, ip: fr.ip}
	root.g = g
	g.root = root
	g.cur = nil
	w.gs = append(w.gs, g)
	w.everMultiG = true
	if len(w.gs) > w.ex.MaxG {
		w.ex.MaxG = len(w.gs)
	}
	go func() {
		<-g.wake
		defer close(g.exited)
		if w.aborting {
			return
		}
		end := w.guard(func() {
			root.code = rootCode(name)
			w.cur = root
			f(root)
		}, "goroutine "+name)
		if w.aborting {
			return
		}
		g.done = true
		if end != "" {
			w.abortWith = end
			w.aborting = true
			w.curG = w.gs[0]
			w.gs[0].wake <- struct{}{}
			return
		}
		var next *G
		e2 := w.guard(func() { next = w.pickNext() }, "")
		if e2 == "" && next == nil {
			w.cur = root
			e2 = w.guard(func() { w.deadlock() }, "")
		}
		if e2 != "" {
			w.abortWith = e2
			w.aborting = true
			w.curG = w.gs[0]
			w.gs[0].wake <- struct{}{}
			return
		}
		w.curG = next
		w.cur = next.cur
		next.wake <- struct{}{}
	}()
	w.yield("go " + name)
	return g
}

var rootCodes = map[string]*Code{}

func rootCode(name string) *Code {
	// a frame-less root: only its name is used
	return &Code{name: "goroutine " + name, fn: nil, blocks: []blockCode{{}}}
}

// guard runs f and converts the ways a path can end into a reason.
func (w *Worker) guard(f func(), where string) (why string) {
	defer func() {
		r := recover()
		switch e := r.(type) {
		case nil:
		case pathEnd:
			why = e.why
		case unsupportedErr:
			w.ex.mu.Lock()
			w.ex.Unsupported[e.msg+" @ "+strings.Join(head(w.stackTrace(), 4), " < ")]++
			w.ex.mu.Unlock()
			why = "unsupported"
		case *targetPanic:
			w.violationStack("panic", e.msg, e.where, e.stack)
			why = "violation"
		default:
			if w.cfg.debug {
				panic(r)
			}
			w.ex.mu.Lock()
			w.ex.Unsupported[fmt.Sprint("internal error: ", r, " @ ", strings.Join(head(w.stackTrace(), 4), " < "))]++
			w.ex.mu.Unlock()
			why = "unsupported"
		}
	}()
	f()
	return ""
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (w *Worker) violationStack(kind, msg, where string, stack []string) {
	n := len(w.ex.Violations)
	_ = n
	w.stackOverride = stack
	w.violation(kind, msg, where, w.model)
	w.stackOverride = nil
}

func (w *Worker) execMain() (why string) {
	g := &G{id: 0, name: "main", wake: make(chan struct{}), vc: []int{1}}
	w.gs = []*G{g}
	w.curG = g
	w.cur = nil
	w.aborting = false
	w.abortWith = ""
	w.preempts = 0
	w.switches = 0
	w.timeSteps = 0
	w.clockNs = 1
	w.schedLog = w.schedLog[:0]
	w.everMultiG = false
	w.races = false
	w.mapOrder = false
	w.preemptBound = w.cfg.preempt
	w.switchBound = w.cfg.switches
	w.noPreempt = 0
	w.inPath = true
	w.userState = nil
	w.clockSec = Val{n: 1_000_000}
	why = w.guard(func() { w.call(nil, w.p.code(w.main), nil, nil) }, "main")
	w.inPath = false
	if w.aborting && w.abortWith != "" {
		why = w.abortWith
	}
	w.aborting = true
	for _, g := range w.gs[1:] {
		if g.done {
			continue
		}
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
		case <-g.exited:
		}
		<-g.exited
	}
	w.gs = nil
	if why == "" {
		why = "done"
	}
	return why
}

// ---- channels ----

type Chan struct {
	cap    int
	buf    []Val
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     types.Type
	frozen bool
	vc     []int
	id     int
}

type waiter struct {
	g      *G
	done   *bool
	sel    int
	selOut *int
	val    *Val
	ok     *bool
}

func (w *Worker) newChan(n int, et types.Type) *Chan {
	w.nobj++
	return &Chan{cap: n, et: et, id: w.nobj}
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !*x.done {
			return x
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if !*x.done {
			return true
		}
	}
	return false
}

func (x *waiter) complete(v Val, ok bool) {
	*x.done = true
	*x.val = v
	*x.ok = ok
	if x.selOut != nil {
		*x.selOut = x.sel
	}
}

func (w *Worker) chanFrozen(c *Chan) {
	if c.frozen && !c.closed {
		panic(unsupported("operation on a channel of the initial heap"))
	}
}

func (w *Worker) trySend(c *Chan, v Val) bool {
	if c.closed {
		w.panicErr("send on closed channel")
	}
	if x := dequeue(&c.recvq); x != nil {
		w.vcRelease(&c.vc)
		x.complete(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		w.vcRelease(&c.vc)
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		return true
	}
	return false
}

func (w *Worker) tryRecv(c *Chan) (Val, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if x := dequeue(&c.sendq); x != nil {
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], *x.val)
			x.complete(Val{}, true)
		}
		w.vcRelease(&c.vc)
		w.vcAcquire(c.vc)
		return v, true, true
	}
	if x := dequeue(&c.sendq); x != nil {
		v := *x.val
		x.complete(Val{}, true)
		w.vcRelease(&c.vc)
		w.vcAcquire(c.vc)
		return v, true, true
	}
	if c.closed {
		w.vcAcquire(c.vc)
		return zeroVal(c.et), false, true
	}
	return Val{}, false, false
}

func (w *Worker) chanSend(cv, v Val) {
	c, _ := cv.x.(*Chan)
	w.yield("chan send")
	if c == nil {
		w.block("send on nil channel", nil)
		return
	}
	w.chanFrozen(c)
	if w.trySend(c, v) {
		return
	}
	done, ok := false, false
	w.vcRelease(&c.vc)
	x := &waiter{g: w.curG, done: &done, val: &v, ok: &ok}
	c.sendq = append(c.sendq, x)
	w.block("chan send", func() bool { return done })
	w.vcAcquire(c.vc)
	if !ok {
		w.panicErr("send on closed channel")
	}
}

func (w *Worker) chanRecv(cv Val, et types.Type) (Val, bool) {
	c, _ := cv.x.(*Chan)
	w.yield("chan receive")
	if c == nil {
		w.block("receive from nil channel", nil)
		return zeroVal(et), false
	}
	w.chanFrozen(c)
	if v, ok, done := w.tryRecv(c); done {
		return v, ok
	}
	done, ok := false, false
	var v Val
	w.vcRelease(&c.vc)
	x := &waiter{g: w.curG, done: &done, val: &v, ok: &ok}
	c.recvq = append(c.recvq, x)
	w.block("chan receive", func() bool { return done })
	w.vcAcquire(c.vc)
	return v, ok
}

func (w *Worker) chanClose(cv Val) {
	c, _ := cv.x.(*Chan)
	w.yield("chan close")
	if c == nil {
		w.panicErr("close of nil channel")
	}
	w.chanFrozen(c)
	if c.closed {
		w.panicErr("close of closed channel")
	}
	c.closed = true
	w.vcRelease(&c.vc)
	for x := dequeue(&c.recvq); x != nil; x = dequeue(&c.recvq) {
		x.complete(zeroVal(c.et), false)
	}
	for x := dequeue(&c.sendq); x != nil; x = dequeue(&c.sendq) {
		x.complete(Val{}, false)
	}
}

type selState struct {
	send bool
	c    *Chan
	v    Val
	et   types.Type
}

func (cc *compiler) selectI(x *ssa.Select, dst int) opFn {
	type st struct {
		send bool
		c, v opnd
		et   types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		q := st{send: s.Dir == types.SendOnly, c: cc.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if q.send {
			q.v = cc.op(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, q)
	}
	blocking := x.Blocking
	return func(fr *Frame) {
		w := fr.w
		w.yield("select")
		ss := make([]selState, len(sts))
		for i := range sts {
			c, _ := sts[i].c.get(fr).x.(*Chan)
			ss[i] = selState{send: sts[i].send, c: c, et: sts[i].et}
			if c != nil {
				w.chanFrozen(c)
			}
			if sts[i].send {
				ss[i].v = sts[i].v.get(fr)
			}
		}
		idx, rv, rok := w.doSelect(ss, blocking)
		res := make(Tuple, 2, 2+nrecv)
		res[0] = vInt(int64(idx))
		res[1] = vBool(rok)
		for i := range ss {
			if !ss[i].send {
				if i == idx {
					res = append(res, rv)
				} else {
					res = append(res, zeroVal(ss[i].et))
				}
			}
		}
		fr.regs[dst] = Val{x: res}
	}
}

func (w *Worker) doSelect(ss []selState, blocking bool) (int, Val, bool) {
	var ready []int
	for i, s := range ss {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || hasWaiter(s.c.recvq) || len(s.c.buf) < s.c.cap {
				ready = append(ready, i)
			}
		} else if len(s.c.buf) > 0 || hasWaiter(s.c.sendq) || s.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[w.choose(len(ready))]
		s := ss[i]
		if s.send {
			w.trySend(s.c, s.v)
			return i, Val{}, false
		}
		v, ok, _ := w.tryRecv(s.c)
		return i, v, ok
	}
	if !blocking {
		return -1, Val{}, false
	}
	done, ok := false, false
	out := -1
	var val Val
	vals := make([]Val, len(ss))
	for i, s := range ss {
		if s.c == nil {
			continue
		}
		w.vcRelease(&s.c.vc)
		x := &waiter{g: w.curG, done: &done, sel: i, selOut: &out, ok: &ok}
		if s.send {
			vals[i] = s.v
			x.val = &vals[i]
			s.c.sendq = append(s.c.sendq, x)
		} else {
			x.val = &val
			s.c.recvq = append(s.c.recvq, x)
		}
	}
	w.block("select", func() bool { return done })
	w.vcAcquire(ss[out].c.vc)
	if ss[out].send {
		if !ok {
			w.panicErr("send on closed channel")
		}
		return out, Val{}, false
	}
	return out, val, ok
}

// ---- mutexes ----

type muState struct {
	locked  bool
	owner   *G
	vc      []int
	readers int
	pending int // writers waiting
	rwait   []*bool
	count   int    // WaitGroup
	path    uint32 // path it belongs to
}

func (w *Worker) sync(p Val) *muState {
	o, _ := p.x.(*Object)
	if o == nil {
		w.nilDeref()
	}
	var st *muState
	if old, ok := o.slots[p.n].x.(*muState); ok {
		if old.path == w.pathNo {
			return old
		}
		// left by the initialisation: this path works on a copy of its own
		st = &muState{locked: old.locked, readers: old.readers, count: old.count}
	} else {
		st = &muState{}
	}
	st.path = w.pathNo
	w.put(o, int(p.n), Val{x: st})
	return st
}

func (w *Worker) lock(p Val) {
	w.yield("Lock")
	st := w.sync(p)
	for st.locked {
		w.block("Lock", func() bool { return !st.locked })
	}
	st.locked = true
	st.owner = w.curG
	w.vcAcquire(st.vc)
}

func (w *Worker) unlock(p Val) {
	st := w.sync(p)
	if !st.locked {
		w.fatal("sync: unlock of unlocked mutex")
	}
	st.locked = false
	w.vcRelease(&st.vc)
	w.yield("Unlock")
}

func (w *Worker) fatal(msg string) {
	fr := w.curFrame()
	panic(&targetPanic{msg: "fatal error: " + msg, fatal: true, where: w.whereOf(fr), stack: w.stackFrom(fr)})
}

func (w *Worker) rwLock(p Val) {
	w.yield("RWMutex.Lock")
	st := w.sync(p)
	st.pending++
	for st.locked || st.readers > 0 {
		w.block("RWMutex.Lock", func() bool { return !st.locked && st.readers == 0 })
	}
	st.pending--
	st.locked = true
	w.vcAcquire(st.vc)
}

func (w *Worker) rwUnlock(p Val) {
	st := w.sync(p)
	if !st.locked {
		w.fatal("sync: Unlock of unlocked RWMutex")
	}
	st.locked = false
	w.vcRelease(&st.vc)
	for _, r := range st.rwait {
		*r = true
		st.readers++
	}
	st.rwait = nil
	w.yield("RWMutex.Unlock")
}

func (w *Worker) rLock(p Val) {
	w.yield("RLock")
	st := w.sync(p)
	if !st.locked && st.pending == 0 {
		st.readers++
	} else {
		granted := false
		st.rwait = append(st.rwait, &granted)
		w.block("RLock", func() bool {
			if !granted && !st.locked && st.pending == 0 {
				for _, r := range st.rwait {
					*r = true
					st.readers++
				}
				st.rwait = nil
			}
			return granted
		})
	}
	w.vcAcquire(st.vc)
}

func (w *Worker) rUnlock(p Val) {
	st := w.sync(p)
	if st.readers <= 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}
	st.readers--
	w.vcRelease(&st.vc)
	w.yield("RUnlock")
}

func (w *Worker) wgAdd(p Val, n int) {
	st := w.sync(p)
	st.count += n
	if st.count < 0 {
		w.panicErr("sync: negative WaitGroup counter")
	}
	w.vcRelease(&st.vc)
	if n < 0 {
		w.yield("WaitGroup.Done")
	}
}

func (w *Worker) wgWait(p Val) {
	w.yield("WaitGroup.Wait")
	st := w.sync(p)
	w.block("WaitGroup.Wait", func() bool { return st.count == 0 })
	w.vcAcquire(st.vc)
}

// ---- vector clocks and data races ----

func (w *Worker) vcFork(parent *G, id int) []int {
	vc := append([]int(nil), parent.vc...)
	for len(vc) <= id {
		vc = append(vc, 0)
	}
	vc[id] = 1
	for len(parent.vc) <= parent.id {
		parent.vc = append(parent.vc, 0)
	}
	parent.vc[parent.id]++
	return vc
}

func (w *Worker) vcRelease(vc *[]int) {
	g := w.curG
	if g == nil {
		return
	}
	*vc = vcJoin(*vc, g.vc)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *Worker) vcAcquire(vc []int) {
	if w.curG != nil {
		w.curG.vc = vcJoin(w.curG.vc, vc)
	}
}

func vcJoin(a, b []int) []int {
	r := append([]int(nil), a...)
	for i, x := range b {
		if i >= len(r) {
			r = append(r, x)
		} else if x > r[i] {
			r[i] = x
		}
	}
	return r
}

type raceCell struct {
	wg, wc int // last write: goroutine, clock
	wpos   string
	hasW   bool
	reads  map[int]int
}

func (w *Worker) vcAt(g int) int {
	if g < len(w.curG.vc) {
		return w.curG.vc[g]
	}
	return 0
}

func (w *Worker) raceCellAccess(c *raceCell, write bool, what string) {
	g := w.curG
	me := g.vc[g.id]
	if c.hasW && c.wg != g.id && c.wc > w.vcAt(c.wg) {
		w.raceReport(write, c, what)
	}
	if write {
		for rg, rc := range c.reads {
			if rg != g.id && rc > w.vcAt(rg) {
				w.raceReport(write, c, what)
			}
		}
		c.hasW, c.wg, c.wc = true, g.id, me
		c.wpos = w.whereOf(w.cur)
		c.reads = nil
		return
	}
	if c.reads == nil {
		c.reads = map[int]int{}
	}
	c.reads[g.id] = me
}

func (w *Worker) raceReport(write bool, c *raceCell, what string) {
	fr := w.cur
	if w.raceSkip(fr) {
		return
	}
	op := "read"
	if write {
		op = "write"
	}
	w.violation("race", fmt.Sprintf("data race: unsynchronised %s of %s (other access in %s)", op, what, c.wpos), w.whereOf(fr), w.model)
	panic(pathEnd{"violation"})
}

func (w *Worker) raceSkip(fr *Frame) bool {
	for f := fr; f != nil; f = f.caller {
		if f.code.isRepo {
			return false
		}
	}
	return true
}

func (w *Worker) raceAccess(o *Object, off, n int, write bool) {
	if w.noPreempt > 0 {
		return // inside a model
	}
	if !w.everMultiG || w.cur == nil {
		if !w.everMultiG {
			return
		}
	}
	if o.race == nil || o.racePath != w.pathNo {
		o.racePath = w.pathNo
		o.race = map[int]*raceCell{}
	}
	if o.isBytes && n > 64 {
		n = 1
	}
	for i := off; i < off+n; i++ {
		c := o.race[i]
		if c == nil {
			c = &raceCell{}
			o.race[i] = c
		}
		w.raceCellAccess(c, write, "memory")
	}
}

func (w *Worker) raceMap(m *MapObj, write bool) {
	if w.noPreempt > 0 {
		return
	}
	if !w.everMultiG {
		return
	}
	if m.race == nil || m.racePath != w.pathNo {
		m.racePath = w.pathNo
		m.race = map[int]*raceCell{}
	}
	c := m.race[0]
	if c == nil {
		c = &raceCell{}
		m.race[0] = c
	}
	w.raceCellAccess(c, write, "a map")
}
