package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Code is a compiled function, shared by all workers.
type Code struct {
	fn       *ssa.Function
	once     sync.Once
	blocks   []blockCode
	nregs    int
	params   []int
	frees    []int
	nat      nativeFn
	hasDefer bool
	recov    int // recover block index or -1
	name     string
	isRepo   bool
	hits     atomic.Int64
	pre      func(w *Worker, a []Val) (Val, bool)
	redir    *Code
	missing  string
}

type nativeFn func(w *Worker, fr *Frame, args []Val) Val

type opFn func(fr *Frame)

type blockCode struct {
	ops    []opFn
	phis   []phiCode
	instrs []ssa.Instruction
	preds  []int
}

type phiCode struct {
	dst   int
	edges []opnd
}

type opnd struct {
	reg int32 // >=0 register, -1 constant, <=-2 global -(reg+2)
	c   Val
}

func (o *opnd) get(fr *Frame) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -1 {
		return o.c
	}
	return Val{x: fr.w.global(int(-(o.reg + 2)))}
}

type Frame struct {
	w      *Worker
	g      *G
	code   *Code
	regs   []Val
	caller *Frame
	block  int
	prev   int
	ip     int
	next   int
	defers *deferRec
	result Val

	panicking bool
	panicVal  *targetPanic
	depth     int
	callPos   token.Pos
}

type deferRec struct {
	fn   Val
	code *Code
	args []Val
	next *deferRec
	pos  token.Pos
	bi   *ssa.Builtin
}

// targetPanic is a panic of the program under analysis.
type targetPanic struct {
	v     Val // interface value
	msg   string
	stack []string
	where string
	fatal bool // not recoverable
}

const (
	nextReturn = -1
)

// Program is the loaded target.
type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	codes    sync.Map // *ssa.Function -> *Code
	gmu      sync.Mutex
	gindex   map[*ssa.Global]int
	glist    []*ssa.Global
	repo     func(path string) bool
	harness  *ssa.Package
	sizes    types.Sizes
	initPkgs map[string]bool
	errType  types.Type
	rterr    types.Type
	byName   map[string]*ssa.Function

	structFieldT, mapIterT, rtypeT, poolT types.Type
	globalCopies                          [][2]*ssa.Global
	copied                                sync.Map
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.gindex[g]; ok {
		return i
	}
	i := len(p.glist)
	p.gindex[g] = i
	p.glist = append(p.glist, g)
	return i
}

func (w *Worker) global(i int) *Object {
	for i >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	o := w.globals[i]
	if o == nil {
		w.p.gmu.Lock()
		g := w.p.glist[i]
		w.p.gmu.Unlock()
		t := g.Type().Underlying().(*types.Pointer).Elem()
		o = w.allocFor(t)
		o.name = g.String()
		o.frozen = true
		if w.inPath {
			// created lazily during a path: it holds its zero value in the initial heap
			o.dirty = 0
		}
		w.globals[i] = o
		if g.Pkg != nil && w.initDone && !w.p.initPkgs[g.Pkg.Pkg.Path()] && !globalZeroOK(w.p, g) {
			w.lazyInit(g, i, o)
		}
	}
	return o
}

func globalZeroOK(p *Program, g *ssa.Global) bool {
	if _, ok := p.copied.Load(g); ok {
		return true
	}
	if g.Pkg.Pkg.Path() == "time" && g.Name() == "Local" {
		return true // a nil location is UTC
	}
	return strings.HasPrefix(g.Name(), "init$")
}

func (p *Program) code(fn *ssa.Function) *Code {
	if c, ok := p.codes.Load(fn); ok {
		c := c.(*Code)
		c.once.Do(func() { p.prepare(c) })
		return c
	}
	c := &Code{fn: fn}
	a, _ := p.codes.LoadOrStore(fn, c)
	c = a.(*Code)
	c.once.Do(func() { p.prepare(c) })
	return c
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (p *Program) prepare(c *Code) {
	fn := c.fn
	c.name = fnName(fn)
	if g, ok := natGen[c.name]; ok {
		c.nat = g(c)
		return
	}
	if nat, ok := natives[c.name]; ok {
		c.nat = nat
		return
	}
	c.pre = prehooks[c.name]
	if rn, ok := redirects[c.name]; ok {
		t := p.lookupFn(rn)
		if t == nil {
			c.missing = "redirect target " + rn + " not found"
			return
		}
		c.redir = p.code(t)
		return
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" && !p.initPkgs[fn.Pkg.Pkg.Path()] {
		c.nat = func(w *Worker, fr *Frame, args []Val) Val { return Val{} }
		return
	}
	p.built(fn)
	if fn.Blocks == nil {
		c.missing = "no body: " + c.name
		return
	}
	if fn.Pkg != nil {
		c.isRepo = p.repo(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.isRepo = p.repo(o.Pkg.Pkg.Path())
	}
	p.compile(c)
}

var rawCodes sync.Map

// rawCode is the code of a library function itself, past its model.
func (p *Program) rawCode(name string) *Code {
	a, _ := rawCodes.LoadOrStore(name, &Code{})
	c := a.(*Code)
	c.once.Do(func() {
		fn := p.lookupFn(name)
		c.fn, c.name = fn, name
		p.built(fn)
		p.compile(c)
	})
	return c
}

// lookupFn finds "pkg.Func" in the loaded packages.
func (p *Program) lookupFn(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	pk := p.pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	return pk.Func(name[i+1:])
}

type compiler struct {
	p    *Program
	c    *Code
	regs map[ssa.Value]int
}

func (p *Program) compile(c *Code) {
	fn := c.fn
	cc := &compiler{p, c, map[ssa.Value]int{}}
	n := 0
	for _, x := range fn.Params {
		cc.regs[x] = n
		c.params = append(c.params, n)
		n++
	}
	for _, x := range fn.FreeVars {
		cc.regs[x] = n
		c.frees = append(c.frees, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cc.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = n
	c.recov = -1
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	c.blocks = make([]blockCode, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bc := &c.blocks[i]
		for _, pr := range b.Preds {
			bc.preds = append(bc.preds, pr.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pc := phiCode{dst: cc.regs[ph]}
				for _, e := range ph.Edges {
					pc.edges = append(pc.edges, cc.op(e))
				}
				bc.phis = append(bc.phis, pc)
				continue
			}
			f := cc.instr(in)
			if f != nil {
				bc.ops = append(bc.ops, f)
				bc.instrs = append(bc.instrs, in)
			}
		}
	}
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: constVal(x)}
	case *ssa.Global:
		return opnd{reg: int32(-(cc.p.globalIndex(x) + 2))}
	case *ssa.Function:
		return opnd{reg: -1, c: Val{x: &Closure{fn: x, name: x.String()}}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: Val{x: x}}
	}
	r, ok := cc.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v (%T) in %v", v, v, cc.c.fn))
	}
	return opnd{reg: int32(r)}
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		info := b.Info()
		switch {
		case info&types.IsBoolean != 0:
			return vBool(constant.BoolVal(c.Value))
		case info&types.IsInteger != 0:
			wd := widthOf(t)
			if info&types.IsUnsigned != 0 {
				return Val{n: c.Uint64() & mask(wd)}
			}
			return Val{n: uint64(c.Int64()) & mask(wd)}
		case info&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return vF64(f)
		case info&types.IsComplex != 0:
			return Val{x: c.Complex128()}
		case info&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return vStr(constant.StringVal(c.Value))
			}
			return vStr(string(rune(c.Int64())))
		}
	case *types.Interface, *types.TypeParam:
		_ = b
	}
	panic(fmt.Sprintf("constVal %v %T", c, t.Underlying()))
}

func (fr *Frame) pos() token.Pos {
	if fr.code.fn == nil || fr.block >= len(fr.code.blocks) {
		return token.NoPos
	}
	b := &fr.code.blocks[fr.block]
	if fr.ip < len(b.instrs) {
		// the instruction or the nearest earlier one with a position
		for i := fr.ip; i >= 0; i-- {
			if p := b.instrs[i].Pos(); p.IsValid() {
				return p
			}
		}
	}
	return fr.code.fn.Pos()
}

// call runs a compiled function.
func (w *Worker) call(caller *Frame, c *Code, args []Val, env []Val) Val {
	for c.redir != nil {
		c = c.redir
	}
	if c.nat != nil {
		return c.nat(w, caller, args)
	}
	if c.missing != "" {
		panic(unsupported(c.missing))
	}
	if c.pre != nil {
		if v, ok := c.pre(w, args); ok {
			return v
		}
	}
	if c.isRepo {
		c.hits.Add(1)
	}
	fr := &Frame{w: w, code: c, caller: caller, g: w.curG}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > w.cfg.maxDepth {
		panic(&targetPanic{msg: "stack overflow: call depth exceeds the engine's limit", fatal: true, where: w.whereOf(caller), stack: w.stackFrom(caller)})
	}
	fr.regs = make([]Val, c.nregs)
	if len(args) != len(c.params) {
		panic(fmt.Sprintf("internal: %s called with %d args, want %d", c.name, len(args), len(c.params)))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(c.params):], env)
	w.cur = fr
	if !c.hasDefer {
		fr.exec()
	} else {
		fr.execDefer()
	}
	w.cur = caller
	return fr.result
}

func (fr *Frame) exec() {
	w := fr.w
	code := fr.code
	for {
		b := &code.blocks[fr.block]
		ops := b.ops
		w.steps += int64(len(ops))
		if w.steps > w.cfg.maxSteps {
			w.stepLimit(fr)
		}
		for i, f := range ops {
			fr.ip = i
			f(fr)
		}
		if fr.next == nextReturn {
			return
		}
		fr.jump()
	}
}

func (fr *Frame) jump() {
	prev := fr.block
	fr.block = fr.next
	nb := &fr.code.blocks[fr.block]
	if len(nb.phis) > 0 {
		pi := -1
		for i, p := range nb.preds {
			if p == prev {
				pi = i
				break
			}
		}
		if len(nb.phis) == 1 {
			ph := &nb.phis[0]
			fr.regs[ph.dst] = ph.edges[pi].get(fr)
		} else {
			var tmp [16]Val
			vs := tmp[:0]
			for i := range nb.phis {
				vs = append(vs, nb.phis[i].edges[pi].get(fr))
			}
			for i := range nb.phis {
				fr.regs[nb.phis[i].dst] = vs[i]
			}
		}
	}
}

// protect runs f and catches a target panic.
func (fr *Frame) protect(f func()) (p *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok || tp.fatal {
				panic(r)
			}
			fr.w.cur = fr
			p = tp
		}
	}()
	f()
	return nil
}

func (fr *Frame) execDefer() {
	p := fr.protect(fr.exec)
	if p == nil {
		return
	}
	fr.panicking = true
	fr.panicVal = p
	fr.runDefers()
	// recovered
	if fr.code.recov >= 0 {
		fr.next = fr.code.recov
		fr.block = fr.code.recov
		for {
			b := &fr.code.blocks[fr.block]
			for i, f := range b.ops {
				fr.ip = i
				f(fr)
			}
			if fr.next == nextReturn {
				return
			}
			fr.jump()
		}
	}
	fr.result = zeroResult(fr.code.fn)
}

func zeroResult(fn *ssa.Function) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Val{}
	case 1:
		return zeroVal(res.At(0).Type())
	}
	return zeroVal(res)
}

func (fr *Frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		p := fr.protect(func() {
			if d.bi != nil {
				fr.w.callBuiltin(fr, d.bi, d.args, nil)
				return
			}
			fr.w.callVal(fr, d.fn, d.args)
		})
		if p != nil {
			fr.panicking = true
			fr.panicVal = p
		}
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

// callVal calls a func value.
func (w *Worker) callVal(fr *Frame, f Val, args []Val) Val {
	cl, ok := f.x.(*Closure)
	if !ok {
		if f.x == nil {
			w.panicRT("invalid memory address or nil pointer dereference")
		}
		panic(unsupported(fmt.Sprintf("call of %T", f.x)))
	}
	if cl.nat != nil {
		return cl.nat(w, fr, args)
	}
	return w.call(fr, w.p.code(cl.fn), args, cl.env)
}

func (w *Worker) stepLimit(fr *Frame) {
	w.ex.mu.Lock()
	w.ex.Truncated[fmt.Sprintf("step limit in %s", fr.code.name)]++
	w.ex.mu.Unlock()
	panic(pathEnd{"steps"})
}

// ---- run-time errors ----

func (w *Worker) panicRT(msg string) {
	w.panicErr("runtime error: " + msg)
}

func (w *Worker) panicErr(msg string) {
	fr := w.curFrame()
	v := Val{x: &Iface{t: w.p.rterr, v: vStr(msg)}}
	panic(&targetPanic{v: v, msg: msg, where: w.whereOf(fr), stack: w.stackFrom(fr)})
}

func (w *Worker) nilDeref() {
	w.panicRT("invalid memory address or nil pointer dereference")
}

func (w *Worker) curFrame() *Frame {
	return w.cur
}

func (w *Worker) posStr(p token.Pos) string {
	pp := w.p.prog.Fset.Position(p)
	f := pp.Filename
	f = strings.TrimPrefix(f, "/repo/")
	f = strings.TrimPrefix(f, "/verif/harness/")
	if i := strings.Index(f, "/src/"); i >= 0 && strings.Contains(f[:i], "go") {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// whereOf names the innermost repository frame.
func (w *Worker) whereOf(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.code.isRepo {
			return f.code.name
		}
	}
	if fr != nil {
		return fr.code.name
	}
	return "?"
}

func (w *Worker) stackFrom(fr *Frame) []string {
	var r []string
	for f := fr; f != nil && len(r) < 40; f = f.caller {
		r = append(r, f.code.name+" "+w.posStr(f.pos()))
	}
	return r
}

func (w *Worker) stackTrace() []string { return w.stackFrom(w.curFrame()) }

var _ = math.Abs
