package main

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

var natives = map[string]nativeFn{}

// natGen: natives of generic functions, specialised by their type arguments.
var natGen = map[string]func(c *Code) nativeFn{}

// redirects: functions of the standard library executed as Go models of the harness module.
var redirects = map[string]string{}

const symPkg = "verifharness/sym."
const modelPkg = "verifharness/model."

func (w *Worker) uname(name string) string {
	n := w.nameCnt[name]
	w.nameCnt[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (w *Worker) symInput(name string, wd uint8, signed bool) Val {
	name = w.uname(name)
	if w.pin != nil {
		iv := w.pin[name]
		w.inputs = append(w.inputs, inputRec{name: name, kind: "int", terms: []*Term{w.tb.Const(max(wd, 8), uint64(iv.Int)&mask(max(wd, 8)))}, signed: signed})
		if wd == 0 {
			return vBool(iv.Int != 0)
		}
		return Val{n: uint64(iv.Int) & mask(wd)}
	}
	if wd == 0 {
		t := w.tb.Var(name, 8)
		// a boolean input is the low bit of a byte
		b := w.tb.Not(w.tb.Eq(w.tb.Bin(OBAnd, t, w.tb.Const(8, 1)), w.tb.Const(8, 0)))
		w.inputs = append(w.inputs, inputRec{name: name, kind: "int", terms: []*Term{w.tb.Bin(OBAnd, t, w.tb.Const(8, 1))}})
		return w.fromTerm(b)
	}
	t := w.tb.Var(name, wd)
	w.inputs = append(w.inputs, inputRec{name: name, kind: "int", terms: []*Term{t}, signed: signed})
	return w.fromTerm(t)
}

func (w *Worker) symBytes(name string, n int) []*Term {
	name = w.uname(name)
	ts := make([]*Term, n)
	if w.pin != nil {
		iv := w.pin[name]
		for i := range ts {
			ts[i] = w.tb.bytes[0]
			if i < len(iv.Bytes) {
				ts[i] = w.tb.bytes[iv.Bytes[i]]
			}
		}
		w.inputs = append(w.inputs, inputRec{name: name, kind: "bytes", terms: ts})
		return ts
	}
	for i := range ts {
		ts[i] = w.tb.Var(name+"["+strconv.Itoa(i)+"]", 8)
	}
	w.inputs = append(w.inputs, inputRec{name: name, kind: "bytes", terms: ts})
	return ts
}

// digitVar is a byte variable that is a decimal digit on every path: its range is
// known to the simplifier, and the solver is told by a raw constraint.
func (w *Worker) digitVar(name string) *Term { return w.rangeVar(name, '0', '9') }

// rangeVar is a byte variable of a known range, which is part of its name.
func (w *Worker) rangeVar(name string, lo, hi byte) *Term {
	if lo == hi {
		return w.tb.Const(8, uint64(lo))
	}
	name += "@" + strconv.Itoa(int(lo)) + "-" + strconv.Itoa(int(hi))
	tb := w.tb
	d := tb.Var(name, 8)
	d.umin, d.umax = uint64(lo), uint64(hi)
	if w.pos >= len(w.prefix) {
		found := false
		for _, x := range w.model {
			found = found || x.name == name
		}
		if !found {
			w.model = append(append([]NV(nil), w.model...), NV{name, 8, uint64(lo)})
			w.loadModel()
		}
	}
	w.addPC(tb.mk(OUle, 0, 0, tb.Const(8, uint64(lo)), d, nil))
	w.addPC(tb.mk(OUle, 0, 0, d, tb.Const(8, uint64(hi)), nil))
	return d
}

func sliceOf(v Val) *SliceV {
	s, _ := v.x.(*SliceV)
	return s
}

// elements of a slice of one-slot values
func (w *Worker) elems(v Val) []Val {
	s := sliceOf(v)
	if s == nil {
		return nil
	}
	w.concSlice(s)
	return w.loadRange(s.obj, s.off, s.len*s.esz)
}

func nat(name string, f nativeFn) { natives[name] = f }

func (w *Worker) where(fr *Frame) string {
	if fr != nil {
		return fr.code.name
	}
	return ""
}

func init() {
	s := func(name string, f nativeFn) { nat(symPkg+name, f) }
	s("Symbolic", func(w *Worker, fr *Frame, a []Val) Val { return vBool(true) })
	s("Param", func(w *Worker, fr *Frame, a []Val) Val {
		if v, ok := w.cfg.params[w.goStr(a[0])]; ok {
			return vInt(int64(v))
		}
		return a[1]
	})
	for n, p := range map[string]struct {
		w  uint8
		sg bool
	}{"Int": {64, true}, "Int64": {64, true}, "Int32": {32, true}, "Int16": {16, true}, "Int8": {8, true},
		"Uint": {64, false}, "Uint64": {64, false}, "Uint32": {32, false}, "Uint16": {16, false}, "Byte": {8, false}, "Bool": {0, false}} {
		s(n, func(w *Worker, fr *Frame, a []Val) Val { return w.symInput(w.goStr(a[0]), p.w, p.sg) })
	}
	s("IntRange", func(w *Worker, fr *Frame, a []Val) Val {
		lo := int64(w.concretize(a[1], 64))
		hi := int64(w.concretize(a[2], 64))
		if lo >= 0 && hi < 256 && w.pin == nil {
			// a byte variable, so that small domains are decided exactly without the solver
			name := w.uname(w.goStr(a[0]))
			t := w.tb.Var(name, 8)
			x := w.tb.Zext(t, 64)
			w.inputs = append(w.inputs, inputRec{name: name, kind: "int", terms: []*Term{x}, signed: true})
			w.assume(w.tb.And(w.tb.Ule(w.tb.Const(8, uint64(lo)), t), w.tb.Ule(t, w.tb.Const(8, uint64(hi)))))
			return w.fromTerm(x)
		}
		v := w.symInput(w.goStr(a[0]), 64, true)
		t := w.term(v, 64)
		w.assume(w.tb.And(w.tb.Sle(w.tb.Int(lo), t), w.tb.Sle(t, w.tb.Int(hi))))
		return v
	})
	s("Choose", func(w *Worker, fr *Frame, a []Val) Val {
		n := int(w.concretize(a[1], 64))
		name := w.uname(w.goStr(a[0]))
		k := w.choose(n)
		w.inputs = append(w.inputs, inputRec{name: name, kind: "choose", val: k})
		return vInt(int64(k))
	})
	s("Digits", func(w *Worker, fr *Frame, a []Val) Val {
		n := int(w.concretize(a[1], 64))
		if w.pin != nil {
			return w.bytesFromTerms(w.symBytes(w.goStr(a[0]), n))
		}
		name := w.uname(w.goStr(a[0]))
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = w.digitVar(name + "[" + strconv.Itoa(i) + "]")
		}
		w.inputs = append(w.inputs, inputRec{name: name, kind: "bytes", terms: ts})
		return w.bytesFromTerms(ts)
	})
	s("ByteIn", func(w *Worker, fr *Frame, a []Val) Val {
		lo, hi := byte(w.concretize(a[1], 8)), byte(w.concretize(a[2], 8))
		if w.pin != nil {
			return Val{x: w.symBytes(w.goStr(a[0]), 1)[0]}
		}
		name := w.uname(w.goStr(a[0]))
		t := w.rangeVar(name, lo, hi)
		w.inputs = append(w.inputs, inputRec{name: name, kind: "bytes", terms: []*Term{t}})
		if t.isConst() {
			return Val{n: t.v}
		}
		return Val{x: t}
	})
	s("Bytes", func(w *Worker, fr *Frame, a []Val) Val {
		n := int(w.concretize(a[1], 64))
		return w.bytesFromTerms(w.symBytes(w.goStr(a[0]), n))
	})
	s("String", func(w *Worker, fr *Frame, a []Val) Val {
		n := int(w.concretize(a[1], 64))
		return w.mkStr(w.symBytes(w.goStr(a[0]), n))
	})
	s("Assume", func(w *Worker, fr *Frame, a []Val) Val {
		w.assume(w.term(a[0], 0))
		return Val{}
	})
	s("Assert", func(w *Worker, fr *Frame, a []Val) Val {
		w.assert(w.term(a[0], 0), "assert", w.goStr(a[1]), w.where(fr))
		return Val{}
	})
	s("Fail", func(w *Worker, fr *Frame, a []Val) Val {
		w.assert(w.tb.Bool(false), "assert", w.goStr(a[0]), w.where(fr))
		return Val{}
	})
	s("Reach", func(w *Worker, fr *Frame, a []Val) Val {
		l := w.goStr(a[0])
		w.ex.mu.Lock()
		w.ex.Reach[l]++
		w.ex.mu.Unlock()
		return Val{}
	})
	s("Concretize", func(w *Worker, fr *Frame, a []Val) Val { return Val{n: w.concretize(a[0], 64)} })
	s("And", func(w *Worker, fr *Frame, a []Val) Val { return w.fromTerm(w.tb.And(w.term(a[0], 0), w.term(a[1], 0))) })
	s("Or", func(w *Worker, fr *Frame, a []Val) Val { return w.fromTerm(w.tb.Or(w.term(a[0], 0), w.term(a[1], 0))) })
	s("Not", func(w *Worker, fr *Frame, a []Val) Val { return w.fromTerm(w.tb.Not(w.term(a[0], 0))) })
	s("Implies", func(w *Worker, fr *Frame, a []Val) Val {
		return w.fromTerm(w.tb.Or(w.tb.Not(w.term(a[0], 0)), w.term(a[1], 0)))
	})
	s("Ite", func(w *Worker, fr *Frame, a []Val) Val {
		return w.fromTerm(w.tb.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
	})
	s("InRange", func(w *Worker, fr *Frame, a []Val) Val {
		x := w.term(a[0], 64)
		return w.fromTerm(w.tb.And(w.tb.Sle(w.term(a[1], 64), x), w.tb.Sle(x, w.term(a[2], 64))))
	})
	s("EqBytes", func(w *Worker, fr *Frame, a []Val) Val {
		return w.fromTerm(w.bytesEq(w.sliceTerms(a[0]), w.sliceTerms(a[1])))
	})
	s("EqStr", func(w *Worker, fr *Frame, a []Val) Val { return w.fromTerm(w.strEq(a[0], a[1])) })
	s("MapOrder", func(w *Worker, fr *Frame, a []Val) Val { w.mapOrder = a[0].n != 0; return Val{} })
	s("Races", func(w *Worker, fr *Frame, a []Val) Val { w.races = a[0].n != 0; return Val{} })
	s("Preempt", func(w *Worker, fr *Frame, a []Val) Val { w.preemptBound = int(a[0].n); return Val{} })
	s("Explore", func(w *Worker, fr *Frame, a []Val) Val {
		w.preempts, w.preemptBound = 0, int(a[0].n)
		w.switches, w.switchBound = 0, int(a[1].n)
		return Val{}
	})
	s("Live", func(w *Worker, fr *Frame, a []Val) Val {
		n := 0
		for _, g := range w.gs[1:] {
			if !g.done && !g.daemon {
				n++
			}
		}
		return vInt(int64(n))
	})
	s("FindAll", func(w *Worker, fr *Frame, a []Val) Val {
		root, ok := a[0].x.(*Iface)
		like, ok2 := a[1].x.(*Iface)
		if !ok || !ok2 {
			panic(unsupported("FindAll of nil"))
		}
		l := w.findAll(root, like.t)
		o := w.newObj(len(l), nil)
		for i, v := range l {
			o.slots[i] = Val{x: &Iface{t: like.t, v: v}}
		}
		return w.mkSlice(o, len(l), 1)
	})
	s("Atomic", func(w *Worker, fr *Frame, a []Val) Val {
		w.noPreempt++
		defer func() { w.noPreempt-- }()
		w.callVal(fr, a[0], nil)
		return Val{}
	})
	s("Quiesce", func(w *Worker, fr *Frame, a []Val) Val {
		w.quiesce()
		return Val{}
	})
	s("Blocks", func(w *Worker, fr *Frame, a []Val) Val {
		done := false
		f := a[0]
		g := w.spawn(fr, func(root *Frame) { w.callVal(root, f, nil); done = true }, "blocks")
		g.daemon = true
		w.quiesce()
		return vBool(!done)
	})
	s("Panics", func(w *Worker, fr *Frame, a []Val) (res Val) {
		cur := w.cur
		np := w.noPreempt
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				w.cur = cur
				w.noPreempt = np
				res = Val{x: Tuple{vBool(true), vStr(tp.msg)}}
			}
		}()
		w.callVal(fr, a[0], nil)
		return Val{x: Tuple{vBool(false), Val{}}}
	})
	s("Now", func(w *Worker, fr *Frame, a []Val) Val { return vInt(w.clockNs) })
	s("ClockSec", func(w *Worker, fr *Frame, a []Val) Val { return w.clockSec })
	s("SetClockSec", func(w *Worker, fr *Frame, a []Val) Val { w.clockSec = a[0]; return Val{} })
	s("SleepUntil", func(w *Worker, fr *Frame, a []Val) Val {
		at := int64(w.concretize(a[0], 64))
		if at <= w.clockNs {
			w.yield("sleep")
			return Val{}
		}
		g := w.curG
		g.wakeAt = at
		w.block("sleep", func() bool { return w.clockNs >= at })
		g.wakeAt = 0
		return Val{}
	})
	s("StartTimer", func(w *Worker, fr *Frame, a []Val) Val {
		f := a[1]
		t := &timerRec{at: int64(w.concretize(a[0], 64)), seq: len(w.timers)}
		root := fr
		t.fire = func() {
			save := w.cur
			w.noPreempt++
			w.callVal(root, f, nil)
			w.noPreempt--
			w.cur = save
		}
		w.timers = append(w.timers, t)
		return vInt(int64(t.seq))
	})
	s("StopTimer", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.timers[int(a[0].n)]
		was := !t.dead
		t.dead = true
		return vBool(was)
	})
	s("SHA1", func(w *Worker, fr *Frame, a []Val) Val {
		out := w.sha1(w.sliceTerms(a[0]))
		r := make([]Val, 20)
		for i := range r {
			r[i] = w.fromTerm(out[i])
		}
		return Val{x: &Agg{r}}
	})
	s("Text", func(w *Worker, fr *Frame, a []Val) Val { return w.sprintf(fr, w.goStr(a[0]), w.elems(a[1])) })
	s("Unsupported", func(w *Worker, fr *Frame, a []Val) Val { panic(unsupported(w.goStr(a[0]))) })
	s("Debug", func(w *Worker, fr *Frame, a []Val) Val {
		if w.cfg.debug {
			for _, v := range w.elems(a[0]) {
				if i, ok := v.x.(*Iface); ok && isString(i.t) {
					if t, ok := i.v.x.(string); ok {
						fmt.Print("DBG ", t)
						continue
					}
				}
				fmt.Print(w.show(v), " ")
			}
			fmt.Println()
		}
		return Val{}
	})
	s("Crash", func(w *Worker, fr *Frame, a []Val) Val { panic(pathEnd{"crash"}) })

	natGen["reflect.TypeFor"] = func(c *Code) nativeFn {
		t := c.fn.TypeArgs()[0]
		return func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(t) }
	}
	natGen["internal/reflectlite.TypeFor"] = natGen["reflect.TypeFor"]
	initAtomic()
	initBytealg()
	initMisc()
	initModels()
}

func (w *Worker) show(v Val) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case *Iface:
		return x.t.String() + ":" + w.show(x.v)
	case *Term:
		return x.String()
	case string:
		return strconv.Quote(x)
	case *SymStr:
		return fmt.Sprintf("sym%v", x.b)
	case *SliceV:
		var sb strings.Builder
		fmt.Fprintf(&sb, "[len %d:", x.len)
		for i := 0; i < x.len*x.esz && i < 64; i++ {
			sb.WriteString(" " + w.show(x.obj.get(x.off+i)))
		}
		return sb.String() + "]"
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range x.v {
			sb.WriteString(" " + w.show(e))
		}
		return sb.String() + "}"
	case *Object:
		return fmt.Sprintf("&obj%d+%d", x.id, v.n)
	}
	return fmt.Sprintf("%T", v.x)
}

func (w *Worker) quiesce() {
	w.curG.quiesce = true
	me := w.curG
	me.ready = func() bool { return false }
	me.why = "quiesce"
	g := w.pickNext()
	if g == nil {
		w.deadlock()
	}
	if g != me {
		w.switchTo(g)
	}
	me.ready = nil
	me.quiesce = false
	w.quietOrder = false
}

// ---- SHA-1 as an injective uninterpreted function ----

type shaRec struct {
	in, out []*Term
}

func (w *Worker) sha1(in []*Term) []*Term {
	conc := true
	for _, t := range in {
		if !t.isConst() {
			conc = false
			break
		}
	}
	for _, r := range w.shas {
		if len(r.in) == len(in) {
			same := true
			for i := range in {
				if r.in[i] != in[i] {
					same = false
					break
				}
			}
			if same {
				return r.out
			}
		}
	}
	out := make([]*Term, 20)
	if conc {
		b := make([]byte, len(in))
		for i, t := range in {
			b[i] = byte(t.v)
		}
		h := sha1.Sum(b)
		for i := range out {
			out[i] = w.tb.bytes[h[i]]
		}
	} else {
		name := w.uname("sha1")
		for i := range out {
			out[i] = w.tb.Var(name+"["+strconv.Itoa(i)+"]", 8)
		}
	}
	rec := shaRec{append([]*Term(nil), in...), out}
	for _, r := range w.shas {
		oeq := w.bytesEq(r.out, out)
		if len(r.in) != len(in) {
			w.assume(w.tb.Not(oeq))
			continue
		}
		ieq := w.bytesEq(r.in, in)
		w.assume(w.tb.Eq(ieq, oeq))
	}
	w.shas = append(w.shas, rec)
	return out
}

// ---- decimal formatting ----

// fmtDec renders a 64-bit value in decimal. A symbolic value forks on sign and
// number of digits; its digits are fresh variables tied to the value by Horner's
// rule, which determines them uniquely.
func (w *Worker) fmtDec(v Val, signed bool) Val {
	t, ok := v.x.(*Term)
	if !ok || t.isConst() {
		n := v.n
		if ok {
			n = t.v
		}
		if signed {
			return vStr(strconv.FormatInt(int64(n), 10))
		}
		return vStr(strconv.FormatUint(n, 10))
	}
	tb := w.tb
	var out []*Term
	if signed && t.umax > math.MaxInt64 {
		if w.branch(tb.Slt(t, tb.Int(0))) {
			out = append(out, tb.bytes['-'])
			t = tb.Neg(t)
		}
	}
	if t.isConst() {
		s := strconv.FormatUint(t.v, 10)
		for i := 0; i < len(s); i++ {
			out = append(out, tb.bytes[s[i]])
		}
		return w.mkStr(out)
	}
	if ds, ok := w.digits[t]; ok {
		return w.mkStr(append(out, ds...))
	}
	// number of digits
	k := 1
	p := uint64(10)
	for k < 20 {
		if w.branch(tb.Ult(t, tb.Const(64, p))) {
			break
		}
		k++
		if k == 20 {
			break
		}
		p *= 10
	}
	name := w.uname("digits")
	ds := make([]*Term, k)
	var acc *Term
	if w.pos >= len(w.prefix) {
		// extend the model with the digits it implies
		m := append([]NV(nil), w.model...)
		txt := strconv.FormatUint(tb.eval(t), 10)
		for i := range ds {
			if i < len(txt) {
				m = append(m, NV{name + "[" + strconv.Itoa(i) + "]", 8, uint64(txt[i])})
			}
		}
		w.model = m
		w.loadModel()
	}
	for i := range ds {
		d := w.digitVar(name + "[" + strconv.Itoa(i) + "]")
		if i == 0 && k > 1 {
			w.assumeFresh(tb.Ule(tb.Const(8, '1'), d))
		}
		ds[i] = d
		dv := tb.Zext(tb.Bin(OSub, d, tb.Const(8, '0')), 64)
		if acc == nil {
			acc = dv
		} else {
			acc = tb.Bin(OAdd, tb.Bin(OMul, acc, tb.Const(64, 10)), dv)
		}
		// prefix bound keeps the 20-digit case from wrapping
		if k == 20 && i == 18 {
			w.assumeFresh(tb.Ule(acc, tb.Const(64, math.MaxUint64/10)))
		}
	}
	if k == 20 {
		// the last step must not wrap
		dv := tb.Zext(tb.Bin(OSub, ds[19], tb.Const(8, '0')), 64)
		w.assumeFresh(tb.Ule(dv, acc))
		w.assumeFresh(tb.Ule(tb.Bin(OSub, acc, dv), acc))
	}
	w.assume(tb.Eq(acc, t))
	w.digits[t] = ds
	w.digits[acc] = ds
	w.digitsOf[ds[0]] = digitStr{ds, t}
	return w.mkStr(append(out, ds...))
}

type digitStr struct {
	ds []*Term
	t  *Term
}

// prehooks may answer a call in place of the function's body.
var prehooks = map[string]func(w *Worker, a []Val) (Val, bool){
	// parsing exactly the digits that formatting a value produced gives the value back
	"internal/strconv.ParseUint": func(w *Worker, a []Val) (Val, bool) {
		s, ok := a[0].x.(*SymStr)
		if !ok || a[1].x != nil || a[2].x != nil || a[1].n != 10 || a[2].n > 64 || len(s.b) == 0 {
			return Val{}, false
		}
		d, ok := w.digitsOf[s.b[0]]
		if !ok || len(d.ds) != len(s.b) {
			return Val{}, false
		}
		for i := range d.ds {
			if d.ds[i] != s.b[i] {
				return Val{}, false
			}
		}
		if n := a[2].n; n != 0 && n < 64 && !w.branch(w.tb.Not(w.tb.Ult(w.tb.Const(64, 1<<n-1), d.t))) {
			return Val{}, false // out of range
		}
		return Val{x: Tuple{w.fromTerm(d.t), Val{}}}, true
	},
}

// assumeFresh adds a constraint on fresh variables that is satisfiable by itself.
func (w *Worker) assumeFresh(c *Term) { w.assume(c) }

// ---- sync/atomic ----

func initAtomic() {
	type k struct {
		suf string
		wd  uint8
	}
	tt := map[string]*types.Basic{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32],
		"Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr]}
	sched := func(w *Worker, fr *Frame, what string) {
		// atomics inside the sync package are not scheduling points of their own
		if fr != nil && (strings.HasPrefix(fr.code.name, "(*sync.") || strings.HasPrefix(fr.code.name, "sync.")) {
			return
		}
		w.yield(what)
	}
	acc := func(w *Worker, p Val, f func() Val) Val {
		r := w.races
		w.races = false
		if o, ok := p.x.(*Object); ok && r {
			w.atomicSync(o, int(p.n))
		}
		v := f()
		w.races = r
		return v
	}
	for suf, t := range tt {
		wd := widthOf(t)
		var ty types.Type = t
		add := func(name string, f func(w *Worker, a []Val) Val) {
			nat("sync/atomic."+name+suf, func(w *Worker, fr *Frame, a []Val) Val {
				if a[0].x == nil {
					w.nilDeref()
				}
				sched(w, fr, "atomic."+name)
				return acc(w, a[0], func() Val { return f(w, a) })
			})
		}
		add("Load", func(w *Worker, a []Val) Val { return w.load(a[0], ty, false, 1) })
		add("Store", func(w *Worker, a []Val) Val { w.store(a[0], ty, false, 1, a[1]); return Val{} })
		add("Swap", func(w *Worker, a []Val) Val {
			o := w.load(a[0], ty, false, 1)
			w.store(a[0], ty, false, 1, a[1])
			return o
		})
		add("Add", func(w *Worker, a []Val) Val {
			o := w.load(a[0], ty, false, 1)
			n := w.fromTerm(w.tb.Bin(OAdd, w.term(o, wd), w.term(a[1], wd)))
			w.store(a[0], ty, false, 1, n)
			return n
		})
		for name, op := range map[string]Op{"And": OBAnd, "Or": OBOr} {
			add(name, func(w *Worker, a []Val) Val {
				o := w.load(a[0], ty, false, 1)
				w.store(a[0], ty, false, 1, w.fromTerm(w.tb.Bin(op, w.term(o, wd), w.term(a[1], wd))))
				return o
			})
		}
		add("CompareAndSwap", func(w *Worker, a []Val) Val {
			o := w.load(a[0], ty, false, 1)
			if w.branch(w.tb.Eq(w.term(o, wd), w.term(a[1], wd))) {
				w.store(a[0], ty, false, 1, a[2])
				return vBool(true)
			}
			return vBool(false)
		})
	}
	up := types.Typ[types.UnsafePointer]
	nat("sync/atomic.LoadPointer", func(w *Worker, fr *Frame, a []Val) Val { return w.load(a[0], up, false, 1) })
	nat("sync/atomic.StorePointer", func(w *Worker, fr *Frame, a []Val) Val { w.store(a[0], up, false, 1, a[1]); return Val{} })
	nat("sync/atomic.SwapPointer", func(w *Worker, fr *Frame, a []Val) Val {
		o := w.load(a[0], up, false, 1)
		w.store(a[0], up, false, 1, a[1])
		return o
	})
	nat("sync/atomic.CompareAndSwapPointer", func(w *Worker, fr *Frame, a []Val) Val {
		o := w.load(a[0], up, false, 1)
		if samePtr(o, a[1]) {
			w.store(a[0], up, false, 1, a[2])
			return vBool(true)
		}
		return vBool(false)
	})
	// generic atomic.Pointer[T]
	nat("(*sync/atomic.Pointer[T]).Load", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.Load")
		return acc(w, a[0], func() Val { return w.atomField(a[0]) })
	})
	nat("(*sync/atomic.Pointer[T]).Store", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.Store")
		return acc(w, a[0], func() Val { w.setAtomField(a[0], a[1]); return Val{} })
	})
	nat("(*sync/atomic.Pointer[T]).Swap", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.Swap")
		return acc(w, a[0], func() Val { o := w.atomField(a[0]); w.setAtomField(a[0], a[1]); return o })
	})
	nat("(*sync/atomic.Pointer[T]).CompareAndSwap", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.CAS")
		return acc(w, a[0], func() Val {
			if samePtr(w.atomField(a[0]), a[1]) {
				w.setAtomField(a[0], a[2])
				return vBool(true)
			}
			return vBool(false)
		})
	})
	// atomic.Value: one interface slot
	nat("(*sync/atomic.Value).Load", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.Value.Load")
		return acc(w, a[0], func() Val { o := a[0].x.(*Object); return o.get(int(a[0].n)) })
	})
	nat("(*sync/atomic.Value).Store", func(w *Worker, fr *Frame, a []Val) Val {
		sched(w, fr, "atomic.Value.Store")
		if a[1].x == nil {
			w.panicErr("sync/atomic: store of nil value into Value")
		}
		return acc(w, a[0], func() Val { w.put(a[0].x.(*Object), int(a[0].n), a[1]); return Val{} })
	})

	nat("(*sync.Mutex).Lock", func(w *Worker, fr *Frame, a []Val) Val { w.lock(a[0]); return Val{} })
	nat("(*sync.Mutex).Unlock", func(w *Worker, fr *Frame, a []Val) Val { w.unlock(a[0]); return Val{} })
	nat("(*sync.Mutex).TryLock", func(w *Worker, fr *Frame, a []Val) Val {
		w.yield("TryLock")
		st := w.sync(a[0])
		if st.locked {
			return vBool(false)
		}
		st.locked = true
		w.vcAcquire(st.vc)
		return vBool(true)
	})
	nat("(*sync.RWMutex).TryLock", func(w *Worker, fr *Frame, a []Val) Val {
		w.yield("TryLock")
		st := w.sync(a[0])
		if st.locked || st.readers > 0 || st.pending > 0 {
			return vBool(false)
		}
		st.locked = true
		w.vcAcquire(st.vc)
		return vBool(true)
	})
	nat("(*sync.RWMutex).TryRLock", func(w *Worker, fr *Frame, a []Val) Val {
		w.yield("TryRLock")
		st := w.sync(a[0])
		if st.locked || st.pending > 0 {
			return vBool(false)
		}
		st.readers++
		w.vcAcquire(st.vc)
		return vBool(true)
	})
	nat("(*sync.RWMutex).Lock", func(w *Worker, fr *Frame, a []Val) Val { w.rwLock(a[0]); return Val{} })
	nat("(*sync.RWMutex).Unlock", func(w *Worker, fr *Frame, a []Val) Val { w.rwUnlock(a[0]); return Val{} })
	nat("(*sync.RWMutex).RLock", func(w *Worker, fr *Frame, a []Val) Val { w.rLock(a[0]); return Val{} })
	nat("(*sync.RWMutex).RUnlock", func(w *Worker, fr *Frame, a []Val) Val { w.rUnlock(a[0]); return Val{} })
	nat("(*sync.WaitGroup).Add", func(w *Worker, fr *Frame, a []Val) Val { w.wgAdd(a[0], int(int64(a[1].n))); return Val{} })
	nat("(*sync.WaitGroup).Done", func(w *Worker, fr *Frame, a []Val) Val { w.wgAdd(a[0], -1); return Val{} })
	nat("(*sync.WaitGroup).Wait", func(w *Worker, fr *Frame, a []Val) Val { w.wgWait(a[0]); return Val{} })
	nat("(*sync.WaitGroup).Go", func(w *Worker, fr *Frame, a []Val) Val {
		p, f := a[0], a[1]
		w.wgAdd(p, 1)
		w.spawn(fr, func(root *Frame) { w.callVal(root, f, nil); w.wgAdd(p, -1) }, "WaitGroup.Go")
		return Val{}
	})
	// sync.Pool: a pool that never keeps anything
	nat("(*sync.Pool).Get", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.p.poolT
		offs := fieldOffsets(t)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := a[0].x.(*Object).get(int(a[0].n) + offs[i])
				if f.x == nil {
					return Val{}
				}
				return w.callVal(fr, f, nil)
			}
		}
		return Val{}
	})
	nat("(*sync.Pool).Put", func(w *Worker, fr *Frame, a []Val) Val { return Val{} })
}

func (w *Worker) atomSlot(p Val) (*Object, int) {
	o, _ := p.x.(*Object)
	if o == nil {
		w.nilDeref()
	}
	// atomic.Pointer[T] is struct{ _ [0]*T; _ noCopy; v unsafe.Pointer }: one slot
	return o, int(p.n)
}
func (w *Worker) atomField(p Val) Val {
	o, i := w.atomSlot(p)
	return o.get(i)
}
func (w *Worker) setAtomField(p Val, v Val) {
	o, i := w.atomSlot(p)
	w.put(o, i, v)
}

// atomicSync: an atomic operation synchronises with the other atomic operations on the location.
func (w *Worker) atomicSync(o *Object, off int) {
	if w.atomVC == nil {
		w.atomVC = map[atomKey][]int{}
	}
	k := atomKey{o, off}
	vc := w.atomVC[k]
	w.vcAcquire(vc)
	w.vcRelease(&vc)
	w.atomVC[k] = vc
}

type atomKey struct {
	o   *Object
	off int
}

// ---- bytealg ----

func (w *Worker) seqTerms(v Val) []*Term {
	if _, ok := v.x.(*SliceV); ok {
		return w.sliceTerms(v)
	}
	return w.strTerms(v)
}

func (w *Worker) indexByte(b []*Term, c *Term) int {
	for i, t := range b {
		if w.branch(w.tb.Eq(t, c)) {
			return i
		}
	}
	return -1
}

func (w *Worker) indexSeq(b, sub []*Term) int {
	for i := 0; i+len(sub) <= len(b); i++ {
		if w.branch(w.bytesEq(b[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func initBytealg() {
	two := func(names []string, f nativeFn) {
		for _, n := range names {
			nat(n, f)
		}
	}
	two([]string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"}, func(w *Worker, fr *Frame, a []Val) Val {
		return vInt(int64(w.indexByte(w.seqTerms(a[0]), w.term(a[1], 8))))
	})
	two([]string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"}, func(w *Worker, fr *Frame, a []Val) Val {
		b := w.seqTerms(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.tb.Eq(b[i], w.term(a[1], 8))) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	})
	two([]string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"}, func(w *Worker, fr *Frame, a []Val) Val {
		return vInt(int64(w.indexSeq(w.seqTerms(a[0]), w.seqTerms(a[1]))))
	})
	two([]string{"internal/bytealg.Count", "internal/bytealg.CountString"}, func(w *Worker, fr *Frame, a []Val) Val {
		n := 0
		for _, t := range w.seqTerms(a[0]) {
			if w.branch(w.tb.Eq(t, w.term(a[1], 8))) {
				n++
			}
		}
		return vInt(int64(n))
	})
	two([]string{"internal/bytealg.Equal", "bytes.Equal"}, func(w *Worker, fr *Frame, a []Val) Val {
		return w.fromTerm(w.bytesEq(w.sliceTerms(a[0]), w.sliceTerms(a[1])))
	})
	cmp := func(w *Worker, fr *Frame, a []Val) Val {
		x, y := w.seqTerms(a[0]), w.seqTerms(a[1])
		return w.fromTerm(w.tb.Ite(w.bytesLess(x, y), w.tb.Int(-1), w.tb.Ite(w.bytesEq(x, y), w.tb.Int(0), w.tb.Int(1))))
	}
	two([]string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring"}, cmp)
	nat("internal/bytealg.MakeNoZero", func(w *Worker, fr *Frame, a []Val) Val {
		return w.makeSlice(types.Typ[types.Byte], a[0], a[0], true)
	})
	nat("internal/abi.NoEscape", func(w *Worker, fr *Frame, a []Val) Val { return a[0] })
	nat("internal/abi.Escape", func(w *Worker, fr *Frame, a []Val) Val { return a[0] })
	nat("strings.Clone", func(w *Worker, fr *Frame, a []Val) Val { return a[0] })
	nat("internal/stringslite.Clone", func(w *Worker, fr *Frame, a []Val) Val { return a[0] })
}

// ---- misc ----

type uniqRec struct {
	key string
	v   Val
}

func initMisc() {
	nop := func(names ...string) {
		for _, n := range names {
			nat(n, func(w *Worker, fr *Frame, a []Val) Val { return Val{} })
		}
	}
	nop("runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime/debug.SetGCPercent", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"log/slog.Debug", "log/slog.Info", "log/slog.Warn", "log/slog.Error", "log/slog.DebugContext", "log/slog.InfoContext", "log/slog.WarnContext", "log/slog.ErrorContext",
		"log/slog.SetDefault", "log.Print", "log.Printf", "log.Println",
		"(*log/slog.Logger).Debug", "(*log/slog.Logger).Info", "(*log/slog.Logger).Warn", "(*log/slog.Logger).Error",
		"(*log/slog.Logger).DebugContext", "(*log/slog.Logger).InfoContext", "(*log/slog.Logger).WarnContext", "(*log/slog.Logger).ErrorContext",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "internal/godebug.registerMetric", "internal/godebug.setUpdate",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "internal/testlog.PanicOnExit0", "internal/poll.runtimeNano", "os/signal.Notify")
	for _, n := range []string{"fmt.Println", "fmt.Print", "fmt.Printf"} {
		nat(n, func(w *Worker, fr *Frame, a []Val) Val { return Val{x: Tuple{vInt(0), Val{}}} })
	}
	nat("internal/godebug.New", func(w *Worker, fr *Frame, a []Val) Val {
		return Val{x: w.newObj(8, nil)}
	})
	nat("(*internal/godebug.Setting).Name", func(w *Worker, fr *Frame, a []Val) Val { return Val{} })
	nat("runtime.GOMAXPROCS", func(w *Worker, fr *Frame, a []Val) Val { return vInt(8) })
	nat("runtime.NumCPU", func(w *Worker, fr *Frame, a []Val) Val { return vInt(8) })
	nat("os.Getenv", func(w *Worker, fr *Frame, a []Val) Val { return Val{} })
	nat("syscall.Getenv", func(w *Worker, fr *Frame, a []Val) Val { return Val{x: Tuple{Val{}, vBool(false)}} })

	nat("math.Float64bits", func(w *Worker, fr *Frame, a []Val) Val { return Val{n: a[0].n} })
	nat("math.Float64frombits", func(w *Worker, fr *Frame, a []Val) Val { return Val{n: a[0].n} })
	nat("math.Float32bits", func(w *Worker, fr *Frame, a []Val) Val {
		return Val{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	})
	nat("math.Float32frombits", func(w *Worker, fr *Frame, a []Val) Val {
		return vF64(float64(math.Float32frombits(uint32(a[0].n))))
	})
	f1 := func(n string, f func(float64) float64) {
		nat("math."+n, func(w *Worker, fr *Frame, a []Val) Val {
			if isSym(a[0]) {
				panic(unsupported("floating point over symbolic operands"))
			}
			return vF64(f(math.Float64frombits(a[0].n)))
		})
	}
	f2 := func(n string, f func(a, b float64) float64) {
		nat("math."+n, func(w *Worker, fr *Frame, a []Val) Val {
			if isSym(a[0]) || isSym(a[1]) {
				panic(unsupported("floating point over symbolic operands"))
			}
			return vF64(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
		})
	}
	f2("Max", math.Max)
	f2("Min", math.Min)
	f2("Pow", math.Pow)
	f2("Mod", math.Mod)
	f2("Hypot", math.Hypot)
	f1("Exp", math.Exp)
	f1("Log10", math.Log10)
	f1("RoundToEven", math.RoundToEven)
	f1("Ceil", math.Ceil)
	f1("Floor", math.Floor)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Trunc", math.Trunc)
	f1("Round", math.Round)
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	b1 := func(n string, wd uint8, f func(uint64) int) {
		old := n
		nat("math/bits."+n, func(w *Worker, fr *Frame, a []Val) Val {
			if !isSym(a[0]) {
				return vInt(int64(f(a[0].n)))
			}
			// ite chain over the bits
			t := w.term(a[0], wd)
			bit := func(i uint8) *Term { return w.tb.Eq(w.tb.Extract(t, i, i), w.tb.Const(1, 1)) }
			var r *Term
			switch {
			case strings.HasPrefix(old, "Len"):
				r = w.tb.Int(0)
				for i := uint8(0); i < wd; i++ {
					r = w.tb.Ite(bit(i), w.tb.Int(int64(i)+1), r)
				}
			case strings.HasPrefix(old, "TrailingZeros"):
				r = w.tb.Int(int64(wd))
				for i := int(wd) - 1; i >= 0; i-- {
					r = w.tb.Ite(bit(uint8(i)), w.tb.Int(int64(i)), r)
				}
			case strings.HasPrefix(old, "LeadingZeros"):
				r = w.tb.Int(int64(wd))
				for i := uint8(0); i < wd; i++ {
					r = w.tb.Ite(bit(i), w.tb.Int(int64(wd-1-i)), r)
				}
			default: // OnesCount
				r = w.tb.Int(0)
				for i := uint8(0); i < wd; i++ {
					r = w.tb.Bin(OAdd, r, w.tb.Zext(w.tb.Extract(t, i, i), 64))
				}
			}
			return w.fromTerm(r)
		})
	}
	b1("Len", 64, func(x uint64) int { return bits.Len64(x) })
	b1("Len64", 64, func(x uint64) int { return bits.Len64(x) })
	b1("Len32", 32, func(x uint64) int { return bits.Len32(uint32(x)) })
	b1("Len16", 16, func(x uint64) int { return bits.Len16(uint16(x)) })
	b1("Len8", 8, func(x uint64) int { return bits.Len8(uint8(x)) })
	b1("TrailingZeros", 64, func(x uint64) int { return bits.TrailingZeros64(x) })
	b1("TrailingZeros64", 64, func(x uint64) int { return bits.TrailingZeros64(x) })
	b1("TrailingZeros32", 32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	b1("TrailingZeros8", 8, func(x uint64) int { return bits.TrailingZeros8(uint8(x)) })
	b1("LeadingZeros64", 64, func(x uint64) int { return bits.LeadingZeros64(x) })
	b1("LeadingZeros32", 32, func(x uint64) int { return bits.LeadingZeros32(uint32(x)) })
	b1("LeadingZeros8", 8, func(x uint64) int { return bits.LeadingZeros8(uint8(x)) })
	b1("OnesCount", 64, func(x uint64) int { return bits.OnesCount64(x) })
	b1("OnesCount64", 64, func(x uint64) int { return bits.OnesCount64(x) })
	b1("OnesCount32", 32, func(x uint64) int { return bits.OnesCount32(uint32(x)) })
	b1("OnesCount16", 16, func(x uint64) int { return bits.OnesCount16(uint16(x)) })
	b1("OnesCount8", 8, func(x uint64) int { return bits.OnesCount8(uint8(x)) })

	nat("unique.Make", func(w *Worker, fr *Frame, a []Val) Val {
		k := w.show(a[0])
		for _, u := range w.uniq {
			if u.key == k {
				return Val{x: &Agg{[]Val{u.v}}}
			}
		}
		var o *Object
		if g, ok := a[0].x.(*Agg); ok {
			o = w.newObj(len(g.v), nil)
			copy(o.slots, g.v)
		} else {
			o = w.newObj(1, nil)
			o.slots[0] = a[0]
		}
		v := Val{x: o}
		w.uniq = append(w.uniq, uniqRec{k, v})
		return Val{x: &Agg{[]Val{v}}}
	})
	nat("maps.clone", func(w *Worker, fr *Frame, a []Val) Val {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return Val{}
		}
		m, _ := i.v.x.(*MapObj)
		if m == nil {
			return a[0]
		}
		w.nobj++
		c := &MapObj{id: w.nobj, kt: m.kt, symKey: m.symKey, nlive: m.nlive, idx: map[any]int{}}
		c.keys = append([]Val(nil), m.keys...)
		c.vals = append([]Val(nil), m.vals...)
		c.live = append([]bool(nil), m.live...)
		for k, v := range m.idx {
			c.idx[k] = v
		}
		return Val{x: &Iface{t: i.t, v: Val{x: c}}}
	})

	// strconv: exact decimal rendering
	nat("strconv.Itoa", func(w *Worker, fr *Frame, a []Val) Val { return w.fmtDec(a[0], true) })
	fi := func(signed bool) nativeFn {
		return func(w *Worker, fr *Frame, a []Val) Val {
			base := int(w.concretize(a[1], 64))
			if base != 10 {
				n := w.concretize(a[0], 64)
				if signed {
					return vStr(strconv.FormatInt(int64(n), base))
				}
				return vStr(strconv.FormatUint(n, base))
			}
			return w.fmtDec(a[0], signed)
		}
	}
	nat("strconv.FormatInt", fi(true))
	nat("strconv.FormatUint", fi(false))
	ai := func(signed bool) nativeFn {
		return func(w *Worker, fr *Frame, a []Val) Val {
			if int(w.concretize(a[2], 64)) != 10 {
				panic(unsupported("AppendInt base"))
			}
			return w.appendStr(sliceOf(a[0]), w.fmtDec(a[1], signed), types.Typ[types.Byte])
		}
	}
	nat("strconv.AppendInt", ai(true))
	nat("strconv.AppendUint", ai(false))
	nat("internal/stringslite.IndexByte", natives["internal/bytealg.IndexByteString"])

	nat("fmt.Sprintf", func(w *Worker, fr *Frame, a []Val) Val { return w.sprintf(fr, w.goStr(a[0]), w.elems(a[1])) })
	nat("fmt.Sprint", func(w *Worker, fr *Frame, a []Val) Val {
		es := w.elems(a[0])
		if len(es) == 1 {
			return w.sprintf(fr, "%v", es)
		}
		cur, str := vStr(""), true
		for k, e := range es {
			i, _ := e.x.(*Iface)
			is := i != nil && isString(i.t)
			if k > 0 && !is && !str {
				cur = w.strConcat(cur, vStr(" "))
			}
			str = is
			cur = w.strConcat(cur, w.sprintf(fr, "%v", es[k:k+1]))
		}
		return cur
	})
}

// sprintf renders the verbs it can render exactly; anything else gives an opaque string.
func (w *Worker) sprintf(fr *Frame, format string, args []Val) Val {
	cur := vStr("")
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			cur = w.strConcat(cur, vStr(format[i:]))
			break
		}
		cur = w.strConcat(cur, vStr(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			return Val{x: &Opaque{format}}
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			cur = w.strConcat(cur, vStr("%"))
			continue
		}
		if ai >= len(args) {
			return Val{x: &Opaque{format}}
		}
		s, ok := w.fmtArg(fr, flags, verb, args[ai])
		ai++
		if !ok {
			// concrete values are left to the package itself
			i, _ := args[ai-1].x.(*Iface)
			if i == nil || !w.plainVal(i.t, i.v, 0) {
				return Val{x: &Opaque{format}}
			}
			o := w.newObj(1, nil)
			w.put(o, 0, args[ai-1])
			s = w.call(fr, w.p.rawCode("fmt.Sprintf"), []Val{vStr("%" + flags + string(verb)), w.mkSlice(o, 1, 1)}, nil)
		}
		cur = w.strConcat(cur, s)
	}
	return cur
}

// plainVal: the value is concrete and its text does not depend on addresses.
func (w *Worker) plainVal(t types.Type, v Val, depth int) bool {
	if a, ok := v.x.(*Agg); ok {
		return w.plainSlots(t, a.v, depth)
	}
	return w.plainSlots(t, []Val{v}, depth)
}

func (w *Worker) plainSlots(t types.Type, vs []Val, depth int) bool {
	if depth > 6 || len(vs) != sizeOf(t) {
		return false
	}
	all := func(et types.Type, vs []Val) bool {
		n := sizeOf(et)
		for i := 0; n > 0 && i+n <= len(vs); i += n {
			if !w.plainSlots(et, vs[i:i+n], depth+1) {
				return false
			}
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return all(u.Elem(), vs)
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := sizeOf(ft)
			if !w.plainSlots(ft, vs[o:o+n], depth+1) {
				return false
			}
			o += n
		}
		return true
	}
	if len(vs) != 1 {
		return false
	}
	v := vs[0]
	if isOpaque(v) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			_, ok := v.x.(string)
			return ok || v.x == nil
		}
		return u.Kind() != types.UnsafePointer && u.Kind() != types.Uintptr && !isSym(v)
	case *types.Slice:
		s := sliceOf(v)
		if s == nil {
			return true
		}
		return s.slen == nil && all(u.Elem(), w.elems(v))
	case *types.Map:
		if v.x == nil {
			return true
		}
		m, ok := v.x.(*MapObj)
		if !ok || m.symKey {
			return false
		}
		for i := range m.keys {
			if m.live[i] && (!w.plainVal(u.Key(), m.keys[i], depth+1) || !w.plainVal(u.Elem(), m.vals[i], depth+1)) {
				return false
			}
		}
		return true
	case *types.Pointer:
		return v.x == nil
	case *types.Interface:
		if v.x == nil {
			return true
		}
		i, ok := v.x.(*Iface)
		if !ok {
			return false
		}
		if _, ok := i.t.Underlying().(*types.Pointer); ok {
			return namedOf(i.t) && types.Implements(i.t, errorIface)
		}
		return w.plainVal(i.t, i.v, depth+1)
	}
	return false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (w *Worker) fmtArg(fr *Frame, flags string, verb byte, v Val) (Val, bool) {
	i, _ := v.x.(*Iface)
	if i == nil {
		return vStr(fmt.Sprintf("%"+flags+string(verb), nil)), true
	}
	t := i.t
	// Error / String methods
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		if n := namedOf(t); n {
			for _, m := range []string{"Error", "String"} {
				if sel := w.p.prog.MethodSets.MethodSet(t).Lookup(nil, m); sel == nil {
					continue
				} else if fn := w.p.prog.MethodValue(sel); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
					if verb == 'q' || flags != "" {
						return Val{}, false
					}
					return w.call(fr, w.p.code(fn), []Val{i.v}, nil), true
				}
			}
		}
	}
	if flags == "" && (verb == 'x' || verb == 'X' || verb == 's') && !isInteger(t) {
		if bs, ok := w.byteTerms(t, i.v); ok {
			if verb == 's' {
				return w.mkStr(bs), true
			}
			return w.mkStr(w.hexTerms(bs, verb == 'X')), true
		}
	}
	if isString(t) && verb != 'T' {
		if strings.IndexByte("svxXq", verb) < 0 {
			return Val{}, false
		}
		if isOpaque(i.v) {
			return Val{}, false
		}
		if flags == "" && (verb == 's' || verb == 'v') {
			return i.v, true
		}
		if s, ok := i.v.x.(string); ok || i.v.x == nil {
			return vStr(fmt.Sprintf("%"+flags+string(verb), s)), true
		}
		return Val{}, false
	}
	if verb == 'T' {
		return vStr(w.typeStr(t)), true
	}
	if isInteger(t) {
		if strings.IndexByte("bcdoOqxXUv", verb) < 0 {
			return Val{}, false
		}
		if isSym(i.v) {
			if flags != "" || (verb != 'd' && verb != 'v') {
				return Val{}, false
			}
			wd := widthOf(t)
			x := w.term(i.v, wd)
			if wd < 64 {
				if isSigned(t) {
					x = w.tb.Sext(x, 64)
				} else {
					x = w.tb.Zext(x, 64)
				}
			}
			return w.fmtDec(w.fromTerm(x), isSigned(t)), true
		}
		wd := widthOf(t)
		if isSigned(t) {
			return vStr(fmt.Sprintf("%"+flags+string(verb), sext(i.v.n, wd))), true
		}
		return vStr(fmt.Sprintf("%"+flags+string(verb), i.v.n)), true
	}
	if isBoolT(t) && !isSym(i.v) && (verb == 't' || verb == 'v') {
		return vStr(fmt.Sprintf("%"+flags+string(verb), i.v.n != 0)), true
	}
	return Val{}, false
}

// byteTerms gives the bytes of a string, byte slice or byte array.
func (w *Worker) byteTerms(t types.Type, v Val) ([]*Term, bool) {
	var vs []Val
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString == 0 || isOpaque(v) {
			return nil, false
		}
		return w.strTerms(v), true
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return nil, false
		}
		vs = w.elems(v)
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return nil, false
		}
		a, ok := v.x.(*Agg)
		if !ok {
			return nil, false
		}
		vs = a.v
	default:
		return nil, false
	}
	out := make([]*Term, len(vs))
	for i, x := range vs {
		out[i] = w.term(x, 8)
	}
	return out, true
}

func (w *Worker) hexTerms(bs []*Term, upper bool) []*Term {
	tb := w.tb
	a := byte('a' - 10)
	if upper {
		a = 'A' - 10
	}
	out := make([]*Term, 0, 2*len(bs))
	for _, b := range bs {
		for _, n := range []*Term{tb.Bin(OLshr, b, tb.Byte(4)), tb.Bin(OBAnd, b, tb.Byte(15))} {
			out = append(out, tb.Ite(tb.Ult(n, tb.Byte(10)), tb.Bin(OAdd, n, tb.Byte('0')), tb.Bin(OAdd, n, tb.Byte(a))))
		}
	}
	return out
}

func namedOf(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	_, ok := t.(*types.Named)
	return ok
}
