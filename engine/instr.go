package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func (cc *compiler) instr(in ssa.Instruction) opFn {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cc.regs[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := deref(x.Type())
		return func(fr *Frame) { fr.regs[dst] = Val{x: fr.w.allocFor(t)} }
	case *ssa.BinOp:
		return cc.binop(x, dst)
	case *ssa.UnOp:
		return cc.unop(x, dst)
	case *ssa.Call:
		return cc.call(&x.Call, dst)
	case *ssa.ChangeInterface:
		a := cc.op(x.X)
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.ChangeType:
		a := cc.op(x.X)
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		a := cc.op(x.X)
		from, to := x.X.Type(), x.Type()
		conv := convFn(from, to)
		return func(fr *Frame) { fr.regs[dst] = conv(fr, a.get(fr)) }
	case *ssa.MultiConvert:
		a := cc.op(x.X)
		conv := convFn(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.regs[dst] = conv(fr, a.get(fr)) }
	case *ssa.MakeInterface:
		a := cc.op(x.X)
		t := x.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Val{x: &Iface{t, a.get(fr)}} }
	case *ssa.Extract:
		a := cc.op(x.Tuple)
		i := x.Index
		return func(fr *Frame) { fr.regs[dst] = a.get(fr).x.(Tuple)[i] }
	case *ssa.Slice:
		return cc.slice(x, dst)
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(fr *Frame) { fr.next = nextReturn }
		case 1:
			a := cc.op(x.Results[0])
			return func(fr *Frame) { fr.result = a.get(fr); fr.next = nextReturn }
		}
		var as []opnd
		for _, r := range x.Results {
			as = append(as, cc.op(r))
		}
		return func(fr *Frame) {
			t := make(Tuple, len(as))
			for i := range as {
				t[i] = as[i].get(fr)
			}
			fr.result = Val{x: t}
			fr.next = nextReturn
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Panic:
		a := cc.op(x.X)
		return func(fr *Frame) {
			v := a.get(fr)
			fr.w.panicVal(fr, v)
		}
	case *ssa.Send:
		c, a := cc.op(x.Chan), cc.op(x.X)
		return func(fr *Frame) { fr.w.chanSend(c.get(fr), a.get(fr)) }
	case *ssa.Store:
		p, a := cc.op(x.Addr), cc.op(x.Val)
		t := x.Val.Type()
		agg, sz := isAgg(t), sizeOf(t)
		return func(fr *Frame) { fr.w.store(p.get(fr), t, agg, sz, a.get(fr)) }
	case *ssa.If:
		c := cc.op(x.Cond)
		s := x.Block().Succs
		t, f := s[0].Index, s[1].Index
		return func(fr *Frame) {
			v := c.get(fr)
			var b bool
			if v.x == nil {
				b = v.n != 0
			} else {
				b = fr.w.branch(v.x.(*Term))
			}
			if b {
				fr.next = t
			} else {
				fr.next = f
			}
		}
	case *ssa.Jump:
		t := x.Block().Succs[0].Index
		return func(fr *Frame) { fr.next = t }
	case *ssa.Defer:
		return cc.deferI(x)
	case *ssa.Go:
		return cc.goI(x)
	case *ssa.MakeChan:
		n := cc.op(x.Size)
		nt := x.Size.Type()
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			k := int(fr.w.concretize(fr.w.ext64(n.get(fr), nt), 64))
			if k < 0 {
				fr.w.panicErr("makechan: size out of range")
			}
			fr.regs[dst] = Val{x: fr.w.newChan(k, et)}
		}
	case *ssa.MakeSlice:
		l, c := cc.op(x.Len), cc.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		same := x.Len == x.Cap
		lt, ct := x.Len.Type(), x.Cap.Type()
		return func(fr *Frame) {
			fr.regs[dst] = fr.w.makeSlice(et, fr.w.ext64(l.get(fr), lt), fr.w.ext64(c.get(fr), ct), same)
		}
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[dst] = Val{x: fr.w.newMap(kt)} }
	case *ssa.Range:
		a := cc.op(x.X)
		if isString(x.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = Val{x: &strIter{s: a.get(fr)}} }
		}
		return func(fr *Frame) { fr.regs[dst] = Val{x: fr.w.newMapIter(a.get(fr))} }
	case *ssa.Next:
		a := cc.op(x.Iter)
		return func(fr *Frame) { fr.regs[dst] = fr.w.iterNext(fr, a.get(fr).x) }
	case *ssa.FieldAddr:
		a := cc.op(x.X)
		off := fieldOffsets(deref(x.X.Type()))[x.Field]
		return func(fr *Frame) {
			v := a.get(fr)
			switch p := v.x.(type) {
			case *Object:
				fr.regs[dst] = Val{x: p, n: v.n + uint64(off)}
			case *SymPtr:
				q := *p
				q.off += off
				fr.regs[dst] = Val{x: &q}
			case nil:
				fr.w.nilDeref()
			default:
				panic(unsupported(fmt.Sprintf("field of %T", v.x)))
			}
		}
	case *ssa.Field:
		a := cc.op(x.X)
		offs := fieldOffsets(x.X.Type())
		lo, hi := offs[x.Field], offs[x.Field+1]
		agg := isAgg(x.Type())
		return func(fr *Frame) {
			g := a.get(fr).x.(*Agg)
			if agg {
				fr.regs[dst] = Val{x: &Agg{g.v[lo:hi:hi]}}
			} else {
				fr.regs[dst] = g.v[lo]
			}
		}
	case *ssa.IndexAddr:
		return cc.indexAddr(x, dst)
	case *ssa.Index:
		return cc.index(x, dst)
	case *ssa.Lookup:
		a, k := cc.op(x.X), cc.op(x.Index)
		if isString(x.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = fr.w.strIndex(a.get(fr), k.get(fr)) }
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		kt := x.X.Type().Underlying().(*types.Map).Key()
		zero := zeroVal(et)
		ok := x.CommaOk
		return func(fr *Frame) {
			v, found := fr.w.mapGet(a.get(fr), kt, k.get(fr))
			if !found {
				v = zero
			}
			if ok {
				fr.regs[dst] = Val{x: Tuple{v, vBool(found)}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.w.mapSet(m.get(fr), kt, k.get(fr), v.get(fr)) }
	case *ssa.TypeAssert:
		return cc.typeAssert(x, dst)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, cc.op(b))
		}
		return func(fr *Frame) {
			env := make([]Val, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = Val{x: &Closure{fn: fn, env: env, name: fn.Name()}}
		}
	case *ssa.Select:
		return cc.selectI(x, dst)
	case *ssa.SliceToArrayPointer:
		a := cc.op(x.X)
		at := deref(x.Type()).Underlying().(*types.Array)
		n := int(at.Len())
		return func(fr *Frame) {
			s, _ := a.get(fr).x.(*SliceV)
			if s == nil {
				if n > 0 {
					fr.w.panicRT(fmt.Sprintf("cannot convert slice with length 0 to array or pointer to array with length %d", n))
				}
				fr.regs[dst] = Val{}
				return
			}
			if fr.w.concSlice(s) < n {
				fr.w.panicRT(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			}
			fr.regs[dst] = Val{x: s.obj, n: uint64(s.off)}
		}
	}
	panic(fmt.Sprintf("unsupported instruction %T in %v", in, cc.c.fn))
}

// ---- unary ----

func (cc *compiler) unop(x *ssa.UnOp, dst int) opFn {
	a := cc.op(x.X)
	t := x.X.Type()
	switch x.Op {
	case token.MUL:
		et := deref(t)
		agg, sz := isAgg(et), sizeOf(et)
		return func(fr *Frame) {
			p := a.get(fr)
			if o, ok := p.x.(*Object); ok && !agg && !fr.w.races {
				if o.isBytes {
					fr.regs[dst] = o.getByte(int(p.n))
				} else {
					fr.regs[dst] = o.slots[p.n]
				}
				return
			}
			fr.regs[dst] = fr.w.load(p, et, agg, sz)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := a.get(fr)
			if v.x == nil {
				fr.regs[dst] = Val{n: v.n ^ 1}
			} else {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.Not(v.x.(*Term)))
			}
		}
	case token.SUB:
		if isFloat(t) {
			return func(fr *Frame) { fr.regs[dst] = vF64(-math.Float64frombits(a.get(fr).n)) }
		}
		wd := widthOf(t)
		return func(fr *Frame) {
			v := a.get(fr)
			if v.x == nil {
				fr.regs[dst] = Val{n: -v.n & mask(wd)}
			} else {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.Neg(v.x.(*Term)))
			}
		}
	case token.XOR:
		wd := widthOf(t)
		return func(fr *Frame) {
			v := a.get(fr)
			if v.x == nil {
				fr.regs[dst] = Val{n: ^v.n & mask(wd)}
			} else {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.BNot(v.x.(*Term)))
			}
		}
	case token.ARROW:
		et := t.Underlying().(*types.Chan).Elem()
		ok := x.CommaOk
		return func(fr *Frame) {
			v, k := fr.w.chanRecv(a.get(fr), et)
			if ok {
				fr.regs[dst] = Val{x: Tuple{v, vBool(k)}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

// ---- binary ----

func concInt(op token.Token, x, y uint64, wd uint8, signed bool) (uint64, bool) {
	m := mask(wd)
	switch op {
	case token.ADD:
		return (x + y) & m, true
	case token.SUB:
		return (x - y) & m, true
	case token.MUL:
		return (x * y) & m, true
	case token.QUO:
		if y == 0 {
			return 0, false
		}
		if signed {
			return evalBin(OSDiv, wd, x, y), true
		}
		return x / y, true
	case token.REM:
		if y == 0 {
			return 0, false
		}
		if signed {
			return evalBin(OSRem, wd, x, y), true
		}
		return x % y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.EQL:
		return b2u(x == y), true
	case token.NEQ:
		return b2u(x != y), true
	}
	if signed {
		a, b := sext(x, wd), sext(y, wd)
		switch op {
		case token.LSS:
			return b2u(a < b), true
		case token.LEQ:
			return b2u(a <= b), true
		case token.GTR:
			return b2u(a > b), true
		case token.GEQ:
			return b2u(a >= b), true
		}
	}
	switch op {
	case token.LSS:
		return b2u(x < y), true
	case token.LEQ:
		return b2u(x <= y), true
	case token.GTR:
		return b2u(x > y), true
	case token.GEQ:
		return b2u(x >= y), true
	}
	panic("concInt " + op.String())
}

func (w *Worker) symInt(op token.Token, a, b *Term, signed bool) *Term {
	tb := w.tb
	switch op {
	case token.ADD:
		return tb.Bin(OAdd, a, b)
	case token.SUB:
		return tb.Bin(OSub, a, b)
	case token.MUL:
		return tb.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if w.branch(tb.Eq(b, tb.Const(b.w, 0))) {
			w.panicRT("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return tb.Bin(OSDiv, a, b)
			}
			return tb.Bin(OUDiv, a, b)
		}
		if signed {
			return tb.Bin(OSRem, a, b)
		}
		return tb.Bin(OURem, a, b)
	case token.AND:
		return tb.Bin(OBAnd, a, b)
	case token.OR:
		return tb.Bin(OBOr, a, b)
	case token.XOR:
		return tb.Bin(OBXor, a, b)
	case token.AND_NOT:
		return tb.Bin(OBAnd, a, tb.BNot(b))
	case token.EQL:
		return tb.Eq(a, b)
	case token.NEQ:
		return tb.Not(tb.Eq(a, b))
	}
	if signed {
		switch op {
		case token.LSS:
			return tb.Slt(a, b)
		case token.LEQ:
			return tb.Sle(a, b)
		case token.GTR:
			return tb.Slt(b, a)
		case token.GEQ:
			return tb.Sle(b, a)
		}
	}
	switch op {
	case token.LSS:
		return tb.Ult(a, b)
	case token.LEQ:
		return tb.Ule(a, b)
	case token.GTR:
		return tb.Ult(b, a)
	case token.GEQ:
		return tb.Ule(b, a)
	}
	panic("symInt " + op.String())
}

func (cc *compiler) binop(x *ssa.BinOp, dst int) opFn {
	a, b := cc.op(x.X), cc.op(x.Y)
	t := x.X.Type()
	op := x.Op
	switch op {
	case token.SHL, token.SHR:
		wd := widthOf(t)
		sg := isSigned(t)
		ywd := widthOf(x.Y.Type())
		ysg := isSigned(x.Y.Type())
		return func(fr *Frame) {
			fr.regs[dst] = fr.w.shift(op, a.get(fr), b.get(fr), wd, sg, ywd, ysg)
		}
	}
	if isInteger(t) {
		wd := widthOf(t)
		sg := isSigned(t)
		return func(fr *Frame) {
			p, q := a.get(fr), b.get(fr)
			if p.x == nil && q.x == nil {
				r, ok := concInt(op, p.n, q.n, wd, sg)
				if !ok {
					fr.w.panicRT("integer divide by zero")
				}
				fr.regs[dst] = Val{n: r}
				return
			}
			fr.regs[dst] = fr.w.fromTerm(fr.w.symInt(op, fr.w.term(p, wd), fr.w.term(q, wd), sg))
		}
	}
	if isFloat(t) {
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *Frame) {
			p, q := a.get(fr), b.get(fr)
			if p.x != nil || q.x != nil {
				panic(unsupported("symbolic floating point"))
			}
			fr.regs[dst] = floatOp(op, math.Float64frombits(p.n), math.Float64frombits(q.n), f32)
		}
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return func(fr *Frame) { fr.regs[dst] = fr.w.strConcat(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *Frame) { fr.regs[dst] = fr.w.fromTerm(fr.w.strLess(a.get(fr), b.get(fr))) }
		case token.GTR:
			return func(fr *Frame) { fr.regs[dst] = fr.w.fromTerm(fr.w.strLess(b.get(fr), a.get(fr))) }
		case token.LEQ:
			return func(fr *Frame) {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.Not(fr.w.strLess(b.get(fr), a.get(fr))))
			}
		case token.GEQ:
			return func(fr *Frame) {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.Not(fr.w.strLess(a.get(fr), b.get(fr))))
			}
		}
	}
	if c, ok := t.Underlying().(*types.Basic); ok && c.Info()&types.IsComplex != 0 {
		return func(fr *Frame) { panic(unsupported("complex numbers")) }
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		yt := x.Y.Type()
		return func(fr *Frame) {
			p, q := a.get(fr), b.get(fr)
			tt := t
			// comparison of interface with concrete value
			if types.IsInterface(t) != types.IsInterface(yt) {
				if types.IsInterface(t) {
					q = Val{x: &Iface{yt, q}}
				} else {
					p = Val{x: &Iface{t, p}}
					tt = yt
				}
			}
			r := fr.w.eqTerm(tt, p, q)
			if neg {
				r = fr.w.tb.Not(r)
			}
			fr.regs[dst] = fr.w.fromTerm(r)
		}
	case token.AND, token.OR: // booleans
		return func(fr *Frame) {
			p, q := fr.w.term(a.get(fr), 0), fr.w.term(b.get(fr), 0)
			if op == token.AND {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.And(p, q))
			} else {
				fr.regs[dst] = fr.w.fromTerm(fr.w.tb.Or(p, q))
			}
		}
	}
	panic(fmt.Sprintf("binop %v on %v", op, t))
}

func floatOp(op token.Token, x, y float64, f32 bool) Val {
	r := 0.0
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.EQL:
		return vBool(x == y)
	case token.NEQ:
		return vBool(x != y)
	case token.LSS:
		return vBool(x < y)
	case token.LEQ:
		return vBool(x <= y)
	case token.GTR:
		return vBool(x > y)
	case token.GEQ:
		return vBool(x >= y)
	default:
		panic("floatOp")
	}
	if f32 {
		r = float64(float32(r))
	}
	return vF64(r)
}

func (w *Worker) shift(op token.Token, a, b Val, wd uint8, sg bool, ywd uint8, ysg bool) Val {
	if ysg {
		if b.x == nil {
			if sext(b.n, ywd) < 0 {
				w.panicRT("negative shift amount")
			}
		} else if w.branch(w.tb.Slt(b.x.(*Term), w.tb.Const(ywd, 0))) {
			w.panicRT("negative shift amount")
		}
	}
	if a.x == nil && b.x == nil {
		k := b.n
		switch {
		case op == token.SHL:
			if k >= uint64(wd) {
				return Val{}
			}
			return Val{n: (a.n << k) & mask(wd)}
		case sg:
			if k >= uint64(wd) {
				k = uint64(wd) - 1
			}
			return Val{n: uint64(sext(a.n, wd)>>k) & mask(wd)}
		default:
			if k >= uint64(wd) {
				return Val{}
			}
			return Val{n: a.n >> k}
		}
	}
	tb := w.tb
	x, y := w.term(a, wd), w.term(b, ywd)
	var o Op
	switch {
	case op == token.SHL:
		o = OShl
	case sg:
		o = OAshr
	default:
		o = OLshr
	}
	// SMT shifts by >= width give 0 (or the sign), like Go.
	if ywd < wd {
		y = tb.Zext(y, wd)
	} else if ywd > wd {
		big := tb.Not(tb.Ult(y, tb.Const(ywd, uint64(wd))))
		lo := tb.Extract(y, wd-1, 0)
		y = tb.Ite(big, tb.Const(wd, uint64(wd)), lo)
	}
	return w.fromTerm(tb.Bin(o, x, y))
}

// ---- strings ----

func (w *Worker) strConcat(a, b Val) Val {
	if isOpaque(a) || isOpaque(b) {
		return Val{x: &Opaque{"concat"}}
	}
	switch x := a.x.(type) {
	case nil:
		return b
	case string:
		switch y := b.x.(type) {
		case nil:
			return a
		case string:
			return Val{x: x + y}
		}
	}
	if b.x == nil {
		return a
	}
	p, q := w.strTerms(a), w.strTerms(b)
	r := make([]*Term, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return w.mkStr(r)
}

func (w *Worker) bytesLess(p, q []*Term) *Term {
	tb := w.tb
	n := min(len(p), len(q))
	r := tb.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		if p[i] == q[i] {
			continue
		}
		r = tb.Or(tb.Ult(p[i], q[i]), tb.And(tb.Eq(p[i], q[i]), r))
	}
	return r
}

func (w *Worker) bytesEq(p, q []*Term) *Term {
	if len(p) != len(q) {
		return w.tb.False
	}
	r := w.tb.True
	for i := range p {
		r = w.tb.And(r, w.tb.Eq(p[i], q[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b Val) *Term {
	if s, ok := a.x.(string); ok {
		if t, ok := b.x.(string); ok {
			return w.tb.Bool(s < t)
		}
	}
	return w.bytesLess(w.strTerms(a), w.strTerms(b))
}

func (w *Worker) strEq(a, b Val) *Term {
	if a.x == nil && b.x == nil {
		return w.tb.True
	}
	if s, ok := a.x.(string); ok {
		if t, ok := b.x.(string); ok {
			return w.tb.Bool(s == t)
		}
	}
	if isOpaque(a) || isOpaque(b) {
		// an opaque text is never empty (all modelled producers have a literal part)
		if a.x == nil || b.x == nil {
			return w.tb.False
		}
		panic(unsupported("comparison of an opaque string"))
	}
	return w.bytesEq(w.strTerms(a), w.strTerms(b))
}

func (w *Worker) strIndex(s Val, i Val) Val {
	n := strLen(s)
	if i.x == nil {
		if i.n >= uint64(n) {
			w.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
		}
		return w.strByte(s, int(i.n))
	}
	t := w.term(i, 64)
	t64 := t
	if t.w < 64 {
		t64 = w.tb.Zext(t, 64)
	}
	if !w.branch(w.tb.Ult(t64, w.tb.Const(64, uint64(n)))) {
		w.panicRT("index out of range")
	}
	bs := w.strTerms(s)
	res := bs[n-1]
	for k := n - 2; k >= 0; k-- {
		res = w.tb.Ite(w.tb.Eq(t64, w.tb.Const(64, uint64(k))), bs[k], res)
	}
	return w.fromTerm(res)
}

type strIter struct {
	s   Val
	pos int
}

type mapIter struct {
	m    *MapObj
	pos  int
	seen map[int]bool
	n0   int
}

func (w *Worker) newMapIter(v Val) *mapIter {
	m, _ := v.x.(*MapObj)
	if m != nil && w.races {
		w.raceMap(m, false)
	}
	it := &mapIter{m: m}
	return it
}

func (w *Worker) iterNext(fr *Frame, it any) Val {
	switch it := it.(type) {
	case *mapIter:
		if it.m == nil {
			return Val{x: Tuple{vBool(false), Val{}, Val{}}}
		}
		if w.mapOrder && !w.quietOrder {
			if it.seen == nil {
				it.seen = map[int]bool{}
			}
			var cand []int
			for i := range it.m.keys {
				if it.m.live[i] && !it.seen[i] {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				return Val{x: Tuple{vBool(false), Val{}, Val{}}}
			}
			i := cand[w.choose(len(cand))]
			it.seen[i] = true
			return Val{x: Tuple{vBool(true), it.m.keys[i], it.m.vals[i]}}
		}
		for it.pos < len(it.m.keys) {
			i := it.pos
			it.pos++
			if it.m.live[i] {
				return Val{x: Tuple{vBool(true), it.m.keys[i], it.m.vals[i]}}
			}
		}
		return Val{x: Tuple{vBool(false), Val{}, Val{}}}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Val{x: Tuple{vBool(false), Val{}, Val{}}}
		}
		at := it.pos
		r, sz := w.decodeRune(fr, it.s, at)
		it.pos += sz
		return Val{x: Tuple{vBool(true), vInt(int64(at)), r}}
	}
	panic(unsupported(fmt.Sprintf("range over %T", it)))
}

// decodeRune decodes the rune at position i.
func (w *Worker) decodeRune(fr *Frame, s Val, i int) (Val, int) {
	if str, ok := s.x.(string); ok {
		r, sz := utf8.DecodeRuneInString(str[i:])
		return Val{n: uint64(uint32(r))}, sz
	}
	b := w.strTerms(s)
	t := b[i]
	if w.branch(w.tb.Ult(t, w.tb.Const(8, 0x80))) {
		return w.fromTerm(w.tb.Zext(t, 32)), 1
	}
	fn := w.p.lookupFn("unicode/utf8.DecodeRuneInString")
	if fn == nil {
		panic(unsupported("utf8 not loaded"))
	}
	end := min(len(b), i+4)
	res := w.call(fr, w.p.code(fn), []Val{w.mkStr(b[i:end:end])}, nil).x.(Tuple)
	return res[0], int(w.concretize(res[1], 64))
}

// ---- comparison ----

func (w *Worker) eqTerm(t types.Type, a, b Val) *Term {
	tb := w.tb
	if isReflectValue(t) {
		panic(unsupported("comparison of reflect.Value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strEq(a, b)
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			if a.x == nil && b.x == nil {
				return tb.Bool(a.n == b.n)
			}
			wd := widthOf(t)
			return tb.Eq(w.term(a, wd), w.term(b, wd))
		case u.Info()&types.IsFloat != 0:
			if a.x != nil || b.x != nil {
				panic(unsupported("symbolic float"))
			}
			return tb.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		case u.Kind() == types.UnsafePointer:
			return tb.Bool(samePtr(a, b))
		case u.Kind() == types.UntypedNil:
			return tb.Bool(a.x == nil && b.x == nil)
		}
	case *types.Pointer:
		return tb.Bool(samePtr(a, b))
	case *types.Slice, *types.Map, *types.Signature:
		return tb.Bool(a.x == nil && b.x == nil)
	case *types.Chan:
		return tb.Bool(a.x == b.x)
	case *types.Interface:
		x, _ := a.x.(*Iface)
		y, _ := b.x.(*Iface)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if !identical(x.t, y.t) {
			return tb.False
		}
		if rx, ok := x.v.x.(*RType); ok {
			ry := y.v.x.(*RType)
			return tb.Bool(identical(rx.t, ry.t))
		}
		if !types.Comparable(x.t) {
			w.panicRT("comparing uncomparable type " + x.t.String())
		}
		return w.eqTerm(x.t, x.v, y.v)
	case *types.Struct:
		offs := fieldOffsets(t)
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := tb.True
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			r = tb.And(r, w.eqTerm(f.Type(), subVal(x.v, offs[i], f.Type()), subVal(y.v, offs[i], f.Type())))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.x.(*Agg), b.x.(*Agg)
		et := u.Elem()
		es := sizeOf(et)
		r := tb.True
		for i := 0; i < int(u.Len()); i++ {
			r = tb.And(r, w.eqTerm(et, subVal(x.v, i*es, et), subVal(y.v, i*es, et)))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(unsupported("comparison of " + t.String()))
}

func subVal(v []Val, off int, t types.Type) Val {
	if isAgg(t) {
		n := sizeOf(t)
		return Val{x: &Agg{v[off : off+n : off+n]}}
	}
	return v[off]
}

func samePtr(a, b Val) bool {
	if p, ok := a.x.(*SymPtr); ok {
		q, ok := b.x.(*SymPtr)
		if !ok {
			if b.x == nil {
				return false
			}
			panic(unsupported("comparison of a symbolic pointer"))
		}
		if *p == *q {
			return true
		}
		panic(unsupported("comparison of symbolic pointers"))
	}
	if a.x == nil || b.x == nil {
		return a.x == nil && b.x == nil
	}
	return a.x == b.x && a.n == b.n
}

func identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// ---- indexing ----

func (w *Worker) idx(i Val, t types.Type) (int64, *Term) {
	if i.x == nil {
		if isSigned(t) {
			return sext(i.n, widthOf(t)), nil
		}
		if i.n > math.MaxInt64 {
			return math.MaxInt64, nil
		}
		return int64(i.n), nil
	}
	tm := w.term(i, widthOf(t))
	if tm.w < 64 {
		if isSigned(t) {
			tm = w.tb.Sext(tm, 64)
		} else {
			tm = w.tb.Zext(tm, 64)
		}
	}
	return 0, tm
}

const symIdxLimit = 80

func (cc *compiler) indexAddr(x *ssa.IndexAddr, dst int) opFn {
	a, i := cc.op(x.X), cc.op(x.Index)
	it := x.Index.Type()
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		return func(fr *Frame) {
			w := fr.w
			v := a.get(fr)
			s, _ := v.x.(*SliceV)
			iv := i.get(fr)
			if s == nil {
				k, _ := w.idx(iv, it)
				w.panicRT(fmt.Sprintf("index out of range [%d] with length 0", k))
			}
			k, kt := w.idx(iv, it)
			if kt != nil {
				fr.regs[dst] = w.symIndex(s.obj, s.off, s.esz, s, kt)
				return
			}
			if s.slen != nil {
				if k < 0 || !w.branch(w.tb.Ult(w.tb.Const(64, uint64(k)), s.slen)) {
					w.panicRT(fmt.Sprintf("index out of range [%d]", k))
				}
			} else if k < 0 || k >= int64(s.len) {
				w.panicRT(fmt.Sprintf("index out of range [%d] with length %d", k, s.len))
			}
			fr.regs[dst] = Val{x: s.obj, n: uint64(s.off + int(k)*s.esz)}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := at.Len()
		esz := sizeOf(at.Elem())
		return func(fr *Frame) {
			w := fr.w
			v := a.get(fr)
			k, kt := w.idx(i.get(fr), it)
			if sp, ok := v.x.(*SymPtr); ok {
				v = w.concPtr(sp)
			}
			o, _ := v.x.(*Object)
			if o == nil {
				w.nilDeref()
			}
			if kt != nil {
				fr.regs[dst] = w.symIndex(o, int(v.n), esz, &SliceV{len: int(n)}, kt)
				return
			}
			if k < 0 || k >= n {
				w.panicRT(fmt.Sprintf("index out of range [%d] with length %d", k, n))
			}
			fr.regs[dst] = Val{x: o, n: v.n + uint64(int(k)*esz)}
		}
	}
	panic("indexAddr " + x.X.Type().String())
}

func (w *Worker) concPtr(p *SymPtr) Val {
	i := w.concretize(Val{x: p.idx}, 64)
	return Val{x: p.obj, n: uint64(p.base + int(i)*p.stride + p.off)}
}

func (w *Worker) symIndex(o *Object, base, esz int, s *SliceV, kt *Term) Val {
	if s.slen != nil {
		if !w.branch(w.tb.Ult(kt, s.slen)) {
			w.panicRT("index out of range")
		}
	} else {
		if !w.branch(w.tb.Ult(kt, w.tb.Const(64, uint64(s.len)))) {
			w.panicRT(fmt.Sprintf("index out of range [symbolic] with length %d", s.len))
		}
	}
	if kt.isConst() {
		return Val{x: o, n: uint64(base + int(kt.v)*esz)}
	}
	if s.slen != nil || s.len > symIdxLimit && !o.fewRuns(base, esz, s.len, kt) {
		k := w.concretize(Val{x: kt}, 64)
		return Val{x: o, n: uint64(base + int(k)*esz)}
	}
	return Val{x: &SymPtr{obj: o, base: base, stride: esz, count: s.len, idx: kt}}
}

// fewRuns reports whether the constant elements idx can select form few runs of equal values.
func (o *Object) fewRuns(base, stride, count int, idx *Term) bool {
	if stride != 1 || count > 1<<12 {
		return false
	}
	runs := 0
	var last Val
	for k := int(idx.umin); k < count && uint64(k) <= idx.umax; k++ {
		v := o.get(base + k)
		if v.x != nil {
			return false
		}
		if runs == 0 || v.n != last.n {
			runs++
			last = v
		}
	}
	return runs > 0 && runs <= symIdxLimit/2
}

func (cc *compiler) index(x *ssa.Index, dst int) opFn {
	a, i := cc.op(x.X), cc.op(x.Index)
	it := x.Index.Type()
	switch t := x.X.Type().Underlying().(type) {
	case *types.Array:
		n := t.Len()
		et := t.Elem()
		esz := sizeOf(et)
		agg := isAgg(et)
		return func(fr *Frame) {
			w := fr.w
			g := a.get(fr).x.(*Agg)
			k, kt := w.idx(i.get(fr), it)
			if kt != nil {
				if !w.branch(w.tb.Ult(kt, w.tb.Const(64, uint64(n)))) {
					w.panicRT("index out of range")
				}
				if !agg && isScalarT(et) && n <= symIdxLimit {
					wd := widthOf(et)
					res := w.term(g.v[n-1], wd)
					for j := int(n) - 2; j >= 0; j-- {
						res = w.tb.Ite(w.tb.Eq(kt, w.tb.Const(64, uint64(j))), w.term(g.v[j], wd), res)
					}
					fr.regs[dst] = w.fromTerm(res)
					return
				}
				k = int64(w.concretize(Val{x: kt}, 64))
			}
			if k < 0 || k >= n {
				w.panicRT(fmt.Sprintf("index out of range [%d] with length %d", k, n))
			}
			fr.regs[dst] = subVal(g.v, int(k)*esz, et)
		}
	case *types.Basic:
		return func(fr *Frame) { fr.regs[dst] = fr.w.strIndex(a.get(fr), i.get(fr)) }
	}
	panic("index " + x.X.Type().String())
}

// ---- slices ----

func (w *Worker) makeSlice(et types.Type, l, c Val, same bool) Val {
	lim := w.cfg.maxAlloc
	esz := sizeOf(et)
	bytes := isByteType(et)
	if lt, ok := l.x.(*Term); ok {
		// symbolic length
		if w.branch(w.tb.Slt(lt, w.tb.Const(64, 0))) {
			w.panicErr("runtime error: makeslice: len out of range")
		}
		if !w.branch(w.tb.Sle(lt, w.tb.Const(64, uint64(lim)))) {
			w.allocLimit(lt)
		}
		if bytes && same && lt.umax > 300 {
			o := w.newBytes(0)
			o.n = lim
			return Val{x: &SliceV{obj: o, slen: lt, len: lim, cap: lim, esz: 1}}
		}
		n := w.concretize(l, 64)
		l = Val{n: n}
		if same {
			c = l
		}
	}
	n := int(l.n)
	cp := int(w.concretize(c, 64))
	if int64(l.n) < 0 || n > lim {
		if n > 0 && n <= 1<<46 {
			w.allocLimit(w.tb.Const(64, uint64(n)))
		}
		w.panicErr("runtime error: makeslice: len out of range")
	}
	if cp < n || cp > lim {
		if cp > lim && cp <= 1<<46 {
			w.allocLimit(w.tb.Const(64, uint64(cp)))
		}
		w.panicErr("runtime error: makeslice: cap out of range")
	}
	var o *Object
	if bytes {
		o = w.newBytes(cp)
	} else {
		o = w.newObj(cp*esz, nil)
	}
	return Val{x: &SliceV{obj: o, len: n, cap: cp, esz: esz}}
}

// allocLimit: an allocation larger than the configured limit is requested.
func (w *Worker) allocLimit(t *Term) {
	fr := w.curFrame()
	panic(&targetPanic{msg: fmt.Sprintf("allocation of more than %d bytes requested", w.cfg.maxAlloc), fatal: true, where: w.whereOf(fr), stack: w.stackFrom(fr)})
}

func (w *Worker) sliceLenTerm(v Val) Val {
	s, _ := v.x.(*SliceV)
	if s == nil {
		return Val{}
	}
	if s.slen != nil {
		return w.fromTerm(s.slen)
	}
	return vInt(int64(s.len))
}

// ext64 extends an integer of type t to 64 bits.
func (w *Worker) ext64(r Val, t types.Type) Val {
	wd := widthOf(t)
	if wd >= 64 {
		return r
	}
	if r.x == nil {
		if isSigned(t) {
			return Val{n: uint64(sext(r.n, wd))}
		}
		return r
	}
	if isSigned(t) {
		return w.fromTerm(w.tb.Sext(r.x.(*Term), 64))
	}
	return w.fromTerm(w.tb.Zext(r.x.(*Term), 64))
}

func (cc *compiler) slice(x *ssa.Slice, dst int) opFn {
	a := cc.op(x.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := cc.op(v)
		return &o
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	bound := func(fr *Frame, o *opnd, v ssa.Value) Val { return fr.w.ext64(o.get(fr), v.Type()) }
	kind := 0
	var n, esz int
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		kind = 1
	case *types.Pointer:
		kind = 2
		at := t.Elem().Underlying().(*types.Array)
		n, esz = int(at.Len()), sizeOf(at.Elem())
	}
	return func(fr *Frame) {
		w := fr.w
		v := a.get(fr)
		switch kind {
		case 1:
			ln := strLen2(v)
			if ln < 0 {
				fr.regs[dst] = v // opaque text stays opaque
				return
			}
			l, h := 0, ln
			if hi != nil {
				h = w.boundIdx(bound(fr, hi, x.High), 0, ln, "slice bounds out of range")
			}
			if lo != nil {
				l = w.boundIdx(bound(fr, lo, x.Low), 0, h, "slice bounds out of range")
			}
			fr.regs[dst] = w.substr(v, l, h)
			return
		case 2:
			if sp, ok := v.x.(*SymPtr); ok {
				v = w.concPtr(sp)
			}
			o, _ := v.x.(*Object)
			if o == nil {
				w.nilDeref()
			}
			v = Val{x: &SliceV{obj: o, off: int(v.n), len: n, cap: n, esz: esz}}
		}
		s, _ := v.x.(*SliceV)
		if s == nil {
			// nil slice: all bounds must be zero
			for _, b := range []struct {
				o *opnd
				v ssa.Value
			}{{lo, x.Low}, {hi, x.High}, {mx, x.Max}} {
				if b.o != nil {
					w.boundIdx(bound(fr, b.o, b.v), 0, 0, "slice bounds out of range")
				}
			}
			fr.regs[dst] = Val{}
			return
		}
		if s.slen != nil {
			fr.regs[dst] = w.sliceSym(fr, s, lo, hi, mx, func(o *opnd) Val {
				switch o {
				case lo:
					return bound(fr, lo, x.Low)
				case hi:
					return bound(fr, hi, x.High)
				}
				return bound(fr, mx, x.Max)
			})
			return
		}
		m := s.cap
		if mx != nil {
			m = w.boundIdx(bound(fr, mx, x.Max), 0, s.cap, "slice bounds out of range")
		}
		h := s.len
		if hi != nil {
			h = w.boundIdx(bound(fr, hi, x.High), 0, m, "slice bounds out of range")
		}
		l := 0
		if lo != nil {
			l = w.boundIdx(bound(fr, lo, x.Low), 0, h, "slice bounds out of range")
		} else if h < 0 {
			w.panicRT("slice bounds out of range")
		}
		fr.regs[dst] = Val{x: &SliceV{obj: s.obj, off: s.off + l*s.esz, len: h - l, cap: m - l, esz: s.esz}}
	}
}

func strLen2(v Val) int {
	if isOpaque(v) {
		return -1
	}
	return strLen(v)
}

// sliceSym slices a slice of symbolic length (cap == len).
func (w *Worker) sliceSym(fr *Frame, s *SliceV, lo, hi, mx *opnd, get func(*opnd) Val) Val {
	tb := w.tb
	end := s.slen
	if mx != nil {
		w.concSlice(s)
		panic(unsupported("3-index slice of a symbolic-length slice"))
	}
	if hi != nil {
		h := w.term(get(hi), 64)
		if !w.branch(tb.Ule(h, s.slen)) {
			w.panicRT("slice bounds out of range")
		}
		end = h
	}
	l := 0
	if lo != nil {
		lv := get(lo)
		lt := w.term(lv, 64)
		if !w.branch(tb.Ule(lt, end)) {
			w.panicRT("slice bounds out of range")
		}
		l = int(w.concretize(lv, 64))
	}
	n := tb.Bin(OSub, end, tb.Const(64, uint64(l)))
	if n.isConst() {
		return Val{x: &SliceV{obj: s.obj, off: s.off + l, len: int(n.v), cap: int(n.v), esz: 1}}
	}
	return Val{x: &SliceV{obj: s.obj, off: s.off + l, slen: n, len: s.len - l, cap: s.cap - l, esz: 1}}
}

// boundIdx checks lo <= v <= hi and concretises v.
func (w *Worker) boundIdx(v Val, lo, hi int, msg string) int {
	if v.x == nil {
		k := int(v.n)
		if k < lo || k > hi {
			w.panicRT(fmt.Sprintf("%s [%d] with bound %d", msg, k, hi))
		}
		return k
	}
	t := w.term(v, 64)
	if !w.branch(w.tb.Ule(t, w.tb.Const(64, uint64(hi)))) {
		w.panicRT(msg)
	}
	return int(w.concretize(v, 64))
}

func (w *Worker) substr(v Val, l, h int) Val {
	if l == h {
		return Val{}
	}
	switch s := v.x.(type) {
	case string:
		return Val{x: s[l:h]}
	case *SymStr:
		return w.mkStr(s.b[l:h:h])
	}
	panic(unsupported("substring"))
}

// ---- type assertions ----

func (cc *compiler) typeAssert(x *ssa.TypeAssert, dst int) opFn {
	a := cc.op(x.X)
	t := x.AssertedType
	iface, isI := t.Underlying().(*types.Interface)
	zero := zeroVal(t)
	ok := x.CommaOk
	return func(fr *Frame) {
		w := fr.w
		v := a.get(fr)
		i, _ := v.x.(*Iface)
		var res Val
		good := false
		if i != nil {
			if isI {
				if w.implements(i.t, iface) {
					res, good = v, true
				}
			} else if identical(i.t, t) {
				res, good = i.v, true
			}
		}
		if !good {
			if !ok {
				if i == nil {
					w.panicErr(fmt.Sprintf("interface conversion: interface is nil, not %v", t))
				}
				w.panicErr(fmt.Sprintf("interface conversion: interface is %v, not %v", i.t, t))
			}
			res = zero
		}
		if ok {
			fr.regs[dst] = Val{x: Tuple{res, vBool(good)}}
		} else {
			fr.regs[dst] = res
		}
	}
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := [2]types.Type{t, i}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	w.implCache[k] = r
	return r
}

// ---- panics ----

func (w *Worker) panicVal(fr *Frame, v Val) {
	tp := &targetPanic{v: v, where: w.whereOf(fr), stack: w.stackFrom(fr)}
	tp.msg = w.describe(v)
	if v.x == nil {
		tp.msg = "panic called with nil argument"
	}
	panic(tp)
}

// describe renders a panic value for reports.
func (w *Worker) describe(v Val) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case *Iface:
		if isString(x.t) || isInteger(x.t) {
			return w.describe(x.v)
		}
		if types.Implements(x.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			return "error of type " + x.t.String()
		}
		return "value of type " + x.t.String()
	case string:
		return x
	case *SymStr:
		return "<symbolic string>"
	case *Opaque:
		return "<" + x.hint + ">"
	}
	return fmt.Sprintf("%T", v.x)
}

// ---- defer, go, call ----

type callTarget struct {
	bi     *ssa.Builtin
	static *Code
	fnv    *opnd
	invoke *types.Func
	recv   *opnd
	args   []opnd
	argT   []types.Type
	resT   types.Type
}

func (cc *compiler) target(c *ssa.CallCommon) *callTarget {
	ct := &callTarget{}
	for _, a := range c.Args {
		ct.args = append(ct.args, cc.op(a))
		ct.argT = append(ct.argT, a.Type())
	}
	if c.IsInvoke() {
		o := cc.op(c.Value)
		ct.recv = &o
		ct.invoke = c.Method
		return ct
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ct.bi = v
		return ct
	case *ssa.Function:
		// resolved lazily to avoid compiling the whole program
		ct.static = &Code{fn: v}
		if p, ok := cc.p.codes.Load(v); ok {
			ct.static = p.(*Code)
		} else {
			a, _ := cc.p.codes.LoadOrStore(v, ct.static)
			ct.static = a.(*Code)
		}
		return ct
	}
	o := cc.op(c.Value)
	ct.fnv = &o
	return ct
}

func (ct *callTarget) getArgs(fr *Frame, extra int) []Val {
	args := make([]Val, extra+len(ct.args))
	for i := range ct.args {
		args[extra+i] = ct.args[i].get(fr)
	}
	return args
}

func (p *Program) ready(c *Code) *Code {
	c.once.Do(func() { p.prepare(c) })
	return c
}

// resolve returns the function value and arguments of an invoke call.
func (w *Worker) resolveInvoke(fr *Frame, ct *callTarget) (*Code, nativeFn, []Val) {
	rv := ct.recv.get(fr)
	i, _ := rv.x.(*Iface)
	if i == nil {
		w.nilDeref()
	}
	args := ct.getArgs(fr, 1)
	args[0] = i.v
	c, nat := w.methodFor(i.t, ct.invoke, i.v)
	return c, nat, args
}

func (w *Worker) methodFor(t types.Type, m *types.Func, recv Val) (*Code, nativeFn) {
	if _, ok := recv.x.(*RType); ok {
		if nat, ok := rtypeMethods[m.Name()]; ok {
			return nil, nat
		}
		panic(unsupported("reflect.Type." + m.Name()))
	}
	k := methKey{t, m}
	if c, ok := w.methCache[k]; ok {
		return c, nil
	}
	fn := w.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported(fmt.Sprintf("method %v.%s", t, m.Name())))
	}
	c := w.p.code(fn)
	w.methCache[k] = c
	return c, nil
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (cc *compiler) call(c *ssa.CallCommon, dst int) opFn {
	ct := cc.target(c)
	p := cc.p
	switch {
	case ct.bi != nil:
		bi := ct.bi
		argT := ct.argT
		switch bi.Name() {
		case "len":
			a := ct.args[0]
			if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				return func(fr *Frame) { fr.regs[dst] = fr.w.sliceLenTerm(a.get(fr)) }
			}
		}
		return func(fr *Frame) { fr.regs[dst] = fr.w.callBuiltin(fr, bi, ct.getArgs(fr, 0), argT) }
	case ct.static != nil:
		code := ct.static
		return func(fr *Frame) {
			p.ready(code)
			fr.regs[dst] = fr.w.call(fr, code, ct.getArgs(fr, 0), nil)
		}
	case ct.invoke != nil:
		return func(fr *Frame) {
			code, nat, args := fr.w.resolveInvoke(fr, ct)
			if nat != nil {
				fr.regs[dst] = nat(fr.w, fr, args)
				return
			}
			fr.regs[dst] = fr.w.call(fr, code, args, nil)
		}
	}
	fv := *ct.fnv
	return func(fr *Frame) {
		f := fv.get(fr)
		args := ct.getArgs(fr, 0)
		fr.regs[dst] = fr.w.callVal(fr, f, args)
	}
}

func (w *Worker) bindCall(fr *Frame, ct *callTarget) (bi *ssa.Builtin, f Val, args []Val) {
	switch {
	case ct.bi != nil:
		return ct.bi, Val{}, ct.getArgs(fr, 0)
	case ct.static != nil:
		return nil, Val{x: &Closure{fn: ct.static.fn, name: ct.static.fn.Name()}}, ct.getArgs(fr, 0)
	case ct.invoke != nil:
		code, nat, args := w.resolveInvoke(fr, ct)
		if nat != nil {
			return nil, Val{x: &Closure{nat: nat}}, args
		}
		return nil, Val{x: &Closure{fn: code.fn, name: code.fn.Name()}}, args
	}
	return nil, ct.fnv.get(fr), ct.getArgs(fr, 0)
}

func (cc *compiler) deferI(x *ssa.Defer) opFn {
	ct := cc.target(&x.Call)
	if x.DeferStack != nil {
		ds := cc.op(x.DeferStack)
		return func(fr *Frame) {
			bi, f, args := fr.w.bindCall(fr, ct)
			tgt := ds.get(fr).x.(*Frame)
			tgt.defers = &deferRec{fn: f, args: args, bi: bi, next: tgt.defers}
		}
	}
	return func(fr *Frame) {
		bi, f, args := fr.w.bindCall(fr, ct)
		fr.defers = &deferRec{fn: f, args: args, bi: bi, next: fr.defers}
	}
}

func (cc *compiler) goI(x *ssa.Go) opFn {
	ct := cc.target(&x.Call)
	return func(fr *Frame) {
		bi, f, args := fr.w.bindCall(fr, ct)
		w := fr.w
		if bi == nil && f.x == nil {
			w.panicRT("go of nil func value")
		}
		w.spawn(fr, func(root *Frame) {
			if bi != nil {
				w.callBuiltin(root, bi, args, nil)
				return
			}
			w.callVal(root, f, args)
		}, goName(f))
	}
}

func goName(f Val) string {
	if c, ok := f.x.(*Closure); ok {
		return c.name
	}
	return "builtin"
}
