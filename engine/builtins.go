package main

import (
	"fmt"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// copySlots copies n slots between objects (handles overlap).
func (w *Worker) copySlots(dst *Object, do int, src *Object, so int, n int) {
	if n == 0 {
		return
	}
	w.touch(dst)
	if w.races {
		w.raceAccess(src, so, n, false)
		w.raceAccess(dst, do, n, true)
	}
	if dst.isBytes && src.isBytes {
		dst.ensure(do + n)
		src.ensure(so + n)
		if src.bs != nil && dst.bs == nil {
			any := false
			for i := so; i < so+n && i < len(src.bs); i++ {
				if src.bs[i] != nil {
					any = true
					break
				}
			}
			if any {
				dst.bs = make([]*Term, len(dst.by))
			}
		}
		if dst.bs != nil {
			if len(dst.bs) < len(dst.by) {
				ns := make([]*Term, len(dst.by))
				copy(ns, dst.bs)
				dst.bs = ns
			}
			if src.bs != nil {
				if len(src.bs) < len(src.by) {
					ns := make([]*Term, len(src.by))
					copy(ns, src.bs)
					src.bs = ns
				}
				copy(dst.bs[do:do+n], src.bs[so:so+n])
			} else {
				clear(dst.bs[do : do+n])
			}
		}
		copy(dst.by[do:do+n], src.by[so:so+n])
		return
	}
	tmp := make([]Val, n)
	for i := range tmp {
		tmp[i] = src.get(so + i)
	}
	for i := range tmp {
		if dst.isBytes {
			dst.putByte(do+i, tmp[i])
		} else {
			dst.slots[do+i] = tmp[i]
		}
	}
}

func growCap(old, need int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	return max(nc, need)
}

// appendN grows s by n elements and returns the new slice and the slot offset of the new tail.
func (w *Worker) appendN(s *SliceV, et types.Type, n int) (*SliceV, int) {
	esz := sizeOf(et)
	if s == nil {
		s = &SliceV{esz: esz}
	}
	w.concSlice(s)
	if s.len+n <= s.cap {
		return &SliceV{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap, esz: esz}, s.off + s.len*esz
	}
	nc := growCap(s.cap, s.len+n)
	if isByteType(et) && nc < 8 {
		nc = 8
	}
	var o *Object
	if isByteType(et) {
		o = w.newBytes(nc)
	} else {
		o = w.newObj(nc*esz, nil)
	}
	if s.obj != nil {
		w.copySlots(o, 0, s.obj, s.off, s.len*esz)
	}
	return &SliceV{obj: o, len: s.len + n, cap: nc, esz: esz}, s.len * esz
}

func (w *Worker) appendStr(s *SliceV, str Val, et types.Type) Val {
	n := strLen(str)
	if n == 0 {
		if s == nil {
			return Val{}
		}
		return Val{x: s}
	}
	r, at := w.appendN(s, et, n)
	w.storeStr(r.obj, at, str)
	return Val{x: r}
}

func (w *Worker) storeStr(o *Object, at int, str Val) {
	w.touch(o)
	if s, ok := str.x.(string); ok && o.isBytes {
		o.ensure(at + len(s))
		copy(o.by[at:], s)
		if o.bs != nil {
			for i := 0; i < len(s) && at+i < len(o.bs); i++ {
				o.bs[at+i] = nil
			}
		}
		return
	}
	for i, t := range w.strTerms(str) {
		w.put(o, at+i, w.fromTerm(t))
	}
}

func (w *Worker) appendSlice(s *SliceV, t *SliceV, et types.Type) Val {
	if t == nil {
		if s == nil {
			return Val{}
		}
		return Val{x: s}
	}
	w.concSlice(t)
	if t.len == 0 {
		if s == nil {
			return Val{}
		}
		return Val{x: s}
	}
	esz := sizeOf(et)
	r, at := w.appendN(s, et, t.len)
	w.copySlots(r.obj, at, t.obj, t.off, t.len*esz)
	return Val{x: r}
}

// copyTo implements copy(dst, src).
func (w *Worker) copyTo(d, s *SliceV) Val {
	if d == nil || s == nil {
		return Val{}
	}
	n := w.minLen(d, s)
	if n.x != nil {
		panic("internal")
	}
	w.copySlots(d.obj, d.off, s.obj, s.off, int(n.n)*d.esz)
	return n
}

// minLen returns min(len(a), len(b)), concretising as little as needed.
func (w *Worker) minLen(a, b *SliceV) Val {
	if a.slen == nil && b.slen == nil {
		return vInt(int64(min(a.len, b.len)))
	}
	if a.slen != nil && b.slen != nil {
		if w.branch(w.tb.Ule(a.slen, b.slen)) {
			w.concSlice(a)
			return vInt(int64(a.len))
		}
		w.concSlice(b)
		return vInt(int64(b.len))
	}
	if a.slen == nil {
		a, b = b, a
	}
	// a symbolic, b concrete
	if w.branch(w.tb.Ule(w.tb.Const(64, uint64(b.len)), a.slen)) {
		return vInt(int64(b.len))
	}
	w.concSlice(a)
	return vInt(int64(a.len))
}

func (w *Worker) callBuiltin(fr *Frame, bi *ssa.Builtin, args []Val, argT []types.Type) Val {
	sig := bi.Type().(*types.Signature)
	ptype := func(i int) types.Type {
		if argT != nil {
			return argT[i]
		}
		return sig.Params().At(i).Type()
	}
	switch bi.Name() {
	case "append":
		st := ptype(0).Underlying().(*types.Slice)
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].x.(*SliceV)
		if isString(ptype(1)) {
			return w.appendStr(s, args[1], st.Elem())
		}
		t, _ := args[1].x.(*SliceV)
		return w.appendSlice(s, t, st.Elem())
	case "Sizeof":
		return vInt(w.p.sizes.Sizeof(ptype(0)))
	case "Alignof":
		return vInt(w.p.sizes.Alignof(ptype(0)))
	case "len":
		switch t := ptype(0).Underlying().(type) {
		case *types.Basic:
			return vInt(int64(strLen(args[0])))
		case *types.Slice:
			return w.sliceLenTerm(args[0])
		case *types.Map:
			m, _ := args[0].x.(*MapObj)
			if m == nil {
				return Val{}
			}
			if w.races {
				w.raceMap(m, false)
			}
			return vInt(int64(m.nlive))
		case *types.Chan:
			c, _ := args[0].x.(*Chan)
			if c == nil {
				return Val{}
			}
			return vInt(int64(len(c.buf)))
		case *types.Pointer:
			return vInt(t.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return vInt(t.Len())
		}
	case "cap":
		switch t := ptype(0).Underlying().(type) {
		case *types.Slice:
			s, _ := args[0].x.(*SliceV)
			if s == nil {
				return Val{}
			}
			if s.slen != nil {
				return w.fromTerm(s.slen)
			}
			return vInt(int64(s.cap))
		case *types.Chan:
			c, _ := args[0].x.(*Chan)
			if c == nil {
				return Val{}
			}
			return vInt(int64(c.cap))
		case *types.Pointer:
			return vInt(t.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return vInt(t.Len())
		}
	case "copy":
		d, _ := args[0].x.(*SliceV)
		if isString(ptype(1)) {
			if d == nil || args[1].x == nil {
				return Val{}
			}
			n := strLen(args[1])
			k := w.minLen(d, &SliceV{len: n})
			if k.n > 0 {
				w.storeStr(d.obj, d.off, w.substr(args[1], 0, int(k.n)))
			}
			return k
		}
		s, _ := args[1].x.(*SliceV)
		return w.copyTo(d, s)
	case "delete":
		w.mapDelete(args[0], ptype(0).Underlying().(*types.Map).Key(), args[1])
		return Val{}
	case "clear":
		switch t := ptype(0).Underlying().(type) {
		case *types.Map:
			m, _ := args[0].x.(*MapObj)
			if m != nil {
				w.touchMap(m)
				if w.races {
					w.raceMap(m, true)
				}
				m.keys, m.vals, m.live, m.nlive, m.symKey = nil, nil, nil, 0, false
				m.idx = map[any]int{}
			}
		case *types.Slice:
			s, _ := args[0].x.(*SliceV)
			if s != nil {
				w.concSlice(s)
				for i := 0; i < s.len*sizeOf(t.Elem()); i++ {
					w.put(s.obj, s.off+i, Val{})
				}
			}
		}
		return Val{}
	case "close":
		w.chanClose(args[0])
		return Val{}
	case "print", "println":
		return Val{}
	case "panic":
		w.panicVal(fr, args[0])
	case "recover":
		return w.doRecover(fr)
	case "min", "max":
		return w.minMax(bi.Name() == "min", ptype(0), args)
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			w.panicErr(fmt.Sprintf("value method %s.%s called using nil pointer", w.describe(args[1]), w.describe(args[2])))
		}
		return args[0]
	case "ssa:deferstack":
		return Val{x: fr}
	case "String": // unsafe.String(ptr, len)
		n := int(w.concretize(args[1], 64))
		if n == 0 {
			return Val{}
		}
		return w.strFromPtr(args[0], n)
	case "StringData":
		if args[0].x == nil {
			return Val{}
		}
		b := w.strTerms(args[0])
		return Val{x: w.bytesFromTerms(b).x.(*SliceV).obj}
	case "SliceData":
		s, _ := args[0].x.(*SliceV)
		if s == nil {
			return Val{}
		}
		return Val{x: s.obj, n: uint64(s.off)}
	case "Slice": // unsafe.Slice
		n := int(w.concretize(args[1], 64))
		o, _ := args[0].x.(*Object)
		if o == nil {
			return Val{}
		}
		esz := sizeOf(deref(ptype(0)))
		return Val{x: &SliceV{obj: o, off: int(args[0].n), len: n, cap: n, esz: esz}}
	}
	panic(unsupported("builtin " + bi.Name()))
}

func (w *Worker) strFromPtr(p Val, n int) Val {
	o, _ := p.x.(*Object)
	if o == nil {
		w.nilDeref()
	}
	off := int(p.n)
	if o.isBytes && o.bs == nil && off+n <= len(o.by) {
		return vStr(string(o.by[off : off+n]))
	}
	b := make([]*Term, n)
	for i := range b {
		b[i] = w.term(o.get(off+i), 8)
	}
	return w.mkStr(b)
}

func (w *Worker) doRecover(fr *Frame) Val {
	// fr is the deferred function; its caller is the panicking frame
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		p := c.panicVal
		c.panicVal = nil
		if p.v.x == nil {
			return Val{x: &Iface{t: w.p.rterr, v: vStr(p.msg)}}
		}
		return p.v
	}
	return Val{}
}

func (w *Worker) minMax(isMin bool, t types.Type, args []Val) Val {
	r := args[0]
	for _, a := range args[1:] {
		switch {
		case isInteger(t):
			wd := widthOf(t)
			x, y := w.term(r, wd), w.term(a, wd)
			var lt *Term
			if isSigned(t) {
				lt = w.tb.Slt(y, x)
			} else {
				lt = w.tb.Ult(y, x)
			}
			if !isMin {
				if isSigned(t) {
					lt = w.tb.Slt(x, y)
				} else {
					lt = w.tb.Ult(x, y)
				}
			}
			r = w.fromTerm(w.tb.Ite(lt, y, x))
		case isFloat(t):
			if isMin {
				r = vF64(math.Min(math.Float64frombits(r.n), math.Float64frombits(a.n)))
			} else {
				r = vF64(math.Max(math.Float64frombits(r.n), math.Float64frombits(a.n)))
			}
		default:
			lt := w.strLess(a, r)
			if !isMin {
				lt = w.strLess(r, a)
			}
			if w.branch(lt) {
				r = a
			}
		}
	}
	return r
}

// ---- conversions ----

func convFn(from, to types.Type) func(fr *Frame, v Val) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.Interface); ok {
		_ = tp
		panic("conversion from type parameter " + from.String())
	}
	id := func(fr *Frame, v Val) Val { return v }
	switch {
	case isInteger(from) && isInteger(to):
		fw, tw := widthOf(from), widthOf(to)
		sg := isSigned(from)
		if fw == tw {
			return id
		}
		return func(fr *Frame, v Val) Val {
			if v.x == nil {
				if tw > fw && sg {
					return Val{n: uint64(sext(v.n, fw)) & mask(tw)}
				}
				return Val{n: v.n & mask(tw)}
			}
			t := fr.w.term(v, fw)
			tb := fr.w.tb
			if tw < fw {
				return fr.w.fromTerm(tb.Extract(t, tw-1, 0))
			}
			if sg {
				return fr.w.fromTerm(tb.Sext(t, tw))
			}
			return fr.w.fromTerm(tb.Zext(t, tw))
		}
	case isInteger(from) && isFloat(to):
		fw, sg := widthOf(from), isSigned(from)
		f32 := tu.(*types.Basic).Kind() == types.Float32
		return func(fr *Frame, v Val) Val {
			if v.x != nil {
				panic(unsupported("symbolic integer to float"))
			}
			var f float64
			if sg {
				f = float64(sext(v.n, fw))
			} else {
				f = float64(v.n)
			}
			if f32 {
				f = float64(float32(f))
			}
			return vF64(f)
		}
	case isFloat(from) && isInteger(to):
		tw, sg := widthOf(to), isSigned(to)
		return func(fr *Frame, v Val) Val {
			f := math.Float64frombits(v.n)
			if sg {
				return Val{n: uint64(int64(f)) & mask(tw)}
			}
			return Val{n: uint64(f) & mask(tw)}
		}
	case isFloat(from) && isFloat(to):
		f32 := tu.(*types.Basic).Kind() == types.Float32
		return func(fr *Frame, v Val) Val {
			if f32 {
				return vF64(float64(float32(math.Float64frombits(v.n))))
			}
			return v
		}
	case isString(from) && isString(to):
		return id
	case isInteger(from) && isString(to):
		wd := widthOf(from)
		return func(fr *Frame, v Val) Val {
			if v.x != nil {
				t := fr.w.term(v, wd)
				if fr.w.branch(fr.w.tb.Ult(t, fr.w.tb.Const(wd, 0x80))) {
					return fr.w.mkStr([]*Term{fr.w.tb.Extract(t, 7, 0)})
				}
				panic(unsupported("symbolic non-ASCII rune to string"))
			}
			return vStr(string(rune(sext(v.n, wd))))
		}
	case isString(to):
		if st, ok := fu.(*types.Slice); ok {
			if isByteType(st.Elem()) {
				return func(fr *Frame, v Val) Val { return fr.w.bytesToStr(v) }
			}
			// []rune
			return func(fr *Frame, v Val) Val {
				s, _ := v.x.(*SliceV)
				if s == nil {
					return Val{}
				}
				var out []*Term
				for i := 0; i < s.len; i++ {
					r := s.obj.get(s.off + i)
					if r.x == nil {
						for _, b := range []byte(string(rune(int32(r.n)))) {
							out = append(out, fr.w.tb.bytes[b])
						}
						continue
					}
					t := fr.w.term(r, 32)
					if !fr.w.branch(fr.w.tb.Ult(t, fr.w.tb.Const(32, 0x80))) {
						panic(unsupported("symbolic non-ASCII rune"))
					}
					out = append(out, fr.w.tb.Extract(t, 7, 0))
				}
				return fr.w.mkStr(out)
			}
		}
	case isString(from):
		if st, ok := tu.(*types.Slice); ok {
			if isByteType(st.Elem()) {
				return func(fr *Frame, v Val) Val { return fr.w.strToBytes(v) }
			}
			return func(fr *Frame, v Val) Val {
				w := fr.w
				var out []Val
				n := strLen(v)
				for i := 0; i < n; {
					r, sz := w.decodeRune(fr, v, i)
					out = append(out, r)
					i += sz
				}
				o := w.newObj(len(out), nil)
				copy(o.slots, out)
				return w.mkSlice(o, len(out), 1)
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer:
		return id
	case *types.Array:
		// slice to array
		at := tu.(*types.Array)
		n := int(at.Len())
		if _, ok := fu.(*types.Slice); ok {
			sz := sizeOf(to)
			return func(fr *Frame, v Val) Val {
				s, _ := v.x.(*SliceV)
				if s == nil || fr.w.concSlice(s) < n {
					fr.w.panicRT("cannot convert slice to array: length too short")
				}
				return Val{x: &Agg{fr.w.loadRange(s.obj, s.off, sz)}}
			}
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return id
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if isInteger(to) {
			return func(fr *Frame, v Val) Val {
				if o, ok := v.x.(*Object); ok {
					return Val{n: uint64(o.id)<<20 + v.n}
				}
				return Val{n: 0}
			}
		}
		return id
	}
	if types.Identical(fu, tu) {
		return id
	}
	return func(fr *Frame, v Val) Val { panic(unsupported(fmt.Sprintf("conversion %v -> %v", from, to))) }
}

func (w *Worker) bytesToStr(v Val) Val {
	s, _ := v.x.(*SliceV)
	if s == nil {
		return Val{}
	}
	n := w.concSlice(s)
	if n == 0 {
		return Val{}
	}
	if w.races {
		w.raceAccess(s.obj, s.off, n, false)
	}
	return w.strFromPtr(Val{x: s.obj, n: uint64(s.off)}, n)
}

func (w *Worker) strToBytes(v Val) Val {
	switch s := v.x.(type) {
	case nil:
		return w.mkSlice(w.newBytes(0), 0, 1)
	case string:
		return w.goBytesSlice([]byte(s))
	case *SymStr:
		return w.bytesFromTerms(s.b)
	case *Opaque:
		panic(unsupported("bytes of an opaque string: " + s.hint))
	}
	panic(unsupported("strToBytes"))
}

var _ = utf8.RuneError

// ---- maps ----

func (w *Worker) newMap(kt types.Type) *MapObj {
	w.nobj++
	return &MapObj{idx: map[any]int{}, kt: kt, id: w.nobj}
}

type ptrKey struct {
	o any
	n uint64
}
type ifKey struct {
	t string
	k any
}

// hashKey returns a comparable key for a concrete value, or ok=false when it is symbolic.
func (w *Worker) hashKey(t types.Type, v Val) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.x.(type) {
			case nil:
				return "", true
			case string:
				return s, true
			case *Opaque:
				panic(unsupported("opaque string as a map key"))
			}
			return nil, false
		}
		if v.x != nil {
			return nil, false
		}
		return v.n, true
	case *types.Pointer, *types.Chan:
		if v.x == nil {
			return nil, true
		}
		if _, ok := v.x.(*SymPtr); ok {
			panic(unsupported("symbolic pointer as a map key"))
		}
		return ptrKey{v.x, v.n}, true
	case *types.Interface:
		i, _ := v.x.(*Iface)
		if i == nil {
			return nil, true
		}
		if rt, ok := i.v.x.(*RType); ok {
			return ifKey{"rtype", w.typeKey(rt.t)}, true
		}
		if !types.Comparable(i.t) {
			w.panicRT("hash of unhashable type " + i.t.String())
		}
		k, ok := w.hashKey(i.t, i.v)
		return ifKey{w.typeKey(i.t), k}, ok
	case *types.Struct, *types.Array:
		a := v.x.(*Agg)
		k := ""
		if !w.aggKey(t, a.v, &k) {
			return nil, false
		}
		return k, true
	}
	panic(unsupported("map key type " + t.String()))
}

func (w *Worker) aggKey(t types.Type, v []Val, k *string) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		offs := fieldOffsets(t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if !w.aggKey(ft, v[offs[i]:offs[i+1]], k) {
				return false
			}
		}
		return true
	case *types.Array:
		es := sizeOf(u.Elem())
		if isByteType(u.Elem()) {
			b := make([]byte, u.Len())
			for i := range b {
				if v[i].x != nil {
					return false
				}
				b[i] = byte(v[i].n)
			}
			*k += string(b)
			return true
		}
		for i := 0; i < int(u.Len()); i++ {
			if !w.aggKey(u.Elem(), v[i*es:(i+1)*es], k) {
				return false
			}
		}
		return true
	}
	h, ok := w.hashKey(t, v[0])
	if !ok {
		return false
	}
	if p, ok := h.(ptrKey); ok {
		switch o := p.o.(type) {
		case *Object:
			*k += fmt.Sprintf("p%d.%d|", o.id, p.n)
		default:
			*k += fmt.Sprintf("%p|", o)
		}
		return true
	}
	*k += fmt.Sprintf("%T%v|", h, h)
	return true
}

func (w *Worker) typeKey(t types.Type) string {
	if s, ok := w.typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	w.typeKeys[t] = s
	return s
}

// find returns the index of key k or -1; symbolic keys fork.
func (w *Worker) mapFind(m *MapObj, kt types.Type, k Val) int {
	h, ok := w.hashKey(kt, k)
	if ok && !m.symKey {
		if i, ok := m.idx[h]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		c := w.eqTerm(kt, m.keys[i], k)
		if w.branch(c) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(mv Val, kt types.Type, k Val) (Val, bool) {
	m, _ := mv.x.(*MapObj)
	if m == nil {
		return Val{}, false
	}
	if w.races {
		w.raceMap(m, false)
	}
	if i := w.mapFind(m, kt, k); i >= 0 {
		return m.vals[i], true
	}
	return Val{}, false
}

func (w *Worker) mapSet(mv Val, kt types.Type, k, v Val) {
	m, _ := mv.x.(*MapObj)
	if m == nil {
		w.panicErr("assignment to entry in nil map")
	}
	if w.races {
		w.raceMap(m, true)
	}
	i := w.mapFind(m, kt, k)
	w.touchMap(m)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	h, ok := w.hashKey(kt, k)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.nlive++
	if ok {
		m.idx[h] = len(m.keys) - 1
	} else {
		m.symKey = true
	}
}

func (w *Worker) mapDelete(mv Val, kt types.Type, k Val) {
	m, _ := mv.x.(*MapObj)
	if m == nil {
		return
	}
	if w.races {
		w.raceMap(m, true)
	}
	i := w.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	w.touchMap(m)
	if h, ok := w.hashKey(kt, m.keys[i]); ok {
		delete(m.idx, h)
	}
	m.live[i] = false
	m.nlive--
}
