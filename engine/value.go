package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is the run-time representation of a Go value.
//
//	bool, integers: x==nil -> concrete in n (zero-extended); x=*Term -> symbolic
//	floats:         n = math.Float64bits
//	string:         x==nil "" | string | *SymStr | *Opaque
//	pointer:        x==nil nil | *Object with slot offset n | *SymPtr
//	slice:          x==nil nil | *SliceV
//	map, chan, func, interface: x==nil nil | *MapObj | *Chan | *Closure | *Iface
//	struct, array:  x=Agg (flattened slots)
type Val struct {
	n uint64
	x any
}

// Agg is a flattened aggregate; never mutated after it became a value.
type Agg struct{ v []Val }

// Tuple is a multi-value result.
type Tuple []Val

type SymStr struct{ b []*Term }

// Opaque is a string whose text the engine does not model (fmt output over symbolic operands).
type Opaque struct{ hint string }

type Object struct {
	slots   []Val
	by      []byte  // byte-specialised storage
	bs      []*Term // symbolic overlay, nil if none
	isBytes bool
	frozen  bool
	dirty   uint32 // path number of the last undo record
	id      int
	n       int // logical number of slots (byte objects may be materialised lazily)
	name    string
	typ     types.Type // element type when known (new/make)

	// race detection
	race     map[int]*raceCell
	racePath uint32 // path the cells belong to
}

// SymPtr points at slot base+idx*stride+off with symbolic idx in [0,count).
type SymPtr struct {
	obj          *Object
	base, stride int
	count        int
	off          int
	idx          *Term // 64 bit
}

type SliceV struct {
	obj      *Object
	off      int   // slot offset
	len, cap int   // in elements
	esz      int   // slots per element
	slen     *Term // symbolic length (== capacity); len holds an upper bound
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn   *ssa.Function
	env  []Val
	nat  func(w *Worker, fr *Frame, args []Val) Val // native implementation
	name string
}

type MapObj struct {
	keys     []Val
	vals     []Val
	live     []bool
	idx      map[any]int // concrete-key index
	nlive    int
	symKey   bool // some key is symbolic -> linear search
	kt       types.Type
	frozen   bool
	dirty    uint32
	id       int
	race     map[int]*raceCell
	racePath uint32
}

type RType struct{ t types.Type }

func vInt(i int64) Val { return Val{n: uint64(i)} }
func vBool(b bool) Val { return Val{n: b2u(b)} }
func vStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{x: s}
}
func vF64(f float64) Val { return Val{n: math.Float64bits(f)} }

// ---- layout ----

var layoutMu sync.Mutex
var layoutCache typeutil.Map
var fieldOffCache typeutil.Map
var layoutFast sync.Map // types.Type -> int
var fieldFast sync.Map  // types.Type -> []int

// size in slots
func sizeOf(t types.Type) int {
	if v, ok := layoutFast.Load(t); ok {
		return v.(int)
	}
	n := sizeOf1(t)
	layoutFast.Store(t, n)
	return n
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && (o.Pkg().Path() == "reflect" || o.Pkg().Path() == "internal/reflectlite")
}

func sizeOf1(t types.Type) int {
	t = types.Unalias(t)
	if isReflectValue(t) {
		return 1
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * sizeOf(u.Elem())
	}
	return 1
}

func fieldOffsets(t types.Type) []int {
	if v, ok := fieldFast.Load(t); ok {
		return v.([]int)
	}
	u := t.Underlying().(*types.Struct)
	offs := make([]int, u.NumFields()+1)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		offs[i] = n
		n += sizeOf(u.Field(i).Type())
	}
	offs[u.NumFields()] = n
	fieldFast.Store(t, offs)
	return offs
}

func isAgg(t types.Type) bool {
	t = types.Unalias(t)
	if isReflectValue(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// width of an integer/bool basic type; 0 for bool; 255 when not a scalar
func widthOf(t types.Type) uint8 {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return 64
		}
	}
	return 255
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroVal(t types.Type) Val {
	if isAgg(t) {
		return Val{x: &Agg{make([]Val, sizeOf(t))}}
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = zeroVal(tt.At(i).Type())
		}
		return Val{x: r}
	}
	return Val{}
}

// ---- objects ----

func (w *Worker) newObj(n int, t types.Type) *Object {
	w.nobj++
	o := &Object{n: n, id: w.nobj, typ: t}
	o.slots = make([]Val, n)
	return o
}

func (w *Worker) newBytes(n int) *Object {
	w.nobj++
	o := &Object{n: n, id: w.nobj, isBytes: true}
	if n <= 1<<16 {
		o.by = make([]byte, n)
	}
	return o
}

func (w *Worker) allocFor(t types.Type) *Object {
	t = types.Unalias(t)
	if a, ok := t.Underlying().(*types.Array); ok && isByteType(a.Elem()) {
		return w.newBytes(int(a.Len()))
	}
	return w.newObj(sizeOf(t), t)
}

func (w *Worker) bytesObj(b []byte) *Object {
	o := w.newBytes(0)
	o.by = b
	o.n = len(b)
	return o
}

// ensure byte storage up to n bytes exists
func (o *Object) ensure(n int) {
	if len(o.by) < n {
		c := n
		if n < o.n {
			c = min(o.n, max(n, 2*len(o.by)+64))
		}
		nb := make([]byte, c)
		copy(nb, o.by)
		o.by = nb
		if o.bs != nil {
			ns := make([]*Term, c)
			copy(ns, o.bs)
			o.bs = ns
		}
	}
}

func (o *Object) getByte(i int) Val {
	if i >= len(o.by) {
		return Val{}
	}
	if o.bs != nil && i < len(o.bs) && o.bs[i] != nil {
		return Val{x: o.bs[i]}
	}
	return Val{n: uint64(o.by[i])}
}

func (o *Object) putByte(i int, v Val) {
	o.ensure(i + 1)
	if t, ok := v.x.(*Term); ok {
		if t.isConst() {
			v = Val{n: t.v}
		} else {
			if o.bs == nil {
				o.bs = make([]*Term, len(o.by))
			} else if len(o.bs) < len(o.by) {
				ns := make([]*Term, len(o.by))
				copy(ns, o.bs)
				o.bs = ns
			}
			o.bs[i] = t
			return
		}
	}
	o.by[i] = byte(v.n)
	if o.bs != nil && i < len(o.bs) {
		o.bs[i] = nil
	}
}

func (o *Object) get(i int) Val {
	if o.isBytes {
		return o.getByte(i)
	}
	return o.slots[i]
}

func (w *Worker) touch(o *Object) {
	if o.frozen && o.dirty != w.pathNo {
		w.saveObj(o)
	}
}

func (w *Worker) put(o *Object, i int, v Val) {
	w.touch(o)
	if o.isBytes {
		o.putByte(i, v)
		return
	}
	o.slots[i] = v
}

type undoRec struct {
	o     *Object
	slots []Val
	by    []byte
	bs    []*Term
	n     int

	m  *MapObj
	mc MapObj
}

func (w *Worker) saveObj(o *Object) {
	o.dirty = w.pathNo
	r := undoRec{o: o, n: o.n}
	r.slots = append([]Val(nil), o.slots...)
	r.by = append([]byte(nil), o.by...)
	if o.bs != nil {
		r.bs = append([]*Term(nil), o.bs...)
	}
	w.undo = append(w.undo, r)
}

func (w *Worker) touchMap(m *MapObj) {
	if m.frozen && m.dirty != w.pathNo {
		m.dirty = w.pathNo
		c := *m
		c.keys = append([]Val(nil), m.keys...)
		c.vals = append([]Val(nil), m.vals...)
		c.live = append([]bool(nil), m.live...)
		c.idx = make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			c.idx[k] = v
		}
		w.undo = append(w.undo, undoRec{m: m, mc: c})
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		r := &w.undo[i]
		if r.o != nil {
			r.o.slots, r.o.by, r.o.bs, r.o.n = r.slots, r.by, r.bs, r.n
			r.o.race = nil
		} else {
			*r.m = r.mc
		}
	}
	w.undo = w.undo[:0]
}

// freeze marks everything reachable from the globals as part of the initial heap.
func (w *Worker) freeze() { w.freezeFrom(w.globals, false) }

// freezeNew makes o and what it refers to part of the initial heap, during a path.
func (w *Worker) freezeNew(o *Object) { w.freezeFrom([]*Object{o}, true) }

func (w *Worker) freezeFrom(roots []*Object, onlyNew bool) {
	seen := map[any]bool{}
	var visit func(v Val)
	var obj func(o *Object)
	obj = func(o *Object) {
		if o == nil || seen[o] || onlyNew && o.frozen {
			return
		}
		seen[o] = true
		o.frozen = true
		for i, s := range o.slots {
			if _, ok := s.x.(*muState); ok {
				o.slots[i] = Val{}
				continue
			}
			visit(s)
		}
	}
	visit = func(v Val) {
		switch x := v.x.(type) {
		case *Object:
			obj(x)
		case *SymPtr:
			obj(x.obj)
		case *SliceV:
			obj(x.obj)
		case *Agg:
			for _, s := range x.v {
				visit(s)
			}
		case Tuple:
			for _, s := range x {
				visit(s)
			}
		case *Iface:
			visit(x.v)
		case *Closure:
			for _, s := range x.env {
				visit(s)
			}
		case *MapObj:
			if seen[x] || onlyNew && x.frozen {
				return
			}
			seen[x] = true
			x.frozen = true
			for i := range x.keys {
				visit(x.keys[i])
				visit(x.vals[i])
			}
		case *Chan:
			if seen[x] || onlyNew && x.frozen {
				return
			}
			seen[x] = true
			x.frozen = true
			for _, s := range x.buf {
				visit(s)
			}
		case *RV:
			visit(x.v)
			visit(x.ptr)
			obj(x.obj)
		}
	}
	for _, g := range roots {
		obj(g)
	}
}

// load/store by type

func (w *Worker) loadRange(o *Object, off, n int) []Val {
	r := make([]Val, n)
	if o.isBytes {
		for i := range r {
			r[i] = o.getByte(off + i)
		}
	} else {
		copy(r, o.slots[off:off+n])
	}
	return r
}

func (w *Worker) storeRange(o *Object, off int, v []Val) {
	w.touch(o)
	if o.isBytes {
		for i := range v {
			o.putByte(off+i, v[i])
		}
		return
	}
	copy(o.slots[off:off+len(v)], v)
}

func (w *Worker) load(p Val, t types.Type, agg bool, sz int) Val {
	switch q := p.x.(type) {
	case *Object:
		if w.races {
			w.raceAccess(q, int(p.n), sz, false)
		}
		if agg {
			return Val{x: &Agg{w.loadRange(q, int(p.n), sz)}}
		}
		return q.get(int(p.n))
	case *SymPtr:
		if agg || !isScalarT(t) {
			i := w.concretize(Val{x: q.idx}, 64)
			return w.load(Val{x: q.obj, n: uint64(q.base + int(i)*q.stride + q.off)}, t, agg, sz)
		}
		wd := widthOf(t)
		lo, hi := 0, q.count-1
		if q.idx.umin < uint64(q.count) {
			lo = int(q.idx.umin)
		}
		if q.idx.umax < uint64(hi) {
			hi = int(q.idx.umax)
		}
		// from the back: elements before end, runs of equal ones together
		var res *Term
		for end := hi + 1; end > lo; {
			v := w.term(q.obj.get(q.base+(end-1)*q.stride+q.off), wd)
			k := end - 1
			for k > lo && w.term(q.obj.get(q.base+(k-1)*q.stride+q.off), wd) == v {
				k--
			}
			switch {
			case res == nil:
				res = v
			case k == end-1:
				res = w.tb.Ite(w.tb.Eq(q.idx, w.tb.Const(64, uint64(k))), v, res)
			default:
				res = w.tb.Ite(w.tb.Ult(q.idx, w.tb.Const(64, uint64(end))), v, res)
			}
			end = k
		}
		return w.fromTerm(res)
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.x)))
}

func isScalarT(t types.Type) bool { return widthOf(t) != 255 }

func (w *Worker) store(p Val, t types.Type, agg bool, sz int, v Val) {
	switch q := p.x.(type) {
	case *Object:
		if w.races {
			w.raceAccess(q, int(p.n), sz, true)
		}
		if agg {
			a, ok := v.x.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("store of %T as aggregate %v", v.x, t)))
			}
			w.storeRange(q, int(p.n), a.v)
			return
		}
		w.put(q, int(p.n), v)
		return
	case *SymPtr:
		if agg || !isScalarT(t) {
			i := w.concretize(Val{x: q.idx}, 64)
			w.store(Val{x: q.obj, n: uint64(q.base + int(i)*q.stride + q.off)}, t, agg, sz, v)
			return
		}
		if q.count > symIdxLimit {
			i := w.concretize(Val{x: q.idx}, 64)
			w.store(Val{x: q.obj, n: uint64(q.base + int(i)*q.stride + q.off)}, t, agg, sz, v)
			return
		}
		wd := widthOf(t)
		nv := w.term(v, wd)
		w.touch(q.obj)
		for k := 0; k < q.count; k++ {
			at := q.base + k*q.stride + q.off
			old := w.term(q.obj.get(at), wd)
			w.put(q.obj, at, w.fromTerm(w.tb.Ite(w.tb.Eq(q.idx, w.tb.Const(64, uint64(k))), nv, old)))
		}
		return
	case nil:
		w.nilDeref()
	}
	panic(unsupported(fmt.Sprintf("store through %T", p.x)))
}

// term view of a scalar
func (w *Worker) term(v Val, width uint8) *Term {
	if v.x == nil {
		if width == 0 {
			return w.tb.Bool(v.n != 0)
		}
		return w.tb.Const(width, v.n)
	}
	t, ok := v.x.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, have %T", v.x)))
	}
	return t
}

func (w *Worker) fromTerm(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.v}
	}
	return Val{x: t}
}

func isSym(v Val) bool {
	_, ok := v.x.(*Term)
	return ok
}

// ---- strings ----

func strLen(v Val) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("length of %T string", v.x)))
}

func (w *Worker) strByte(v Val, i int) Val {
	switch s := v.x.(type) {
	case string:
		return Val{n: uint64(s[i])}
	case *SymStr:
		return w.fromTerm(s.b[i])
	}
	panic(unsupported(fmt.Sprintf("index of %T string", v.x)))
}

func (w *Worker) strTerms(v Val) []*Term {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = w.tb.bytes[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("bytes of %T string", v.x)))
}

func (w *Worker) mkStr(b []*Term) Val {
	for _, t := range b {
		if !t.isConst() {
			return Val{x: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.v)
	}
	return vStr(string(bs))
}

func isOpaque(v Val) bool {
	_, ok := v.x.(*Opaque)
	return ok
}

// concrete string or unsupported
func (w *Worker) goStr(v Val) string {
	switch s := v.x.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		panic(unsupported("symbolic string where a concrete one is needed"))
	case *Opaque:
		panic(unsupported("opaque string inspected: " + s.hint))
	}
	panic(unsupported(fmt.Sprintf("string expected, have %T", v.x)))
}

// concretised string: forks over the feasible values of each byte
func (w *Worker) concStr(v Val) string {
	if s, ok := v.x.(*SymStr); ok {
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(w.concretize(w.fromTerm(t), 8))
		}
		return string(b)
	}
	return w.goStr(v)
}

func (w *Worker) sliceTerms(v Val) []*Term {
	s, _ := v.x.(*SliceV)
	if s == nil {
		return nil
	}
	w.concSlice(s)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = w.term(s.obj.get(s.off+i), 8)
	}
	return r
}

// concSlice makes the length of a slice concrete (forking).
func (w *Worker) concSlice(s *SliceV) int {
	if s.slen != nil {
		n := int(w.concretize(Val{x: s.slen}, 64))
		s.len, s.cap, s.slen = n, n, nil
	}
	return s.len
}

func (w *Worker) bytesFromTerms(b []*Term) Val {
	o := w.newBytes(len(b))
	for i, t := range b {
		if t.isConst() {
			o.by[i] = byte(t.v)
		} else {
			o.putByte(i, Val{x: t})
		}
	}
	return Val{x: &SliceV{obj: o, len: len(b), cap: len(b), esz: 1}}
}

func (w *Worker) mkSlice(o *Object, n, esz int) Val {
	return Val{x: &SliceV{obj: o, len: n, cap: n, esz: esz}}
}

func (w *Worker) goBytesSlice(b []byte) Val {
	return Val{x: &SliceV{obj: w.bytesObj(b), len: len(b), cap: len(b), esz: 1}}
}

// isConcrete reports whether v contains no symbolic scalar (shallow for references).
func isConcrete(v Val) bool {
	switch x := v.x.(type) {
	case *Term, *SymStr, *Opaque:
		return false
	case *Agg:
		for _, s := range x.v {
			if !isConcrete(s) {
				return false
			}
		}
	case *Iface:
		return isConcrete(x.v)
	}
	return true
}
