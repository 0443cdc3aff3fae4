package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// RV models reflect.Value.
type RV struct {
	t    types.Type
	v    Val
	ptr  Val
	addr bool
	ro   bool
	obj  *Object // unused; kept for freeze
}

func (w *Worker) rvGet(r *RV) Val {
	if r.addr {
		return w.load(r.ptr, r.t, isAgg(r.t), sizeOf(r.t))
	}
	return r.v
}

func (w *Worker) rvSet(r *RV, v Val) {
	w.store(r.ptr, r.t, isAgg(r.t), sizeOf(r.t), v)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	panic("kindOf " + t.String())
}

func (w *Worker) rtypeIface(t types.Type) Val {
	return Val{x: &Iface{t: w.p.rtypeT, v: Val{x: &RType{t}}}}
}

func (w *Worker) rt(v Val) types.Type {
	switch x := v.x.(type) {
	case *RType:
		return x.t
	case *Iface:
		return w.rt(x.v)
	}
	w.nilDeref()
	return nil
}

func rvOf(v Val) *RV {
	r, _ := v.x.(*RV)
	return r
}

func (w *Worker) rpanic(msg string) { w.panicErr("reflect: " + msg) }

func (w *Worker) rvNeed(v Val, meth string) *RV {
	r, _ := v.x.(*RV)
	if r == nil {
		w.rpanic("call of reflect.Value." + meth + " on zero Value")
	}
	return r
}

func mkRV(r *RV) Val { return Val{x: r} }

func (w *Worker) typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) rvAssign(meth string, r *RV) {
	if r.ro {
		w.rpanic("reflect.Value." + meth + " using value obtained using unexported field")
	}
	if !r.addr {
		w.rpanic("reflect.Value." + meth + " using unaddressable value")
	}
}

// assignTo converts x for assignment to type t.
func (w *Worker) assignTo(x *RV, t types.Type, ctx string) Val {
	if identical(x.t, t) {
		return w.rvGet(x)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			v := w.rvGet(x)
			if v.x == nil || w.implements(x.t, it) {
				return v
			}
		} else if w.implements(x.t, it) {
			return Val{x: &Iface{x.t, w.rvGet(x)}}
		}
	} else if types.AssignableTo(x.t, t) {
		return w.rvGet(x)
	}
	w.rpanic(fmt.Sprintf("%s: value of type %s is not assignable to type %s", ctx, w.typeStr(x.t), w.typeStr(t)))
	return Val{}
}

func (w *Worker) rvLen(r *RV) Val {
	v := w.rvGet(r)
	t := r.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return w.sliceLenTerm(v)
	case *types.Array:
		return vInt(u.Len())
	case *types.Map:
		m, _ := v.x.(*MapObj)
		if m == nil {
			return Val{}
		}
		return vInt(int64(m.nlive))
	case *types.Chan:
		c, _ := v.x.(*Chan)
		if c == nil {
			return Val{}
		}
		return vInt(int64(len(c.buf)))
	case *types.Basic:
		if isString(t) {
			return vInt(int64(strLen(v)))
		}
	}
	w.rpanic("call of reflect.Value.Len on " + kindOf(r.t).String() + " Value")
	return Val{}
}

func exported(name string) bool { return types.NewVar(0, nil, name, nil).Exported() }

func (w *Worker) rvField(r *RV, i int) Val {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		w.rpanic("call of reflect.Value.Field on " + kindOf(r.t).String() + " Value")
	}
	if i < 0 || i >= st.NumFields() {
		w.rpanic("Field index out of range")
	}
	f := st.Field(i)
	offs := fieldOffsets(r.t)
	n := &RV{t: f.Type(), ro: r.ro}
	if !f.Exported() {
		// embedded unexported fields are read-only only for themselves
		n.ro = true
		_ = f
	}
	if r.ro && !r.embedRO() {
		n.ro = true
	}
	if r.addr {
		n.addr = true
		n.ptr = w.ptrAdd(r.ptr, offs[i])
	} else {
		n.v = subVal(r.v.x.(*Agg).v, offs[i], f.Type())
	}
	if !f.Exported() && f.Embedded() {
		return mkRV(&RV{t: n.t, v: n.v, ptr: n.ptr, addr: n.addr, ro: true, obj: embedMark})
	}
	if r.ro && r.embedRO() && f.Exported() {
		n.ro = false
	}
	return mkRV(n)
}

// embedMark tags a read-only flag inherited from an embedded unexported field (flagEmbedRO):
// exported fields below it are settable again.
var embedMark = &Object{}

func (r *RV) embedRO() bool { return r.ro && r.obj == embedMark }

func (w *Worker) ptrAdd(p Val, off int) Val {
	switch o := p.x.(type) {
	case *Object:
		return Val{x: o, n: p.n + uint64(off)}
	case *SymPtr:
		q := *o
		q.off += off
		return Val{x: &q}
	}
	w.nilDeref()
	return Val{}
}

func (w *Worker) rvIndex(r *RV, iv Val) Val {
	i := int(int64(w.concretize(iv, 64)))
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		s, _ := w.rvGet(r).x.(*SliceV)
		if s != nil {
			w.concSlice(s)
		}
		if s == nil || i < 0 || i >= s.len {
			w.rpanic("slice index out of range")
		}
		return mkRV(&RV{t: u.Elem(), addr: true, ro: r.ro, ptr: Val{x: s.obj, n: uint64(s.off + i*s.esz)}})
	case *types.Array:
		if i < 0 || i >= int(u.Len()) {
			w.rpanic("array index out of range")
		}
		es := sizeOf(u.Elem())
		if r.addr {
			return mkRV(&RV{t: u.Elem(), addr: true, ro: r.ro, ptr: w.ptrAdd(r.ptr, i*es)})
		}
		return mkRV(&RV{t: u.Elem(), ro: r.ro, v: subVal(r.v.x.(*Agg).v, i*es, u.Elem())})
	case *types.Basic:
		if isString(r.t) {
			return mkRV(&RV{t: types.Typ[types.Uint8], ro: r.ro, v: w.strIndex(w.rvGet(r), iv)})
		}
	}
	w.rpanic("call of reflect.Value.Index on " + kindOf(r.t).String() + " Value")
	return Val{}
}

func (w *Worker) rvIsNil(r *RV) bool {
	switch kindOf(r.t) {
	case reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.UnsafePointer, reflect.Interface, reflect.Slice:
		return w.rvGet(r).x == nil
	}
	w.rpanic("call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
	return false
}

func (w *Worker) isZeroTerm(t types.Type, v Val) *Term {
	tb := w.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			if isOpaque(v) {
				return tb.False
			}
			return tb.Bool(strLen(v) == 0)
		}
		if isFloat(t) {
			return tb.Bool(v.n == 0)
		}
		wd := widthOf(t)
		if wd == 255 {
			return tb.Bool(v.x == nil && v.n == 0)
		}
		if wd == 0 {
			return tb.Not(w.term(v, 0))
		}
		return tb.Eq(w.term(v, wd), tb.Const(wd, 0))
	case *types.Struct:
		offs := fieldOffsets(t)
		r := tb.True
		for i := 0; i < u.NumFields(); i++ {
			r = tb.And(r, w.isZeroTerm(u.Field(i).Type(), subVal(v.x.(*Agg).v, offs[i], u.Field(i).Type())))
		}
		return r
	case *types.Array:
		es := sizeOf(u.Elem())
		r := tb.True
		for i := 0; i < int(u.Len()); i++ {
			r = tb.And(r, w.isZeroTerm(u.Elem(), subVal(v.x.(*Agg).v, i*es, u.Elem())))
		}
		return r
	}
	return tb.Bool(v.x == nil)
}

func (w *Worker) rvElem(r *RV) Val {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := w.rvGet(r)
		if p.x == nil {
			return Val{}
		}
		return mkRV(&RV{t: u.Elem(), addr: true, ptr: p, ro: r.ro})
	case *types.Interface:
		i, _ := w.rvGet(r).x.(*Iface)
		if i == nil {
			return Val{}
		}
		return mkRV(&RV{t: i.t, v: i.v, ro: r.ro})
	}
	w.rpanic("call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
	return Val{}
}

func (w *Worker) structField(t types.Type, i int) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		w.rpanic("Field of non-struct type " + w.typeStr(t))
	}
	if i < 0 || i >= st.NumFields() {
		w.rpanic("Field index out of bounds")
	}
	f := st.Field(i)
	sft := w.p.structFieldT
	sst := sft.Underlying().(*types.Struct)
	offs := fieldOffsets(sft)
	agg := make([]Val, sizeOf(sft))
	for k := 0; k < sst.NumFields(); k++ {
		var v Val
		switch sst.Field(k).Name() {
		case "Name":
			v = vStr(f.Name())
		case "PkgPath":
			if !f.Exported() {
				v = vStr(f.Pkg().Path())
			}
		case "Type":
			v = w.rtypeIface(f.Type())
		case "Tag":
			v = vStr(st.Tag(i))
		case "Index":
			o := w.newObj(1, nil)
			o.slots[0] = vInt(int64(i))
			v = w.mkSlice(o, 1, 1)
		case "Anonymous":
			v = vBool(f.Embedded())
		}
		agg[offs[k]] = v
	}
	return Val{x: &Agg{agg}}
}

// fieldPath finds the field called name, promoted ones included.
func fieldPath(t types.Type, name string) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return nil
	}
	o, path, _ := types.LookupFieldOrMethod(t, true, st.Field(0).Pkg(), name)
	if v, ok := o.(*types.Var); !ok || !v.IsField() {
		return nil
	}
	return path
}

func structOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// structFieldAt describes the field at the end of path.
func (w *Worker) structFieldAt(t types.Type, path []int) Val {
	for _, i := range path[:len(path)-1] {
		t = structOf(t).Underlying().(*types.Struct).Field(i).Type()
	}
	v := w.structField(structOf(t), path[len(path)-1])
	sst := w.p.structFieldT.Underlying().(*types.Struct)
	offs := fieldOffsets(w.p.structFieldT)
	for k := 0; k < sst.NumFields(); k++ {
		if sst.Field(k).Name() == "Index" {
			o := w.newObj(len(path), nil)
			for i, x := range path {
				o.slots[i] = vInt(int64(x))
			}
			v.x.(*Agg).v[offs[k]] = w.mkSlice(o, len(path), 1)
		}
	}
	return v
}

func (w *Worker) rvMapKeys(r *RV) []Val {
	m, _ := w.rvGet(r).x.(*MapObj)
	if m == nil {
		return nil
	}
	if w.races {
		w.raceMap(m, false)
	}
	it := w.newMapIter(Val{x: m})
	var out []Val
	for {
		t := w.iterNext(w.cur, it).x.(Tuple)
		if t[0].n == 0 {
			break
		}
		out = append(out, t[1])
	}
	return out
}

var rtypeMethods map[string]nativeFn

func init() {
	rtypeMethods = map[string]nativeFn{
		"Kind":   func(w *Worker, fr *Frame, a []Val) Val { return vInt(int64(kindOf(w.rt(a[0])))) },
		"String": func(w *Worker, fr *Frame, a []Val) Val { return vStr(w.typeStr(w.rt(a[0]))) },
		"Name": func(w *Worker, fr *Frame, a []Val) Val {
			switch t := types.Unalias(w.rt(a[0])).(type) {
			case *types.Named:
				return vStr(t.Obj().Name())
			case *types.Basic:
				return vStr(t.Name())
			}
			return Val{}
		},
		"PkgPath": func(w *Worker, fr *Frame, a []Val) Val {
			if t, ok := types.Unalias(w.rt(a[0])).(*types.Named); ok && t.Obj().Pkg() != nil {
				return vStr(t.Obj().Pkg().Path())
			}
			return Val{}
		},
		"Elem": func(w *Worker, fr *Frame, a []Val) Val {
			switch u := w.rt(a[0]).Underlying().(type) {
			case *types.Pointer:
				return w.rtypeIface(u.Elem())
			case *types.Slice:
				return w.rtypeIface(u.Elem())
			case *types.Array:
				return w.rtypeIface(u.Elem())
			case *types.Map:
				return w.rtypeIface(u.Elem())
			case *types.Chan:
				return w.rtypeIface(u.Elem())
			}
			w.rpanic("Elem of invalid type " + w.typeStr(w.rt(a[0])))
			return Val{}
		},
		"Key": func(w *Worker, fr *Frame, a []Val) Val {
			if m, ok := w.rt(a[0]).Underlying().(*types.Map); ok {
				return w.rtypeIface(m.Key())
			}
			w.rpanic("Key of non-map type")
			return Val{}
		},
		"Len": func(w *Worker, fr *Frame, a []Val) Val {
			if m, ok := w.rt(a[0]).Underlying().(*types.Array); ok {
				return vInt(m.Len())
			}
			w.rpanic("Len of non-array type")
			return Val{}
		},
		"NumField": func(w *Worker, fr *Frame, a []Val) Val {
			if m, ok := w.rt(a[0]).Underlying().(*types.Struct); ok {
				return vInt(int64(m.NumFields()))
			}
			w.rpanic("NumField of non-struct type " + w.typeStr(w.rt(a[0])))
			return Val{}
		},
		"Field": func(w *Worker, fr *Frame, a []Val) Val {
			return w.structField(w.rt(a[0]), int(w.concretize(a[1], 64)))
		},
		"FieldByName": func(w *Worker, fr *Frame, a []Val) Val {
			t := w.rt(a[0])
			if _, ok := t.Underlying().(*types.Struct); !ok {
				w.rpanic("FieldByName of non-struct type " + w.typeStr(t))
			}
			path := fieldPath(t, w.goStr(a[1]))
			if path == nil {
				return Val{x: Tuple{zeroVal(w.p.structFieldT), vBool(false)}}
			}
			return Val{x: Tuple{w.structFieldAt(t, path), vBool(true)}}
		},
		"FieldByIndex": func(w *Worker, fr *Frame, a []Val) Val {
			var path []int
			for _, e := range w.elems(a[1]) {
				path = append(path, int(w.concretize(e, 64)))
			}
			return w.structFieldAt(w.rt(a[0]), path)
		},
		"NumMethod": func(w *Worker, fr *Frame, a []Val) Val { return vInt(int64(numMethods(w.rt(a[0])))) },
		"Implements": func(w *Worker, fr *Frame, a []Val) Val {
			it, ok := w.rt(a[1]).Underlying().(*types.Interface)
			if !ok {
				w.rpanic("non-interface type passed to Type.Implements")
			}
			return vBool(w.implements(w.rt(a[0]), it))
		},
		"AssignableTo":  func(w *Worker, fr *Frame, a []Val) Val { return vBool(types.AssignableTo(w.rt(a[0]), w.rt(a[1]))) },
		"ConvertibleTo": func(w *Worker, fr *Frame, a []Val) Val { return vBool(types.ConvertibleTo(w.rt(a[0]), w.rt(a[1]))) },
		"Comparable":    func(w *Worker, fr *Frame, a []Val) Val { return vBool(types.Comparable(w.rt(a[0]))) },
		"Bits":          func(w *Worker, fr *Frame, a []Val) Val { return vInt(w.p.sizes.Sizeof(w.rt(a[0])) * 8) },
		"Size":          func(w *Worker, fr *Frame, a []Val) Val { return vInt(w.p.sizes.Sizeof(w.rt(a[0]))) },
	}
	type vm = func(w *Worker, fr *Frame, a []Val) Val
	reg := func(name string, f vm) {
		natives["(reflect.Value)."+name] = f
		natives["(internal/reflectlite.Value)."+name] = f
	}
	fun := func(name string, f vm) {
		natives["reflect."+name] = f
		natives["internal/reflectlite."+name] = f
	}
	fun("TypeOf", func(w *Worker, fr *Frame, a []Val) Val {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return Val{}
		}
		if r, ok := i.v.x.(*RType); ok {
			_ = r
			return w.rtypeIface(w.p.rtypeT)
		}
		return w.rtypeIface(i.t)
	})
	fun("ValueOf", func(w *Worker, fr *Frame, a []Val) Val {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return Val{}
		}
		return mkRV(&RV{t: i.t, v: i.v})
	})
	ptrTo := func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewPointer(w.rt(a[0]))) }
	fun("PointerTo", ptrTo)
	fun("PtrTo", ptrTo)
	fun("SliceOf", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewSlice(w.rt(a[0]))) })
	fun("MapOf", func(w *Worker, fr *Frame, a []Val) Val {
		return w.rtypeIface(types.NewMap(w.rt(a[0]), w.rt(a[1])))
	})
	fun("New", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.rt(a[0])
		return mkRV(&RV{t: types.NewPointer(t), v: Val{x: w.allocFor(t)}})
	})
	fun("Zero", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.rt(a[0])
		return mkRV(&RV{t: t, v: zeroVal(t)})
	})
	fun("MakeSlice", func(w *Worker, fr *Frame, a []Val) Val {
		t := w.rt(a[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			w.rpanic("reflect.MakeSlice of non-slice type")
		}
		return mkRV(&RV{t: t, v: w.makeSlice(st.Elem(), a[1], a[2], false)})
	})
	mkmap := func(w *Worker, fr *Frame, a []Val) Val {
		t := w.rt(a[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			w.rpanic("reflect.MakeMapWithSize of non-map type")
		}
		return mkRV(&RV{t: t, v: Val{x: w.newMap(mt.Key())}})
	}
	fun("MakeMap", mkmap)
	fun("MakeMapWithSize", mkmap)
	fun("Indirect", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		if r == nil || kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		return w.rvElem(r)
	})
	fun("Append", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Append")
		st := r.t.Underlying().(*types.Slice)
		s, _ := w.rvGet(r).x.(*SliceV)
		xs, _ := a[1].x.(*SliceV)
		cur := w.rvGet(r)
		if xs != nil {
			for i := 0; i < xs.len; i++ {
				x := rvOf(xs.obj.get(xs.off + i))
				v := w.assignTo(x, st.Elem(), "reflect.Append")
				s, _ = cur.x.(*SliceV)
				n, at := w.appendN(s, st.Elem(), 1)
				w.store(Val{x: n.obj, n: uint64(at)}, st.Elem(), isAgg(st.Elem()), sizeOf(st.Elem()), v)
				cur = Val{x: n}
			}
		}
		return mkRV(&RV{t: r.t, v: cur})
	})
	fun("Copy", func(w *Worker, fr *Frame, a []Val) Val {
		d, s := w.rvNeed(a[0], "Copy"), w.rvNeed(a[1], "Copy")
		get := func(r *RV) *SliceV {
			if at, ok := r.t.Underlying().(*types.Array); ok {
				if !r.addr {
					panic(unsupported("reflect.Copy of an unaddressable array"))
				}
				return &SliceV{obj: r.ptr.x.(*Object), off: int(r.ptr.n), len: int(at.Len()), cap: int(at.Len()), esz: sizeOf(at.Elem())}
			}
			x, _ := w.rvGet(r).x.(*SliceV)
			return x
		}
		return w.copyTo(get(d), get(s))
	})
	fun("Swapper", func(w *Worker, fr *Frame, a []Val) Val {
		i := a[0].x.(*Iface)
		s, _ := i.v.x.(*SliceV)
		return Val{x: &Closure{name: "swapper", nat: func(w *Worker, fr *Frame, b []Val) Val {
			x, y := int(w.concretize(b[0], 64)), int(w.concretize(b[1], 64))
			if s == nil || x < 0 || y < 0 || x >= s.len || y >= s.len {
				w.rpanic("slice index out of range")
			}
			if w.races {
				w.raceAccess(s.obj, s.off+x*s.esz, s.esz, true)
				w.raceAccess(s.obj, s.off+y*s.esz, s.esz, true)
			}
			p := w.loadRange(s.obj, s.off+x*s.esz, s.esz)
			q := w.loadRange(s.obj, s.off+y*s.esz, s.esz)
			w.storeRange(s.obj, s.off+x*s.esz, q)
			w.storeRange(s.obj, s.off+y*s.esz, p)
			return Val{}
		}}}
	})
	fun("DeepEqual", func(w *Worker, fr *Frame, a []Val) Val {
		x, _ := a[0].x.(*Iface)
		y, _ := a[1].x.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if !identical(x.t, y.t) {
			return vBool(false)
		}
		return w.fromTerm(w.deepEq(x.t, x.v, y.v, 0))
	})
	reg("Kind", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		if r == nil {
			return Val{}
		}
		return vInt(int64(kindOf(r.t)))
	})
	reg("IsValid", func(w *Worker, fr *Frame, a []Val) Val { return vBool(rvOf(a[0]) != nil) })
	reg("Type", func(w *Worker, fr *Frame, a []Val) Val {
		return w.rtypeIface(w.rvNeed(a[0], "Type").t)
	})
	reg("Elem", func(w *Worker, fr *Frame, a []Val) Val { return w.rvElem(w.rvNeed(a[0], "Elem")) })
	reg("IsNil", func(w *Worker, fr *Frame, a []Val) Val { return vBool(w.rvIsNil(w.rvNeed(a[0], "IsNil"))) })
	reg("IsZero", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "IsZero")
		return w.fromTerm(w.isZeroTerm(r.t, w.rvGet(r)))
	})
	reg("Len", func(w *Worker, fr *Frame, a []Val) Val { return w.rvLen(w.rvNeed(a[0], "Len")) })
	reg("Cap", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Cap")
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return vInt(at.Len())
		}
		s, _ := w.rvGet(r).x.(*SliceV)
		if s == nil {
			return Val{}
		}
		w.concSlice(s)
		return vInt(int64(s.cap))
	})
	reg("Index", func(w *Worker, fr *Frame, a []Val) Val { return w.rvIndex(w.rvNeed(a[0], "Index"), a[1]) })
	reg("Field", func(w *Worker, fr *Frame, a []Val) Val {
		return w.rvField(w.rvNeed(a[0], "Field"), int(w.concretize(a[1], 64)))
	})
	reg("FieldByIndex", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "FieldByIndex")
		s, _ := a[1].x.(*SliceV)
		cur := mkRV(r)
		for i := 0; s != nil && i < s.len; i++ {
			c := rvOf(cur)
			if i > 0 && kindOf(c.t) == reflect.Pointer {
				if w.rvIsNil(c) {
					w.rpanic("indirection through nil pointer to embedded struct")
				}
				c = rvOf(w.rvElem(c))
			}
			cur = w.rvField(c, int(s.obj.get(s.off+i).n))
		}
		return cur
	})
	reg("FieldByName", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "FieldByName")
		if _, ok := r.t.Underlying().(*types.Struct); !ok {
			w.rpanic("call of reflect.Value.FieldByName on " + kindOf(r.t).String() + " Value")
		}
		path := fieldPath(r.t, w.goStr(a[1]))
		if path == nil {
			return Val{}
		}
		cur := a[0]
		for k, i := range path {
			x := w.rvNeed(cur, "FieldByName")
			if _, ok := x.t.Underlying().(*types.Pointer); ok && k > 0 {
				cur = w.rvElem(x)
				x = w.rvNeed(cur, "FieldByName")
			}
			cur = w.rvField(x, i)
		}
		return cur
	})
	reg("NumField", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "NumField")
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.rpanic("call of reflect.Value.NumField on " + kindOf(r.t).String() + " Value")
		}
		return vInt(int64(st.NumFields()))
	})
	reg("NumMethod", func(w *Worker, fr *Frame, a []Val) Val {
		return vInt(int64(numMethods(w.rvNeed(a[0], "NumMethod").t)))
	})
	reg("Interface", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Interface")
		if r.ro {
			w.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := w.rvGet(r)
		if types.IsInterface(r.t) {
			return v
		}
		return Val{x: &Iface{r.t, v}}
	})
	reg("CanAddr", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		return vBool(r != nil && r.addr)
	})
	reg("CanSet", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		return vBool(r != nil && r.addr && !r.ro)
	})
	reg("CanInterface", func(w *Worker, fr *Frame, a []Val) Val {
		return vBool(!w.rvNeed(a[0], "CanInterface").ro)
	})
	reg("Addr", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Addr")
		if !r.addr {
			w.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&RV{t: types.NewPointer(r.t), v: r.ptr, ro: r.ro})
	})
	reg("Set", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Set")
		w.rvAssign("Set", r)
		x := w.rvNeed(a[1], "Set")
		if x.ro {
			w.rpanic("reflect.Set using value obtained using unexported field")
		}
		w.rvSet(r, w.assignTo(x, r.t, "reflect.Set"))
		return Val{}
	})
	reg("SetZero", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetZero")
		w.rvAssign("SetZero", r)
		w.rvSet(r, zeroVal(r.t))
		return Val{}
	})
	reg("SetString", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetString")
		w.rvAssign("SetString", r)
		if kindOf(r.t) != reflect.String {
			w.rpanic("call of reflect.Value.SetString on " + kindOf(r.t).String() + " Value")
		}
		w.rvSet(r, a[1])
		return Val{}
	})
	reg("SetBytes", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetBytes")
		w.rvAssign("SetBytes", r)
		st, ok := r.t.Underlying().(*types.Slice)
		if !ok || kindOf(st.Elem()) != reflect.Uint8 {
			w.rpanic("reflect.Value.SetBytes of non-byte slice")
		}
		w.rvSet(r, a[1])
		return Val{}
	})
	reg("SetBool", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetBool")
		w.rvAssign("SetBool", r)
		w.rvSet(r, a[1])
		return Val{}
	})
	reg("SetFloat", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetFloat")
		w.rvAssign("SetFloat", r)
		w.rvSet(r, a[1])
		return Val{}
	})
	narrow := func(w *Worker, r *RV, v Val) Val {
		wd := widthOf(r.t)
		if v.x == nil {
			return Val{n: v.n & mask(wd)}
		}
		if wd < 64 {
			return w.fromTerm(w.tb.Extract(w.term(v, 64), wd-1, 0))
		}
		return v
	}
	widen := func(w *Worker, r *RV) Val {
		v := w.rvGet(r)
		wd := widthOf(r.t)
		if v.x == nil {
			if isSigned(r.t) {
				return Val{n: uint64(sext(v.n, wd))}
			}
			return v
		}
		if isSigned(r.t) {
			return w.fromTerm(w.tb.Sext(w.term(v, wd), 64))
		}
		return w.fromTerm(w.tb.Zext(w.term(v, wd), 64))
	}
	reg("SetInt", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetInt")
		w.rvAssign("SetInt", r)
		if !isSigned(r.t) {
			w.rpanic("call of reflect.Value.SetInt on " + kindOf(r.t).String() + " Value")
		}
		w.rvSet(r, narrow(w, r, a[1]))
		return Val{}
	})
	reg("SetUint", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetUint")
		w.rvAssign("SetUint", r)
		if !isInteger(r.t) || isSigned(r.t) {
			w.rpanic("call of reflect.Value.SetUint on " + kindOf(r.t).String() + " Value")
		}
		w.rvSet(r, narrow(w, r, a[1]))
		return Val{}
	})
	reg("Int", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Int")
		if !isInteger(r.t) || !isSigned(r.t) {
			w.rpanic("call of reflect.Value.Int on " + kindOf(r.t).String() + " Value")
		}
		return widen(w, r)
	})
	reg("Uint", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Uint")
		if !isInteger(r.t) || isSigned(r.t) {
			w.rpanic("call of reflect.Value.Uint on " + kindOf(r.t).String() + " Value")
		}
		return widen(w, r)
	})
	reg("CanInt", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		return vBool(r != nil && isInteger(r.t) && isSigned(r.t))
	})
	reg("CanUint", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		return vBool(r != nil && isInteger(r.t) && !isSigned(r.t))
	})
	reg("FieldByIndexErr", func(w *Worker, fr *Frame, a []Val) Val {
		return Val{x: Tuple{natives["(reflect.Value).FieldByIndex"](w, fr, a), Val{}}}
	})
	reg("Clear", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Clear")
		switch u := r.t.Underlying().(type) {
		case *types.Map:
			m, _ := w.rvGet(r).x.(*MapObj)
			if m != nil {
				w.touchMap(m)
				if w.races {
					w.raceMap(m, true)
				}
				m.keys, m.vals, m.live, m.nlive, m.symKey = nil, nil, nil, 0, false
				m.idx = map[any]int{}
			}
		case *types.Slice:
			s := sliceOf(w.rvGet(r))
			if s == nil {
				return Val{}
			}
			w.concSlice(s)
			z := make([]Val, sizeOf(u.Elem()))
			copy(z, w.allocFor(u.Elem()).slots)
			for i := 0; i < s.len; i++ {
				w.storeRange(s.obj, s.off+i*s.esz, z)
			}
		default:
			w.rpanic("reflect.Value.Clear: value of type " + w.typeStr(r.t))
		}
		return Val{}
	})
	reg("Equal", func(w *Worker, fr *Frame, a []Val) Val {
		x, y := rvOf(a[0]), rvOf(a[1])
		if x != nil && types.IsInterface(x.t) {
			x = rvOf(w.rvElem(x))
		}
		if y != nil && types.IsInterface(y.t) {
			y = rvOf(w.rvElem(y))
		}
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return vBool(false)
		}
		if !types.Comparable(x.t) {
			w.rpanic("reflect.Value.Equal: values of type " + w.typeStr(x.t) + " are not comparable")
		}
		return w.fromTerm(w.eqTerm(x.t, w.rvGet(x), w.rvGet(y)))
	})
	reg("CanComplex", func(w *Worker, fr *Frame, a []Val) Val { return vBool(false) })
	reg("OverflowFloat", func(w *Worker, fr *Frame, a []Val) Val {
		if r := w.rvNeed(a[0], "OverflowFloat"); kindOf(r.t) == reflect.Float64 {
			return vBool(false)
		}
		panic(unsupported("reflect.Value.OverflowFloat of a float32"))
	})
	fun("PointerTo", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewPointer(w.rt(a[0]))) })
	fun("PtrTo", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewPointer(w.rt(a[0]))) })
	fun("SliceOf", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewSlice(w.rt(a[0]))) })
	fun("MapOf", func(w *Worker, fr *Frame, a []Val) Val { return w.rtypeIface(types.NewMap(w.rt(a[0]), w.rt(a[1]))) })
	fun("ArrayOf", func(w *Worker, fr *Frame, a []Val) Val {
		return w.rtypeIface(types.NewArray(w.rt(a[1]), int64(w.concretize(a[0], 64))))
	})
	reg("OverflowInt", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "OverflowInt")
		wd := widthOf(r.t)
		if wd >= 64 {
			return vBool(false)
		}
		t := w.term(a[1], 64)
		return w.fromTerm(w.tb.Not(w.tb.Eq(t, w.tb.Sext(w.tb.Extract(t, wd-1, 0), 64))))
	})
	reg("OverflowUint", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "OverflowUint")
		wd := widthOf(r.t)
		if wd >= 64 {
			return vBool(false)
		}
		t := w.term(a[1], 64)
		return w.fromTerm(w.tb.Not(w.tb.Eq(t, w.tb.Zext(w.tb.Extract(t, wd-1, 0), 64))))
	})
	rtypeMethods["OverflowInt"] = func(w *Worker, fr *Frame, a []Val) Val {
		return natives["(reflect.Value).OverflowInt"](w, fr, []Val{mkRV(&RV{t: w.rt(a[0])}), a[1]})
	}
	rtypeMethods["OverflowUint"] = func(w *Worker, fr *Frame, a []Val) Val {
		return natives["(reflect.Value).OverflowUint"](w, fr, []Val{mkRV(&RV{t: w.rt(a[0])}), a[1]})
	}
	reg("Bool", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Bool")
		if !isBoolT(r.t) {
			w.rpanic("call of reflect.Value.Bool on " + kindOf(r.t).String() + " Value")
		}
		return w.rvGet(r)
	})
	reg("Float", func(w *Worker, fr *Frame, a []Val) Val { return w.rvGet(w.rvNeed(a[0], "Float")) })
	reg("String", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		if r == nil {
			return vStr("<invalid Value>")
		}
		if kindOf(r.t) == reflect.String {
			return w.rvGet(r)
		}
		return vStr("<" + w.typeStr(r.t) + " Value>")
	})
	reg("Bytes", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Bytes")
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			if kindOf(u.Elem()) == reflect.Uint8 {
				return w.rvGet(r)
			}
		case *types.Array:
			if kindOf(u.Elem()) == reflect.Uint8 && r.addr {
				o := r.ptr.x.(*Object)
				n := int(u.Len())
				return Val{x: &SliceV{obj: o, off: int(r.ptr.n), len: n, cap: n, esz: 1}}
			}
		}
		w.rpanic("call of reflect.Value.Bytes on " + kindOf(r.t).String() + " Value")
		return Val{}
	})
	reg("SetLen", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetLen")
		w.rvAssign("SetLen", r)
		n := int(int64(w.concretize(a[1], 64)))
		s, _ := w.rvGet(r).x.(*SliceV)
		if s == nil {
			if n != 0 {
				w.rpanic("slice length out of range in SetLen")
			}
			return Val{}
		}
		if n < 0 || n > s.cap {
			w.rpanic("slice length out of range in SetLen")
		}
		c := *s
		c.len = n
		w.rvSet(r, Val{x: &c})
		return Val{}
	})
	reg("Grow", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Grow")
		w.rvAssign("Grow", r)
		n := int(int64(w.concretize(a[1], 64)))
		if n < 0 {
			w.rpanic("reflect.Value.Grow: negative len")
		}
		st := r.t.Underlying().(*types.Slice)
		s, _ := w.rvGet(r).x.(*SliceV)
		if n == 0 {
			return Val{}
		}
		ns, _ := w.appendN(s, st.Elem(), n)
		c := *ns
		c.len -= n
		w.rvSet(r, Val{x: &c})
		return Val{}
	})
	reg("Slice", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Slice")
		i, j := int(w.concretize(a[1], 64)), int(w.concretize(a[2], 64))
		if isString(r.t) {
			return mkRV(&RV{t: r.t, v: w.substr(w.rvGet(r), i, j)})
		}
		s, _ := w.rvGet(r).x.(*SliceV)
		if s == nil {
			s = &SliceV{esz: 1}
		}
		if i < 0 || j < i || j > s.cap {
			w.rpanic("reflect.Value.Slice: slice index out of bounds")
		}
		return mkRV(&RV{t: r.t, v: Val{x: &SliceV{obj: s.obj, off: s.off + i*s.esz, len: j - i, cap: s.cap - i, esz: s.esz}}})
	})
	reg("MapKeys", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "MapKeys")
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			w.rpanic("call of reflect.Value.MapKeys on " + kindOf(r.t).String() + " Value")
		}
		ks := w.rvMapKeys(r)
		o := w.newObj(len(ks), nil)
		for i, k := range ks {
			o.slots[i] = mkRV(&RV{t: mt.Key(), v: k, ro: r.ro})
		}
		return w.mkSlice(o, len(ks), 1)
	})
	reg("MapIndex", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "MapIndex")
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			w.rpanic("call of reflect.Value.MapIndex on " + kindOf(r.t).String() + " Value")
		}
		k := w.assignTo(w.rvNeed(a[1], "MapIndex"), mt.Key(), "reflect.Value.MapIndex")
		v, ok := w.mapGet(w.rvGet(r), mt.Key(), k)
		if !ok {
			return Val{}
		}
		return mkRV(&RV{t: mt.Elem(), v: v, ro: r.ro})
	})
	reg("SetMapIndex", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetMapIndex")
		mt := r.t.Underlying().(*types.Map)
		k := w.assignTo(w.rvNeed(a[1], "SetMapIndex"), mt.Key(), "reflect.Value.SetMapIndex")
		e := rvOf(a[2])
		if e == nil {
			w.mapDelete(w.rvGet(r), mt.Key(), k)
			return Val{}
		}
		w.mapSet(w.rvGet(r), mt.Key(), k, w.assignTo(e, mt.Elem(), "reflect.Value.SetMapIndex"))
		return Val{}
	})
	reg("Convert", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Convert")
		t := w.rt(a[1])
		if types.IsInterface(t) {
			return mkRV(&RV{t: t, v: w.assignTo(r, t, "reflect.Value.Convert")})
		}
		if !types.ConvertibleTo(r.t, t) {
			w.rpanic("reflect.Value.Convert: value of type " + w.typeStr(r.t) + " cannot be converted to type " + w.typeStr(t))
		}
		return mkRV(&RV{t: t, v: convFn(r.t, t)(fr, w.rvGet(r))})
	})
	reg("CanConvert", func(w *Worker, fr *Frame, a []Val) Val {
		return vBool(types.ConvertibleTo(w.rvNeed(a[0], "CanConvert").t, w.rt(a[1])))
	})
	ptrOf := func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Pointer")
		v := w.rvGet(r)
		switch x := v.x.(type) {
		case nil:
			return Val{}
		case *Object:
			return Val{n: uint64(x.id)<<20 + v.n}
		case *MapObj:
			return Val{n: uint64(x.id) << 20}
		case *SliceV:
			return Val{n: uint64(x.obj.id)<<20 + uint64(x.off)}
		}
		panic(unsupported("reflect.Value.Pointer"))
	}
	reg("Pointer", ptrOf)
	reg("UnsafePointer", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "UnsafePointer")
		v := w.rvGet(r)
		switch x := v.x.(type) {
		case nil:
			return Val{}
		case *Object:
			return v
		case *SliceV:
			return Val{x: x.obj, n: uint64(x.off)}
		case *MapObj:
			panic(unsupported("UnsafePointer of a map"))
		}
		panic(unsupported("reflect.Value.UnsafePointer"))
	})
	// map iteration
	natives["(reflect.Value).MapRange"] = func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "MapRange")
		o := w.newObj(max(1, sizeOf(w.p.mapIterT)), nil)
		o.slots[0] = Val{x: &rvMapIter{r: r, it: w.newMapIter(w.rvGet(r))}}
		return Val{x: o}
	}
	natives["(*reflect.MapIter).Next"] = func(w *Worker, fr *Frame, a []Val) Val {
		it := a[0].x.(*Object).slots[0].x.(*rvMapIter)
		t := w.iterNext(fr, it.it).x.(Tuple)
		it.k, it.v = t[1], t[2]
		return t[0]
	}
	natives["(*reflect.MapIter).Key"] = func(w *Worker, fr *Frame, a []Val) Val {
		it := a[0].x.(*Object).slots[0].x.(*rvMapIter)
		return mkRV(&RV{t: it.r.t.Underlying().(*types.Map).Key(), v: it.k})
	}
	natives["(*reflect.MapIter).Value"] = func(w *Worker, fr *Frame, a []Val) Val {
		it := a[0].x.(*Object).slots[0].x.(*rvMapIter)
		return mkRV(&RV{t: it.r.t.Underlying().(*types.Map).Elem(), v: it.v})
	}
	natives["(*reflect.MapIter).Reset"] = func(w *Worker, fr *Frame, a []Val) Val {
		o := a[0].x.(*Object)
		if r := rvOf(a[1]); r != nil {
			o.slots[0] = Val{x: &rvMapIter{r: r, it: w.newMapIter(w.rvGet(r))}}
		} else {
			o.slots[0] = Val{}
		}
		return Val{}
	}
	natives["(reflect.Value).SetIterKey"] = func(w *Worker, fr *Frame, a []Val) Val {
		it := a[1].x.(*Object).slots[0].x.(*rvMapIter)
		r := w.rvNeed(a[0], "SetIterKey")
		w.rvAssign("SetIterKey", r)
		w.rvSet(r, w.assignTo(&RV{t: it.r.t.Underlying().(*types.Map).Key(), v: it.k}, r.t, "reflect.Value.SetIterKey"))
		return Val{}
	}
	natives["(reflect.Value).SetIterValue"] = func(w *Worker, fr *Frame, a []Val) Val {
		it := a[1].x.(*Object).slots[0].x.(*rvMapIter)
		r := w.rvNeed(a[0], "SetIterValue")
		w.rvAssign("SetIterValue", r)
		w.rvSet(r, w.assignTo(&RV{t: it.r.t.Underlying().(*types.Map).Elem(), v: it.v}, r.t, "reflect.Value.SetIterValue"))
		return Val{}
	}
	fun("AppendSlice", func(w *Worker, fr *Frame, a []Val) Val {
		r, q := w.rvNeed(a[0], "AppendSlice"), w.rvNeed(a[1], "AppendSlice")
		st := r.t.Underlying().(*types.Slice)
		cur := w.rvGet(r)
		xs, _ := w.rvGet(q).x.(*SliceV)
		for i := 0; xs != nil && i < xs.len; i++ {
			v := w.load(Val{x: xs.obj, n: uint64(xs.off + i*xs.esz)}, st.Elem(), isAgg(st.Elem()), sizeOf(st.Elem()))
			s, _ := cur.x.(*SliceV)
			n, at := w.appendN(s, st.Elem(), 1)
			w.store(Val{x: n.obj, n: uint64(at)}, st.Elem(), isAgg(st.Elem()), sizeOf(st.Elem()), v)
			cur = Val{x: n}
		}
		return mkRV(&RV{t: r.t, v: cur})
	})
	reg("SetCap", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "SetCap")
		w.rvAssign("SetCap", r)
		n := int(int64(w.concretize(a[1], 64)))
		s, _ := w.rvGet(r).x.(*SliceV)
		if s == nil {
			s = &SliceV{esz: 1}
		}
		if n < s.len || n > s.cap {
			w.rpanic("slice capacity out of range in SetCap")
		}
		c := *s
		c.cap = n
		w.rvSet(r, Val{x: &c})
		return Val{}
	})
	reg("Slice3", func(w *Worker, fr *Frame, a []Val) Val {
		r := w.rvNeed(a[0], "Slice3")
		i, j, k := int(w.concretize(a[1], 64)), int(w.concretize(a[2], 64)), int(w.concretize(a[3], 64))
		s, _ := w.rvGet(r).x.(*SliceV)
		if s == nil {
			s = &SliceV{esz: 1}
		}
		if i < 0 || j < i || k < j || k > s.cap {
			w.rpanic("reflect.Value.Slice3: slice index out of bounds")
		}
		return mkRV(&RV{t: r.t, v: Val{x: &SliceV{obj: s.obj, off: s.off + i*s.esz, len: j - i, cap: k - i, esz: s.esz}}})
	})
	reg("CanFloat", func(w *Worker, fr *Frame, a []Val) Val {
		k := kindOf(w.rvNeed(a[0], "CanFloat").t)
		return vBool(k == reflect.Float32 || k == reflect.Float64)
	})
	reg("Comparable", func(w *Worker, fr *Frame, a []Val) Val {
		r := rvOf(a[0])
		return vBool(r == nil || types.Comparable(r.t) && !types.IsInterface(r.t))
	})
	natives["reflect.StructField.IsExported"] = nil
	delete(natives, "reflect.StructField.IsExported")
}

type rvMapIter struct {
	r    *RV
	it   *mapIter
	k, v Val
}

func numMethods(t types.Type) int {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.NumMethods()
	}
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

// deepEq is reflect.DeepEqual as a formula.
func (w *Worker) deepEq(t types.Type, a, b Val, depth int) *Term {
	if depth > 60 {
		panic(unsupported("DeepEqual of a deep or cyclic structure"))
	}
	tb := w.tb
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if samePtr(a, b) {
			return tb.True
		}
		if a.x == nil || b.x == nil {
			return tb.False
		}
		agg, sz := isAgg(u.Elem()), sizeOf(u.Elem())
		return w.deepEq(u.Elem(), w.load(a, u.Elem(), agg, sz), w.load(b, u.Elem(), agg, sz), depth+1)
	case *types.Interface:
		x, _ := a.x.(*Iface)
		y, _ := b.x.(*Iface)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if !identical(x.t, y.t) {
			return tb.False
		}
		return w.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Slice:
		x, _ := a.x.(*SliceV)
		y, _ := b.x.(*SliceV)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		w.concSlice(x)
		w.concSlice(y)
		if x.len != y.len {
			return tb.False
		}
		r := tb.True
		et := u.Elem()
		agg, sz := isAgg(et), sizeOf(et)
		for i := 0; i < x.len; i++ {
			r = tb.And(r, w.deepEq(et, w.load(Val{x: x.obj, n: uint64(x.off + i*x.esz)}, et, agg, sz), w.load(Val{x: y.obj, n: uint64(y.off + i*y.esz)}, et, agg, sz), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Map:
		x, _ := a.x.(*MapObj)
		y, _ := b.x.(*MapObj)
		if x == nil || y == nil {
			return tb.Bool(x == nil && y == nil)
		}
		if x.nlive != y.nlive {
			return tb.False
		}
		r := tb.True
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := w.mapGet(b, u.Key(), x.keys[i])
			if !ok {
				return tb.False
			}
			r = tb.And(r, w.deepEq(u.Elem(), x.vals[i], v, depth+1))
		}
		return r
	case *types.Struct:
		offs := fieldOffsets(t)
		r := tb.True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = tb.And(r, w.deepEq(ft, subVal(a.x.(*Agg).v, offs[i], ft), subVal(b.x.(*Agg).v, offs[i], ft), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Array:
		et := u.Elem()
		es := sizeOf(et)
		r := tb.True
		for i := 0; i < int(u.Len()); i++ {
			r = tb.And(r, w.deepEq(et, subVal(a.x.(*Agg).v, i*es, et), subVal(b.x.(*Agg).v, i*es, et), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Signature:
		return tb.Bool(a.x == nil && b.x == nil)
	}
	return w.eqTerm(t, a, b)
}
