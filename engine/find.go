package main

import "go/types"

// findAll walks the heap from root along the types and returns the pointers of the given type, each once,
// in a fixed order. Closures and channels are not followed.
func (w *Worker) findAll(root *Iface, want types.Type) (out []Val) {
	type place struct {
		o  *Object
		n  uint64
		t  types.Type
		sl int
	}
	seen := map[place]bool{}
	maps := map[*MapObj]bool{}
	var at func(o *Object, off int, t types.Type)
	var of func(v Val, t types.Type)
	holds := map[types.Type]int{}
	var may func(t types.Type) bool // t can hold references
	may = func(t types.Type) bool {
		t = types.Unalias(t)
		if k := holds[t]; k != 0 {
			return k == 1
		}
		r := true
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Signature, *types.Chan:
			r = false
		case *types.Array:
			r = may(u.Elem())
		case *types.Struct:
			r = false
			for i := 0; i < u.NumFields(); i++ {
				r = r || may(u.Field(i).Type())
			}
		}
		holds[t] = 2 - int(b2u(r))
		return r
	}
	of = func(v Val, t types.Type) {
		t = types.Unalias(t)
		if v.x == nil || !may(t) || isReflectValue(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			o, ok := v.x.(*Object)
			if !ok {
				return
			}
			k := place{o, v.n, u.Elem(), 0}
			if seen[k] {
				return
			}
			seen[k] = true
			if types.Identical(t, want) {
				out = append(out, v)
			}
			at(o, int(v.n), u.Elem())
		case *types.Slice:
			s, ok := v.x.(*SliceV)
			if !ok || !may(u.Elem()) {
				return
			}
			k := place{s.obj, uint64(s.off), u.Elem(), 1 + s.len}
			if seen[k] {
				return
			}
			seen[k] = true
			for i := 0; i < s.len; i++ {
				at(s.obj, s.off+i*s.esz, u.Elem())
			}
		case *types.Map:
			m, ok := v.x.(*MapObj)
			if !ok || maps[m] {
				return
			}
			maps[m] = true
			for i := range m.keys {
				if m.live[i] {
					of(m.keys[i], u.Key())
					of(m.vals[i], u.Elem())
				}
			}
		case *types.Interface:
			if i, ok := v.x.(*Iface); ok {
				of(i.v, i.t)
			}
		case *types.Struct:
			if g, ok := v.x.(*Agg); ok {
				offs := fieldOffsets(t)
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i).Type()
					if isAgg(f) {
						of(Val{x: &Agg{g.v[offs[i]:offs[i+1]]}}, f)
					} else if offs[i] < offs[i+1] {
						of(g.v[offs[i]], f)
					}
				}
			}
		}
	}
	at = func(o *Object, off int, t types.Type) {
		t = types.Unalias(t)
		if !may(t) || isReflectValue(t) || o.isBytes {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			offs := fieldOffsets(t)
			for i := 0; i < u.NumFields(); i++ {
				at(o, off+offs[i], u.Field(i).Type())
			}
		case *types.Array:
			n := sizeOf(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				at(o, off+i*n, u.Elem())
			}
		default:
			if off < len(o.slots) {
				of(o.slots[off], t)
			}
		}
	}
	of(root.v, root.t)
	return
}
