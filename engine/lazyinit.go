package main

import (
	"fmt"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Variables of packages whose initialisers are not executed as a whole are
// initialised when they are first used: the part of the package initialiser
// which computes the variable is cut out (a backward slice over the straight
// line part of it) and executed.

type sliceCode struct {
	once sync.Once
	c    *Code
	err  string
}

var sliceCodes sync.Map

func (p *Program) initSlice(g *ssa.Global) (*Code, string) {
	a, _ := sliceCodes.LoadOrStore(g, &sliceCode{})
	s := a.(*sliceCode)
	s.once.Do(func() {
		fn := g.Pkg.Func("init")
		if fn == nil {
			s.err = "no initialiser"
			return
		}
		p.built(fn)
		s.c, s.err = p.sliceInit(fn, g)
	})
	return s.c, s.err
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (p *Program) sliceInit(fn *ssa.Function, g *ssa.Global) (*Code, string) {
	// init functions which mention the variable are beyond this
	for name, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || len(name) < 5 || name[:5] != "init#" {
			continue
		}
		p.built(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == g {
						return nil, "it is used by " + f.String()
					}
				}
			}
		}
	}
	var last *ssa.BasicBlock
	for _, b := range fn.Blocks {
		if b.Comment == "init.done" {
			for _, pr := range b.Preds {
				if pr != fn.Blocks[0] {
					last = pr
				}
			}
		}
	}
	if last == nil {
		return nil, "its initialiser has an unknown shape"
	}
	need := map[ssa.Instruction]bool{}
	roots := map[ssa.Value]bool{g: true}
	for changed := true; changed; {
		changed = false
		add := func(in ssa.Instruction) {
			if !need[in] {
				need[in] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if roots[addrRoot(x.Addr)] {
						add(in)
					}
				case *ssa.MapUpdate:
					if roots[x.Map] {
						add(in)
					}
				}
				if !need[in] {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					oi, ok := (*o).(ssa.Instruction)
					if !ok {
						continue
					}
					add(oi)
					switch (*o).(type) {
					case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
						if !roots[*o] {
							roots[*o] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var ins []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if !need[in] {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok || !b.Dominates(last) {
				return nil, "its initialiser has branches"
			}
			ins = append(ins, in)
		}
	}
	c := &Code{fn: fn, name: fmt.Sprintf("init of %s", g)}
	cc := &compiler{p, c, map[ssa.Value]int{}}
	for _, in := range ins {
		if v, ok := in.(ssa.Value); ok {
			cc.regs[v] = len(cc.regs)
		}
	}
	c.nregs = len(cc.regs)
	c.recov = -1
	c.blocks = make([]blockCode, 1)
	bc := &c.blocks[0]
	for _, in := range append(ins, &ssa.Return{}) {
		if f := cc.instr(in); f != nil {
			bc.ops = append(bc.ops, f)
			bc.instrs = append(bc.instrs, in)
		}
	}
	c.once.Do(func() {})
	return c, ""
}

// lazyInit gives the variable its initial value.
func (w *Worker) lazyInit(g *ssa.Global, i int, o *Object) {
	c, err := w.p.initSlice(g)
	if err != "" {
		w.globals[i] = nil
		panic(unsupported("global of a package that is not initialised: " + g.String() + ": " + err))
	}
	ok := false
	defer func() {
		w.noPreempt--
		if !ok {
			w.globals[i] = nil
		}
	}()
	w.noPreempt++
	o.frozen = false
	w.call(w.cur, c, nil, nil)
	w.freezeNew(o)
	ok = true
}
