package main

import (
	"bytes"
	"os"

	"fmt"
	"math/rand"
)

// selftest compares the term simplifier with the solver's reading of the unsimplified
// operation on random terms, and the evaluator with both.
func selftest(seed int) int {
	rng := rand.New(rand.NewSource(int64(seed)))
	bad := 0
	for round := 0; round < 15 && bad == 0; round++ {
		tb := NewTB()
		vars := []*Term{tb.Var("a", 8), tb.Var("b", 8), tb.Var("c", 64), tb.Var("d", 64), tb.Var("e", 32), tb.Var("f", 16)}
		vv := map[*Term]uint64{}
		tb.newModel()
		for _, v := range vars {
			x := rng.Uint64()
			switch rng.Intn(4) {
			case 0:
				x = uint64(rng.Intn(4))
			case 1:
				x = -uint64(rng.Intn(4))
			}
			x &= mask(v.w)
			vv[v] = x
			tb.setVar(v, x)
		}
		type tv struct {
			t *Term
			v uint64
		}
		pool := map[uint8][]tv{}
		for _, v := range vars {
			pool[v.w] = append(pool[v.w], tv{v, vv[v]})
		}
		for _, w := range []uint8{8, 16, 32, 64} {
			for _, c := range []uint64{0, 1, 2, 7, 10, 48, 57, 255, 256, 1 << 14, mask(w), mask(w) >> 1, rng.Uint64()} {
				pool[w] = append(pool[w], tv{tb.Const(w, c&mask(w)), c & mask(w)})
			}
		}
		pool[0] = append(pool[0], tv{tb.Bool(true), 1}, tv{tb.Bool(false), 0})
		pick := func(w uint8) tv { p := pool[w]; return p[rng.Intn(len(p))] }
		ws := []uint8{8, 16, 32, 64}
		ops := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr}
		check := func(what string, t *Term, want uint64) {
			tb.newModelKeep(vv)
			got := tb.eval(t)
			if got != want {
				fmt.Printf("selftest: %s: term %v evaluates to %d, want %d under %v\n", what, t, got, want, vv)
				bad++
			}
			if t.w > 0 && (want < t.umin || want > t.umax) {
				fmt.Printf("selftest: %s: term %v value %d outside range [%d,%d]\n", what, t, want, t.umin, t.umax)
				bad++
			}
		}
		for i := 0; i < 4000 && bad == 0; i++ {
			w := ws[rng.Intn(4)]
			a, b := pick(w), pick(w)
			switch rng.Intn(10) {
			case 0, 1, 2, 3:
				op := ops[rng.Intn(len(ops))]
				if (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && b.v == 0 {
					continue
				}
				r := tv{tb.Bin(op, a.t, b.t), evalBin(op, w, a.v, b.v)}
				check(fmt.Sprint("op ", op, " ", a.t, " ", b.t), r.t, r.v)
				pool[w] = append(pool[w], r)
			case 4:
				var r tv
				k := rng.Intn(5)
				switch k {
				case 0:
					r = tv{tb.Eq(a.t, b.t), b2u(a.v == b.v)}
				case 1:
					r = tv{tb.Ult(a.t, b.t), b2u(a.v < b.v)}
				case 2:
					r = tv{tb.Ule(a.t, b.t), b2u(a.v <= b.v)}
				case 3:
					r = tv{tb.Slt(a.t, b.t), b2u(sext(a.v, w) < sext(b.v, w))}
				case 4:
					r = tv{tb.Sle(a.t, b.t), b2u(sext(a.v, w) <= sext(b.v, w))}
				}
				check(fmt.Sprint("cmp ", k, " ", a.t, " ", b.t), r.t, r.v)
				pool[0] = append(pool[0], r)
			case 5:
				p, q := pick(0), pick(0)
				var r tv
				switch rng.Intn(3) {
				case 0:
					r = tv{tb.And(p.t, q.t), p.v & q.v}
				case 1:
					r = tv{tb.Or(p.t, q.t), p.v | q.v}
				case 2:
					r = tv{tb.Not(p.t), 1 - p.v}
				}
				check(fmt.Sprint("bool ", p.t, " ", q.t), r.t, r.v)
				pool[0] = append(pool[0], r)
			case 6:
				p := pick(0)
				r := tv{tb.Ite(p.t, a.t, b.t), a.v}
				if p.v == 0 {
					r.v = b.v
				}
				check("ite", r.t, r.v)
				pool[w] = append(pool[w], r)
			case 7:
				w2 := ws[rng.Intn(4)]
				if w2 > w {
					r := tv{tb.Zext(a.t, w2), a.v}
					check("zext", r.t, r.v)
					pool[w2] = append(pool[w2], r)
					r = tv{tb.Sext(a.t, w2), uint64(sext(a.v, w)) & mask(w2)}
					check("sext", r.t, r.v)
					pool[w2] = append(pool[w2], r)
				} else if w2 < w {
					lo := uint8(rng.Intn(int(w-w2) + 1))
					r := tv{tb.Extract(a.t, lo+w2-1, lo), a.v >> lo & mask(w2)}
					check(fmt.Sprint("extract ", lo, " ", a.t), r.t, r.v)
					pool[w2] = append(pool[w2], r)
				}
			case 8:
				if w < 64 {
					r := tv{tb.Concat(a.t, b.t), (a.v<<w | b.v) & mask(2*w)}
					check("concat", r.t, r.v)
					pool[2*w] = append(pool[2*w], r)
				}
			case 9:
				r := tv{tb.BNot(a.t), ^a.v & mask(w)}
				check("bnot", r.t, r.v)
				pool[w] = append(pool[w], r)
				r = tv{tb.Neg(a.t), -a.v & mask(w)}
				check("neg", r.t, r.v)
				pool[w] = append(pool[w], r)
			}
		}
		if bad > 0 {
			break
		}
		// the solver must agree on the value of composite terms under the model
		sol := NewSolver(tb, z3Bin(), 20000)
		var lg bytes.Buffer
		if os.Getenv("SELFTEST_LOG") != "" {
			sol.log = &lg
		}
		var pc []*Term
		for _, v := range vars {
			pc = append(pc, tb.Eq(v, tb.Const(v.w, vv[v])))
		}
		for k := 0; k < 15; k++ {
			w := ws[rng.Intn(4)]
			p := pool[w]
			x := p[len(p)-1-rng.Intn(len(p)/2)]
			ne := tb.mkRaw(OEq, 0, x.t, tb.Const(w, x.v))
			if r, _ := sol.Check(pc, tb.mkRaw(ONot, 0, ne, nil)); r != Unsat {
				fmt.Printf("selftest: solver disagrees (%v) on %v = %d\n", r, x.t, x.v)
				bad++
				if lg.Len() > 0 {
					os.WriteFile(os.Getenv("SELFTEST_LOG"), lg.Bytes(), 0o644)
				}
			}
		}
		sol.Close()
	}
	if bad > 0 {
		return 1
	}
	fmt.Println("selftest: simplifier, evaluator, ranges and solver agree")
	return 0
}

func (tb *TB) newModelKeep(m map[*Term]uint64) {
	tb.newModel()
	for k, v := range m {
		tb.setVar(k, v)
	}
}

func (tb *TB) mkRaw(op Op, w uint8, a, b *Term) *Term { return tb.mk(op, w, 0, a, b, nil) }
