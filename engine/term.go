package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Bit-vector and boolean terms, hash-consed per worker.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // v = hi<<8|lo
	OZext
	OSext
)

// Term has width w; w==0 is Bool.
type Term struct {
	op      Op
	w       uint8
	v       uint64 // constant / extract bounds
	a, b, c *Term
	name    string
	id      uint32

	umin, umax uint64 // unsigned range (w>0)

	// single free variable information, for small-domain reasoning
	nvars int8 // 0,1 or 2 (=many)
	only  *Term

	// evaluation cache
	epoch uint32
	ev    uint64
	// variable: model value
	mv   uint64
	mset uint32
	// defined in solver (session number)
	sess uint32

	h1, h2 uint64 // structural hash, independent of the table

	tt *[4]uint64 // truth table for boolean over one 8-bit var
}

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c uint32
}

type TB struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	nextID uint32
	epoch  uint32 // evaluation epoch
	mepoch uint32 // model epoch
	True   *Term
	False  *Term
	bytes  [256]*Term
	small  map[uint8]*[1024]*Term
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, vars: map[string]*Term{}, epoch: 1, mepoch: 1}
	tb.True = &Term{op: OConst, v: 1, id: 1}
	tb.False = &Term{op: OConst, v: 0, id: 2}
	tb.True.setHash()
	tb.False.setHash()
	tb.nextID = 3
	tb.small = map[uint8]*[1024]*Term{}
	for i := range tb.bytes {
		tb.bytes[i] = tb.Const(8, uint64(i))
	}
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.v == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 && tb.bytes[v] != nil {
		return tb.bytes[v]
	}
	if v < 1024 {
		s := tb.small[w]
		if s == nil {
			s = new([1024]*Term)
			tb.small[w] = s
		}
		if s[v] == nil {
			s[v] = tb.mkConst(w, v)
		}
		return s[v]
	}
	return tb.mkConst(w, v)
}

func (tb *TB) mkConst(w uint8, v uint64) *Term {
	k := tkey{op: OConst, w: w, v: v}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, v: v, id: tb.nextID, umin: v, umax: v}
	t.setHash()
	tb.nextID++
	tb.tab[k] = t
	return t
}

func (tb *TB) Int(v int64) *Term { return tb.Const(64, uint64(v)) }
func (tb *TB) Byte(v byte) *Term { return tb.bytes[v] }

func (tb *TB) Var(name string, w uint8) *Term {
	if t, ok := tb.vars[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tb.nextID, umin: 0, umax: mask(w), nvars: 1}
	t.setHash()
	t.only = t
	tb.nextID++
	tb.vars[name] = t
	return t
}

func idOf(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, v uint64, a, b, c *Term) *Term {
	k := tkey{op, w, v, idOf(a), idOf(b), idOf(c)}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, v: v, a: a, b: b, c: c, id: tb.nextID, umin: 0, umax: mask(w)}
	t.setHash()
	tb.nextID++
	for _, x := range [3]*Term{a, b, c} {
		if x == nil || x.nvars == 0 {
			continue
		}
		if t.nvars == 0 {
			t.nvars, t.only = x.nvars, x.only
		} else if x.nvars > 1 || t.nvars > 1 || x.only != t.only {
			t.nvars, t.only = 2, nil
		}
	}
	if t.nvars > 1 {
		t.only = nil
	}
	tb.rangeOf(t)
	tb.tab[k] = t
	return t
}

func (tb *TB) rangeOf(t *Term) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	switch t.op {
	case OAdd:
		s, c := bits.Add64(t.a.umax, t.b.umax, 0)
		if c == 0 && s <= m {
			t.umax = s
			t.umin = t.a.umin + t.b.umin
		}
	case OSub:
		if t.a.umin >= t.b.umax {
			t.umin = t.a.umin - t.b.umax
			t.umax = t.a.umax - t.b.umin
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.umax, t.b.umax)
		if hi == 0 && lo <= m {
			t.umax = lo
			t.umin = t.a.umin * t.b.umin
		}
	case OUDiv:
		if t.b.umin > 0 {
			t.umax = t.a.umax / t.b.umin
			t.umin = t.a.umin / t.b.umax
		}
	case OURem:
		if t.b.umin > 0 {
			t.umax = t.b.umax - 1
			if t.a.umax < t.umax {
				t.umax = t.a.umax
			}
		}
	case OBAnd:
		t.umax = min(t.a.umax, t.b.umax)
	case OBOr, OBXor:
		n := bits.Len64(t.a.umax | t.b.umax)
		t.umax = mask(uint8(n))
		if n == 0 {
			t.umax = 0
		}
		if t.op == OBOr {
			t.umin = max(t.a.umin, t.b.umin)
		}
	case OIte:
		t.umin = min(t.b.umin, t.c.umin)
		t.umax = max(t.b.umax, t.c.umax)
	case OZext:
		t.umin, t.umax = t.a.umin, t.a.umax
	case OSext:
		if t.a.umax < 1<<(t.a.w-1) {
			t.umin, t.umax = t.a.umin, t.a.umax
		}
	case OExtract:
		lo := uint8(t.v & 0xff)
		hi := uint8(t.v >> 8)
		if t.a.umax <= mask(hi+1) {
			t.umin, t.umax = t.a.umin>>lo, t.a.umax>>lo
		}
	case OLshr:
		if t.b.isConst() && t.b.v < 64 {
			t.umin, t.umax = t.a.umin>>t.b.v, t.a.umax>>t.b.v
		} else {
			t.umax = t.a.umax
		}
	case OShl:
		if t.b.isConst() && t.b.v < uint64(t.w) {
			if bits.Len64(t.a.umax)+int(t.b.v) <= int(t.w) {
				t.umin, t.umax = t.a.umin<<t.b.v, t.a.umax<<t.b.v
			}
		}
	case OConcat:
		t.umin = t.a.umin<<t.b.w | t.b.umin
		t.umax = t.a.umax<<t.b.w | t.b.umax
	}
}

// ---- boolean ----

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.v == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return tb.Ule(a.b, a.a)
	case OUle:
		return tb.Ult(a.b, a.a)
	case OSlt:
		return tb.Sle(a.b, a.a)
	case OSle:
		return tb.Slt(a.b, a.a)
	}
	return tb.mk(ONot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.v == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.v == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.v == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.v == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tb.Or(c, b)
		}
		if a.isFalse() {
			return tb.And(tb.Not(c), b)
		}
		if b.isTrue() {
			return tb.Or(tb.Not(c), a)
		}
		if b.isFalse() {
			return tb.And(c, a)
		}
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	return tb.mk(OIte, a.w, 0, c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %v %v", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.v == b.v)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 1 {
				return a
			}
			return tb.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(OEq, 0, 0, a, b, nil)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return tb.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.op == OZext && b.op == OZext {
		nw := max(a.a.w, b.a.w)
		return tb.Eq(tb.Zext(a.a, nw), tb.Zext(b.a, nw))
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			return tb.Eq(a.a, tb.Const(a.a.w, b.v))
		case OSext:
			tv := uint64(sext(b.v&mask(a.a.w), a.a.w)) & mask(a.w)
			if tv != b.v {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.w, b.v))
		case OAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.v-a.b.v))
			}
		case OSub:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.v+a.b.v))
			}
			if a.a.isConst() {
				return tb.Eq(a.b, tb.Const(a.w, a.a.v-b.v))
			}
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				x, y := a.b.v == b.v, a.c.v == b.v
				switch {
				case x && y:
					return tb.True
				case x:
					return a.a
				case y:
					return tb.Not(a.a)
				default:
					return tb.False
				}
			}
			if a.b.isConst() || a.c.isConst() {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OConcat:
			return tb.And(tb.Eq(a.a, tb.Const(a.a.w, b.v>>a.b.w)), tb.Eq(a.b, tb.Const(a.b.w, b.v)))
		case OBXor:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.w, b.v^a.b.v))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

// addsTo reports that s is b plus something, without wrapping.
func addsTo(s, b *Term) bool {
	if s.op != OAdd || s.a != b && s.b != b {
		return false
	}
	return s.a.umax <= mask(s.w)-s.b.umax
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(a.v < b.v)
	}
	if a == b || b.umax == 0 {
		return tb.False
	}
	if a.umax < b.umin {
		return tb.True
	}
	if a.umin >= b.umax || addsTo(a, b) {
		return tb.False
	}
	if b.isConst() && b.v == 1 {
		return tb.Eq(a, tb.Const(a.w, 0))
	}
	if a.op == OZext && b.isConst() && b.v <= mask(a.a.w) {
		return tb.Ult(a.a, tb.Const(a.a.w, b.v))
	}
	if b.op == OZext && a.isConst() && a.v <= mask(b.a.w) {
		return tb.Ult(tb.Const(b.a.w, a.v), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ult(a.a, b.a)
	}
	if a.op == OZext && b.op == OZext {
		nw := max(a.a.w, b.a.w)
		return tb.Ult(tb.Zext(a.a, nw), tb.Zext(b.a, nw))
	}
	return tb.mk(OUlt, 0, 0, a, b, nil)
}

func (tb *TB) Ule(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(a.v <= b.v)
	}
	if a == b || a.umax <= b.umin || addsTo(b, a) {
		return tb.True
	}
	if a.umin > b.umax {
		return tb.False
	}
	if b.isConst() && b.v == 0 {
		return tb.Eq(a, b)
	}
	if a.op == OZext && b.isConst() && b.v <= mask(a.a.w) {
		return tb.Ule(a.a, tb.Const(a.a.w, b.v))
	}
	if b.op == OZext && a.isConst() && a.v <= mask(b.a.w) {
		return tb.Ule(tb.Const(b.a.w, a.v), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Ule(a.a, b.a)
	}
	if a.op == OZext && b.op == OZext {
		nw := max(a.a.w, b.a.w)
		return tb.Ule(tb.Zext(a.a, nw), tb.Zext(b.a, nw))
	}
	return tb.mk(OUle, 0, 0, a, b, nil)
}

func nonneg(t *Term) bool { return t.umax <= mask(t.w)>>1 }

func (tb *TB) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(sext(a.v, a.w) < sext(b.v, b.w))
	}
	if a == b {
		return tb.False
	}
	if nonneg(a) && nonneg(b) {
		return tb.Ult(a, b)
	}
	return tb.mk(OSlt, 0, 0, a, b, nil)
}

func (tb *TB) Sle(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(sext(a.v, a.w) <= sext(b.v, b.w))
	}
	if a == b {
		return tb.True
	}
	if nonneg(a) && nonneg(b) {
		return tb.Ule(a, b)
	}
	return tb.mk(OSle, 0, 0, a, b, nil)
}

// ---- bit-vector ----

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

// tryNarrow returns a as a term of width nw that zero-extends to it, or nil.
func (tb *TB) tryNarrow(a *Term, nw uint8) *Term {
	if a.isConst() {
		if a.v > mask(nw) {
			return nil
		}
		return tb.Const(nw, a.v)
	}
	if a.op == OZext && a.a.w <= nw {
		return tb.Zext(a.a, nw)
	}
	return nil
}

// narrowBin performs arithmetic on zero-extended operands in fewer bits when it cannot wrap.
func (tb *TB) narrowBin(op Op, a, b *Term) *Term {
	w := a.w
	if w < 32 || a.op != OZext && b.op != OZext {
		return nil
	}
	mx := a.umax
	switch op {
	case OAdd:
		s, c := bits.Add64(a.umax, b.umax, 0)
		if c != 0 {
			return nil
		}
		mx = s
	case OMul:
		hi, lo := bits.Mul64(a.umax, b.umax)
		if hi != 0 {
			return nil
		}
		mx = lo
	case OSub:
		if a.umin < b.umax {
			return nil
		}
	case OUDiv, OURem:
		if b.umin == 0 {
			return nil
		}
	case OSDiv, OSRem:
		if b.umin == 0 || !nonneg(a) || !nonneg(b) {
			return nil
		}
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	default:
		return nil
	}
	mx = max(mx, a.umax, b.umax)
	for _, nw := range [2]uint8{16, 32} {
		if nw >= w || mx > mask(nw) {
			continue
		}
		na := tb.tryNarrow(a, nw)
		nb := tb.tryNarrow(b, nw)
		if na != nil && nb != nil {
			return tb.Zext(tb.Bin(op, na, nb), w)
		}
	}
	return nil
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return tb.Const(w, evalBin(op, w, a.v, b.v))
	}
	zero := func() *Term { return tb.Const(w, 0) }
	if t := tb.narrowBin(op, a, b); t != nil {
		return t
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(w, a.b.v+b.v))
			}
			if a.op == OSub && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(w, b.v-a.b.v))
			}
			if a.op == OSub && a.a.isConst() {
				return tb.Bin(OSub, tb.Const(w, a.a.v+b.v), a.b)
			}
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	case OSub:
		if a == b {
			return zero()
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(w, a.b.v-b.v))
			}
			if a.op == OSub && a.b.isConst() {
				return tb.Bin(OSub, a.a, tb.Const(w, a.b.v+b.v))
			}
			if a.op == OSub && a.a.isConst() {
				return tb.Bin(OSub, tb.Const(w, a.a.v-b.v), a.b)
			}
		}
		if a.op == OZext && a.a.op == OAdd && a.a.a.umax <= mask(a.a.w)-a.a.b.umax {
			if tb.Zext(a.a.a, w) == b {
				return tb.Zext(a.a.b, w)
			}
			if tb.Zext(a.a.b, w) == b {
				return tb.Zext(a.a.a, w)
			}
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
			if b.op == OAdd && a.a == b.a {
				return tb.Bin(OSub, a.b, b.b)
			}
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
			if b.v&(b.v-1) == 0 {
				return tb.Bin(OShl, a, tb.Const(w, uint64(bits.TrailingZeros64(b.v))))
			}
		}
	case OUDiv:
		if b.isConst() && b.v != 0 {
			if b.v == 1 {
				return a
			}
			if b.v&(b.v-1) == 0 {
				return tb.Bin(OLshr, a, tb.Const(w, uint64(bits.TrailingZeros64(b.v))))
			}
		}
		if a.umax < b.umin {
			return zero()
		}
	case OURem:
		if b.isConst() && b.v != 0 && b.v&(b.v-1) == 0 {
			return tb.Bin(OBAnd, a, tb.Const(w, b.v-1))
		}
		if a.umax < b.umin {
			return a
		}
	case OSDiv:
		if nonneg(a) && nonneg(b) && b.umin > 0 {
			return tb.Bin(OUDiv, a, b)
		}
		if b.isConst() && b.v == 1 {
			return a
		}
		// signed division by a power of two: (a + ((a>>w-1) & (2^k-1))) >> k
		if b.isConst() && sext(b.v, w) > 1 && b.v&(b.v-1) == 0 {
			k := uint64(bits.TrailingZeros64(b.v))
			sgn := tb.Bin(OAshr, a, tb.Const(w, uint64(w)-1))
			bias := tb.Bin(OBAnd, sgn, tb.Const(w, b.v-1))
			return tb.Bin(OAshr, tb.Bin(OAdd, a, bias), tb.Const(w, k))
		}
	case OSRem:
		if nonneg(a) && nonneg(b) && b.umin > 0 {
			return tb.Bin(OURem, a, b)
		}
		if b.isConst() && sext(b.v, w) > 1 && b.v&(b.v-1) == 0 {
			q := tb.Bin(OSDiv, a, b)
			k := uint64(bits.TrailingZeros64(b.v))
			return tb.Bin(OSub, a, tb.Bin(OShl, q, tb.Const(w, k)))
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return b
			}
			if b.v == mask(w) {
				return a
			}
			if b.v&(b.v+1) == 0 { // low mask
				k := uint8(bits.Len64(b.v))
				if a.umax <= b.v {
					return a
				}
				return tb.Zext(tb.Extract(a, k-1, 0), w)
			}
			if a.op == OBAnd && a.b.isConst() {
				return tb.Bin(OBAnd, a.a, tb.Const(w, a.b.v&b.v))
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v == mask(w) {
				return b
			}
		}
	case OBXor:
		if a == b {
			return zero()
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.v == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) {
				if op != OAshr {
					return zero()
				}
				b = tb.Const(w, uint64(w)-1)
			}
			if op == OAshr && nonneg(a) {
				op = OLshr
			}
			k := uint8(b.v)
			if op == OLshr {
				return tb.Zext(tb.Extract(a, w-1, k), w)
			}
			if op == OShl {
				return tb.Concat(tb.Extract(a, w-1-k, 0), tb.Const(k, 0))
			}
		}
		if a.isConst() && a.v == 0 {
			return a
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	// disjoint or / add of concat pieces -> recombine
	if op == OBOr || op == OAdd || op == OBXor {
		if r := tb.mergeDisjoint(a, b); r != nil {
			return r
		}
	}
	return tb.mk(op, w, 0, a, b, nil)
}

// mergeDisjoint recognises x|y where the nonzero parts do not overlap:
// a = concat(ha, 0_k), b = zext(lb) with lb.w <= k  (either order).
func (tb *TB) mergeDisjoint(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		hi, k := a, uint8(0)
		// split a as top . zeros_k
		if hi.op == OConcat && hi.b.isConst() && hi.b.v == 0 {
			k = hi.b.w
			top := hi.a
			low := b
			if low.umax <= mask(k) {
				return tb.Concat(top, tb.Extract(low, k-1, 0))
			}
			// a = zext? . x . 0 ; b = y.0 . where the gap fits handled by recursion on parts
		} else if hi.op == OZext && hi.a.op == OConcat && hi.a.b.isConst() && hi.a.b.v == 0 {
			k = hi.a.b.w
			if b.umax <= mask(k) {
				return tb.Zext(tb.Concat(hi.a.a, tb.Extract(b, k-1, 0)), a.w)
			}
		}
		a, b = b, a
	}
	return nil
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.w, ^a.v)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, a.w, 0, a, nil, nil)
}

func (tb *TB) Neg(a *Term) *Term { return tb.Bin(OSub, tb.Const(a.w, 0), a) }

func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.v>>lo)
	}
	switch a.op {
	case OExtract:
		l := uint8(a.v & 0xff)
		return tb.Extract(a.a, hi+l, lo+l)
	case OZext:
		if lo >= a.a.w {
			return tb.Const(w, 0)
		}
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		return tb.Zext(tb.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo < a.a.w {
			return tb.Sext(tb.Extract(a.a, a.a.w-1, lo), w)
		}
	case OConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return tb.Concat(tb.Extract(a.a, hi-a.b.w, 0), tb.Extract(a.b, a.b.w-1, lo))
	case OBOr, OBAnd, OBXor:
		return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
	case OBNot:
		return tb.BNot(tb.Extract(a.a, hi, lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tb.Bin(a.op, tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	}
	if a.umax <= mask(lo) && lo > 0 {
		return tb.Const(w, 0)
	}
	return tb.mk(OExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

func (tb *TB) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tb.Const(w, a.v<<b.w|b.v)
	}
	if a.isConst() && a.v == 0 {
		return tb.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		alo := uint8(a.v & 0xff)
		bhi, blo := uint8(b.v>>8), uint8(b.v&0xff)
		if alo == bhi+1 {
			return tb.Extract(a.a, uint8(a.v>>8), blo)
		}
	}
	if a.op == OZext {
		return tb.Zext(tb.Concat(a.a, b), w)
	}
	// normalise to right-nested: (x.y).b -> x.(y.b)
	if a.op == OConcat {
		return tb.Concat(a.a, tb.Concat(a.b, b))
	}
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a {
		if uint8(a.v&0xff) == uint8(b.a.v>>8)+1 {
			return tb.Concat(tb.Extract(a.a, uint8(a.v>>8), uint8(b.a.v&0xff)), b.b)
		}
	}
	return tb.mk(OConcat, w, 0, a, b, nil)
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.v)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return tb.Ite(a.a, tb.Zext(a.b, w), tb.Zext(a.c, w))
	}
	return tb.mk(OZext, w, 0, a, nil, nil)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sext(a.v, a.w)))
	}
	if nonneg(a) {
		return tb.Zext(a, w)
	}
	if a.op == OSext {
		return tb.Sext(a.a, w)
	}
	if a.op == OSub && a.a.isConst() && a.a.v == 0 && a.b.umax <= 1<<(a.w-1) {
		// -x for x up to 2^(w-1) does not wrap
		return tb.Bin(OSub, tb.Const(w, 0), tb.Zext(a.b, w))
	}
	return tb.mk(OSext, w, 0, a, nil, nil)
}

// ---- evaluation under the current model ----

func (tb *TB) newModel() {
	tb.mepoch++
	tb.epoch++
}
func (tb *TB) setVar(t *Term, v uint64) {
	t.mv = v & mask(max(t.w, 1))
	t.mset = tb.mepoch
}
func (tb *TB) varVal(t *Term) uint64 {
	if t.mset == tb.mepoch {
		return t.mv
	}
	return 0
}

func (tb *TB) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.op == OVar {
		return tb.varVal(t)
	}
	if t.epoch == tb.epoch {
		return t.ev
	}
	v := tb.evalNode(t)
	t.epoch, t.ev = tb.epoch, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tb *TB) evalNode(t *Term) uint64 {
	switch t.op {
	case ONot:
		return 1 - tb.eval(t.a)
	case OAnd:
		if tb.eval(t.a) == 0 {
			return 0
		}
		return tb.eval(t.b)
	case OOr:
		if tb.eval(t.a) == 1 {
			return 1
		}
		return tb.eval(t.b)
	case OIte:
		if tb.eval(t.a) == 1 {
			return tb.eval(t.b)
		}
		return tb.eval(t.c)
	case OEq:
		return b2u(tb.eval(t.a) == tb.eval(t.b))
	case OUlt:
		return b2u(tb.eval(t.a) < tb.eval(t.b))
	case OUle:
		return b2u(tb.eval(t.a) <= tb.eval(t.b))
	case OSlt:
		return b2u(sext(tb.eval(t.a), t.a.w) < sext(tb.eval(t.b), t.a.w))
	case OSle:
		return b2u(sext(tb.eval(t.a), t.a.w) <= sext(tb.eval(t.b), t.a.w))
	case OBNot:
		return ^tb.eval(t.a) & mask(t.w)
	case ONeg:
		return -tb.eval(t.a) & mask(t.w)
	case OConcat:
		return tb.eval(t.a)<<t.b.w | tb.eval(t.b)
	case OExtract:
		return (tb.eval(t.a) >> (t.v & 0xff)) & mask(t.w)
	case OZext:
		return tb.eval(t.a)
	case OSext:
		return uint64(sext(tb.eval(t.a), t.a.w)) & mask(t.w)
	}
	return evalBin(t.op, t.w, tb.eval(t.a), tb.eval(t.b))
}

// truthTable returns the set of values of the single 8-bit variable of t for
// which t holds.
func (tb *TB) truthTable(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := t.only
	sv, ss := v.mv, v.mset
	var r [4]uint64
	for i := 0; i < 256; i++ {
		tb.epoch++
		v.mv, v.mset = uint64(i), tb.mepoch
		if tb.eval(t) == 1 {
			r[i/64] |= 1 << (i % 64)
		}
	}
	tb.epoch++
	v.mv, v.mset = sv, ss
	t.tt = &r
	return t.tt
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 6 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprint(sb, t.v == 1)
		} else {
			fmt.Fprintf(sb, "%d", t.v)
		}
	case OVar:
		sb.WriteString(t.name)
	default:
		sb.WriteByte('(')
		switch t.op {
		case OExtract:
			fmt.Fprintf(sb, "[%d:%d]", t.v>>8, t.v&0xff)
		case OZext:
			fmt.Fprintf(sb, "zx%d", t.w)
		case OSext:
			fmt.Fprintf(sb, "sx%d", t.w)
		default:
			sb.WriteString(opNames[t.op])
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h ^= h >> 31
	h *= 0x7fb5d329728ea185
	h ^= h >> 27
	h *= 0x81dadef4bc2dd44d
	return h ^ h>>33
}

func (t *Term) setHash() {
	a, b := mix(uint64(t.op)<<8|uint64(t.w), t.v), mix(uint64(t.op)<<8|uint64(t.w)+0x5555, t.v*3+1)
	for i := 0; i < len(t.name); i++ {
		a, b = mix(a, uint64(t.name[i])), mix(b, uint64(t.name[i])*131+7)
	}
	for _, c := range [3]*Term{t.a, t.b, t.c} {
		if c != nil {
			a, b = mix(a, c.h1), mix(b, c.h2)
		} else {
			a, b = mix(a, 1), mix(b, 2)
		}
	}
	t.h1, t.h2 = a, b
}
