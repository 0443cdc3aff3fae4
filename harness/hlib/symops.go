package hlib

import (
	"math/bits"
	"strconv"

	"verifharness/sym"
)

type integer interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

func try(f func() uint64) (r uint64, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return f(), false
}

type res struct {
	v uint64
	p bool
}

var table = func() (t [40]uint64) {
	for i := range t {
		t[i] = uint64(i*i*7 + 1)
	}
	return
}()

func ops[T integer](group int, x, y T) (out []res) {
	add := func(f func() uint64) {
		v, p := try(f)
		out = append(out, res{v, p})
	}
	b := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch group {
	case 0:
		add(func() uint64 { return uint64(x + y) })
		add(func() uint64 { return uint64(x - y) })
		add(func() uint64 { return uint64(x * y) })
		add(func() uint64 { return uint64(x / y) })
		add(func() uint64 { return uint64(x % y) })
		add(func() uint64 { return uint64(x & y) })
		add(func() uint64 { return uint64(x | y) })
		add(func() uint64 { return uint64(x ^ y) })
		add(func() uint64 { return uint64(x &^ y) })
		add(func() uint64 { return uint64(-x) })
		add(func() uint64 { return uint64(^x) })
		add(func() uint64 { return b(x < y) + 2*b(x <= y) + 4*b(x == y) + 8*b(x > y) + 16*b(x != y) + 32*b(x >= y) })
		add(func() uint64 { return uint64(min(x, y)) + 3*uint64(max(x, y)) })
	case 1:
		add(func() uint64 { return uint64(x << y) })
		add(func() uint64 { return uint64(x >> y) })
		add(func() uint64 { return uint64(x << uint8(y)) })
		add(func() uint64 { return uint64(x >> uint16(y)) })
		add(func() uint64 { return uint64(int64(1) << y) })
		add(func() uint64 { return uint64(uint8(200) >> y) })
		add(func() uint64 { return uint64(x/4) + uint64(x%8)*1000 + uint64(x*3) })
		add(func() uint64 {
			return uint64(int8(x)) ^ uint64(uint16(x))<<3 ^ uint64(int32(x))<<7 ^ uint64(uint64(x))<<9 ^ uint64(int16(y))
		})
		add(func() uint64 {
			return uint64(bits.Len64(uint64(x))) + 100*uint64(bits.TrailingZeros32(uint32(x))) + 10000*uint64(bits.OnesCount16(uint16(x))) + uint64(bits.LeadingZeros8(uint8(x)))*1000000
		})
		add(func() uint64 {
			return uint64(bits.Reverse8(uint8(x))) + uint64(bits.RotateLeft32(uint32(x), int(int8(y))))
		})
	case 2:
		sl := make([]byte, 40)
		for i := range sl {
			sl[i] = byte(i * 5)
		}
		ms := map[T]int{1: 3, 2: 4, x: 9}
		big := int64(x) > 1000
		add(func() uint64 {
			if big {
				return 0
			}
			return uint64(len(make([]byte, x)))
		})
		add(func() uint64 { s := make([]uint16, x, 60); return uint64(len(s) + cap(s)) })
		add(func() uint64 {
			if big {
				return 0
			}
			return uint64(cap(make(chan int, x)))
		})
		add(func() uint64 { return uint64(sl[x]) })
		add(func() uint64 { return table[x] })
		add(func() uint64 { table := table; p := &table; p[x] = 5; return table[7] + table[x] })
		add(func() uint64 { return uint64(len(sl[x:])) })
		add(func() uint64 { return uint64(len(sl[:x])) })
		add(func() uint64 { return uint64(len(sl[x:y])) })
		add(func() uint64 { s := sl[1:x:y]; return uint64(len(s)*100 + cap(s)) })
		add(func() uint64 { return uint64("0123456789abcdefghijk"[x]) })
		add(func() uint64 { return uint64(len("0123456789abcdefghijk"[x:])) })
		add(func() uint64 { a := [4]byte(sl[x:y]); return uint64(a[1]) })
		add(func() uint64 { sl[x] = 77; return uint64(sl[y]) + uint64(sl[7]) })
		add(func() uint64 { return uint64(copy(sl[x:], "abcdef")) + uint64(sl[8]) })
		add(func() uint64 { return uint64(len(append(sl[:x:x], 1, 2))) })
		add(func() uint64 { return uint64(ms[y] + len(ms)) })
		add(func() uint64 {
			n := 0
			for i := T(0); i < x && i < 50; i++ {
				n += int(i)
			}
			return uint64(n)
		})
	case 3:
		short := func(x T) int64 { return int64(int32(x)) } // more digits take the solver long
		add(func() uint64 { return uint64(len(strconv.FormatInt(short(x), 10))) })
		add(func() uint64 {
			v, err := strconv.ParseInt(strconv.FormatInt(short(x), 10), 10, 16)
			return uint64(v) + b(err != nil)
		})
		add(func() uint64 {
			v, err := strconv.ParseUint(strconv.FormatUint(uint64(uint32(short(x))), 10), 10, 8)
			return uint64(v) + b(err != nil)
		})
		add(func() uint64 { v, err := strconv.Atoi(strconv.Itoa(int(short(x)))); return uint64(v) + b(err != nil) })
		add(func() uint64 {
			switch x {
			case 0:
				return 1
			case y:
				return 2
			case 7, 8:
				return 3
			}
			return 4
		})
		add(func() uint64 { var e, f any = x, y; return b(e == f) })
		add(func() uint64 {
			return b([2]T{x, y} == [2]T{y, x}) + 2*b(struct{ a, b T }{x, 1} == struct{ a, b T }{y, 1})
		})
		add(func() uint64 {
			return uint64(string([]byte{byte(x), byte(y)})[1]) + b(string([]byte{byte(x)}) < string([]byte{byte(y)}))
		})
	}
	return out
}

func symops[T integer](w uint) {
	a, c := sym.Byte("x"), sym.Byte("y")
	vals := []byte{0, 1, 2, 7, 8, 31, 32, 63, 64, 127, 128, 200, 255}
	in := func(v byte) bool {
		for _, k := range vals {
			if v == k {
				return true
			}
		}
		return false
	}
	sym.Assume(in(a))
	sym.Assume(in(c))
	sh := uint(0)
	if sym.Choose("high", 2) == 1 {
		sh = w - 8
	}
	mk := func(v byte) T { return T(int8(v)) << sh }
	g := sym.Choose("group", 4)
	got := ops(g, mk(a), mk(c))
	// the same with concrete operands
	for _, k := range vals {
		for _, l := range vals {
			if a == k && c == l {
				want := ops(g, mk(k), mk(l))
				sym.Assert(len(got) == len(want), "number of results")
				for i := range want {
					sym.Assert(got[i].p == want[i].p, "panics differently: "+strconv.Itoa(i))
					sym.Assert(want[i].p || got[i].v == want[i].v, "differs: "+strconv.Itoa(i))
				}
				sym.Reach("compared")
			}
		}
	}
}

func SymInt8()   { symops[int8](8) }
func SymInt16()  { symops[int16](16) }
func SymInt32()  { symops[int32](32) }
func SymInt64()  { symops[int64](64) }
func SymUint8()  { symops[uint8](8) }
func SymUint16() { symops[uint16](16) }
func SymUint32() { symops[uint32](32) }
func SymUint64() { symops[uint64](64) }
