// Package hbit holds the harness for bitfields.
package hbit

import (
	"github.com/browles/drip/bitfield"
	"verifharness/sym"
)

// F01Set: arbitrary additions to a bitfield created for n items, then arbitrary queries.
func F01Set() {
	n := sym.Choose("n", sym.Param("n", 20)+1)
	b := bitfield.New(n)
	size := 8 * len(b)
	sym.Assert(size >= n, "a new bitfield has no room for its items")
	k := sym.Param("adds", 2)
	var added []int
	for i := 0; i < k; i++ {
		x := sym.Int("add")
		b.Add(x)
		added = append(added, x)
	}
	sym.Assert(8*len(b) == size, "adding changed the size")
	q := sym.Int("query")
	want := false
	for _, x := range added {
		want = sym.Or(want, x == q)
	}
	want = sym.And(want, sym.And(q >= 0, q < size))
	sym.Assert(b.Has(q) == want, "membership differs from the indices added")
	sym.Reach("set")
}

// F01Items: listing returns the members in ascending order.
func F01Items() {
	n := sym.Param("bytes", 1)
	raw := sym.Bytes("b", n)
	if n > 1 {
		// at most three bits of the later bytes are free
		for i := 1; i < n; i++ {
			raw[i] &= 0x91
		}
	}
	b := bitfield.Bitfield(append([]byte(nil), raw...))
	items := b.Items()
	j := 0
	for i := 0; i < 8*n; i++ {
		set := raw[i/8]>>(7-i%8)&1 == 1
		if set {
			sym.Assert(j < len(items) && items[j] == i, "listing differs from the members")
			j++
		}
		sym.Assert(b.Has(i) == set, "membership differs from the bits")
	}
	sym.Assert(j == len(items), "listing contains extra indices")
	sym.Assert(sym.EqBytes(b, raw), "listing changed the bitfield")
	sym.Reach("items")
}

// F01Diff: difference of bitfields of any lengths.
func F01Diff() {
	m := sym.Param("bytes", 3)
	x := sym.Bytes("x", sym.Choose("lx", m+1))
	y := sym.Bytes("y", sym.Choose("ly", m+1))
	a, b := bitfield.Bitfield(append([]byte(nil), x...)), bitfield.Bitfield(append([]byte(nil), y...))
	d := a.Difference(b)
	q := sym.Int("query")
	has := func(raw []byte, q int) bool {
		r := false
		for i := 0; i < 8*len(raw); i++ {
			r = sym.Or(r, sym.And(q == i, raw[i/8]>>(7-i%8)&1 == 1))
		}
		return r
	}
	sym.Assert(d.Has(q) == sym.And(has(x, q), sym.Not(has(y, q))), "difference is not the set difference")
	sym.Assert(sym.EqBytes(a, x) && sym.EqBytes(b, y), "difference changed its operands")
	// the result is independent of its operands
	if len(d) > 0 {
		d.Add(0)
		sym.Assert(sym.EqBytes(a, x) && sym.EqBytes(b, y), "the difference shares storage with its operands")
	}
	sym.Reach("diff")
}
