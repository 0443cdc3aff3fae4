package hben

import (
	"bytes"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

func canon(v any, out []byte) {
	sym.Assert(refEnd(out, 0) == len(out), "output is not exactly one canonical value")
}

// B03Any: generic values with nils anywhere; every map iteration order.
func B03Any() {
	sym.MapOrder(true)
	v := gen(sym.Param("depth", 2), sym.Param("width", 2), true)
	switch v.(type) {
	case int, string, []any, map[string]any:
	default:
		_, err := bencode.Marshal(v)
		_ = err
		sym.Reach("nil")
		return
	}
	out, err := bencode.Marshal(v)
	sym.Assert(err == nil, "encoding failed")
	canon(v, out)
	if m, ok := v.(map[string]any); ok {
		checkNilLeftOut(m, out)
	}
	sym.Reach("encoded")
}

func present(x any) bool {
	switch y := x.(type) {
	case int, string, []any, map[string]any:
		return true
	case *int:
		return y != nil
	}
	return false
}

func checkNilLeftOut(m map[string]any, out []byte) {
	n := 0
	for _, x := range m {
		if present(x) {
			n++
		}
	}
	i, got := 1, 0
	for i < len(out) && out[i] != 'e' {
		s, e := refStr(out, i)
		sym.Assert(e >= 0, "bad key")
		x, ok := m[string(out[s:e])]
		sym.Assert(ok && present(x), "key of an absent or nil entry written")
		i = refEnd(out, e)
		got++
	}
	sym.Assert(got == n, "entries missing from the output")
}

type perm struct {
	Zeta  string
	Alpha *int
	Beta  []string
	M     map[string]int
	I     any
	PM    *map[string]int
	PS    *[]string
	Gamma int `bencode:"a-first"`
	Delta uint64
	Raw   bencode.RawMessage
	B     []byte
	PP    **int
}

// B03Struct: every combination of nil and set fields.
func B03Struct() {
	x := int(sym.ByteIn("x", 0, 9)) - 4
	px := &x
	var nilp *int
	var nm map[string]int
	var nl []string
	p := perm{Zeta: str("z", 1), Delta: uint64(sym.ByteIn("delta", 0, 9))}
	if sym.Choose("alpha", 2) == 1 {
		p.Alpha = px
	}
	if sym.Choose("beta", 2) == 1 {
		p.Beta = []string{"q"}
	}
	switch sym.Choose("m", 3) {
	case 1:
		p.M = map[string]int{}
	case 2:
		p.M = map[string]int{"k": x}
	}
	switch sym.Choose("i", 6) {
	case 1:
		p.I = nilp
	case 2:
		p.I = px
	case 3:
		p.I = nm
	case 4:
		p.I = []any{nil, x}
	case 5:
		p.I = map[string]any{"a": nilp, "b": &nilp}
	}
	switch sym.Choose("pm", 3) {
	case 1:
		p.PM = &nm
	case 2:
		p.PS = &nl
	}
	switch sym.Choose("pp", 3) {
	case 1:
		p.PP = &nilp
	case 2:
		p.PP = &px
	}
	if sym.Choose("raw", 2) == 1 {
		p.Raw = bencode.RawMessage("le")
		p.B = []byte{}
	}
	var out []byte
	var err error
	if sym.Choose("addr", 2) == 0 {
		out, err = bencode.Marshal(p)
	} else {
		out, err = bencode.Marshal(&p)
	}
	sym.Assert(err == nil, "encoding failed")
	canon(p, out)
	sym.Reach("struct")
}

// B03Order: the output does not depend on the iteration order.
func B03Order() {
	sym.MapOrder(true)
	n := sym.Param("n", 3)
	m := map[string]int{}
	for i := 0; i < n; i++ {
		k := str("k", 2)
		if _, dup := m[k]; dup {
			sym.Assume(false)
		}
		m[k] = i
	}
	a, err1 := bencode.Marshal(m)
	b, err2 := bencode.Marshal(m)
	sym.Assert(err1 == nil && err2 == nil, "encoding failed")
	sym.Assert(bytes.Equal(a, b), "two encodings of a dictionary differ")
	sym.Assert(refEnd(a, 0) == len(a), "output is not canonical")
	sym.Reach("order")
}

// B03Ints: integers are written in minimal decimal.
func B03Ints() {
	var out []byte
	var neg bool
	var mag uint64
	if sym.Choose("signed", 2) == 1 {
		v := sym.Int64("v")
		out = enc(v)
		neg = v < 0
		mag = uint64(v)
		if neg {
			mag = -uint64(v)
		}
	} else {
		v := sym.Uint64("uv")
		out = enc(v)
		mag = v
	}
	n, m, e := refInt(out, 0)
	sym.Assert(e == len(out) && n == neg && m == mag, "integer is not written canonically")
	sym.Reach("int")
}
