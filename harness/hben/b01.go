package hben

import (
	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

func enc(v any) []byte {
	b, err := bencode.Marshal(v)
	sym.Assert(err == nil, "encoding a supported value failed")
	return b
}

func dec(b []byte, v any) {
	sym.Assert(bencode.Unmarshal(b, v) == nil, "decoding the encoding of a value failed")
}

// B01Ints: every integer of every width.
func B01Ints() {
	switch sym.Choose("width", 10) {
	case 0:
		v, o := sym.Int("v0"), 0
		dec(enc(v), &o)
		sym.Assert(v == o, "int differs")
	case 1:
		v, o := sym.Int8("v1"), int8(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "int8 differs")
	case 2:
		v, o := sym.Int16("v2"), int16(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "int16 differs")
	case 3:
		v, o := sym.Int32("v3"), int32(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "int32 differs")
	case 4:
		v, o := sym.Int64("v4"), int64(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "int64 differs")
	case 5:
		v, o := sym.Uint("v5"), uint(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "uint differs")
	case 6:
		v, o := sym.Byte("v6"), uint8(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "uint8 differs")
	case 7:
		v, o := sym.Uint16("v7"), uint16(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "uint16 differs")
	case 8:
		v, o := sym.Uint32("v8"), uint32(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "uint32 differs")
	case 9:
		v, o := sym.Uint64("v9"), uint64(0)
		dec(enc(v), &o)
		sym.Assert(v == o, "uint64 differs")
	}
	sym.Reach("int")
}

// B01Strings: every string and byte string of the chosen lengths, which cross the decoder's buffer size.
func B01Strings() {
	lens := []int{0, 1, 2, 3, 7, 9, 10, 11, 27, 28, 29, 30, 31, 32, 33, 34, 63, 64, 65, 99, 100, 101, 999, 1000, 4097}
	n := lens[sym.Choose("len", min(len(lens), sym.Param("lens", len(lens))))]
	b := sym.Bytes("s", n)
	switch sym.Choose("kind", 4) {
	case 0:
		o := ""
		dec(enc(string(b)), &o)
		sym.Assert(o == string(b), "string differs")
	case 1:
		var o []byte
		dec(enc(b), &o)
		sym.Assert(sym.EqBytes(o, b), "byte string differs")
	case 2:
		var o any
		dec(enc(string(b)), &o)
		s, ok := o.(string)
		sym.Assert(ok && s == string(b), "generic string differs")
	case 3:
		// neighbours must not be disturbed by the string's length
		v := []string{string(b), "x", string(b)}
		var o []string
		dec(enc(v), &o)
		sym.Assert(len(o) == 3 && o[0] == v[0] && o[1] == "x" && o[2] == v[0], "strings of a list differ")
	}
	sym.Reach("string")
}

type named string
type inner struct {
	X int16
	Y string
}
type Emb struct {
	E1 uint16
	E2 []string
}
type rt struct {
	I    int64
	U    uint8
	S    string
	B    []byte
	L    []int16
	A    [2]uint16
	M    map[string]int8
	P    *int32
	PP   **inner
	N    inner
	LS   []string
	MS   map[named][]string
	LP   []*inner
	MP   map[string]*inner
	Tag  string `bencode:"some key"`
	Zero int    `bencode:"0"`
	Emb
}

func str(name string, max int) string { return sym.String(name, sym.Choose(name+".len", max+1)) }

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// B01Scalars: a struct with scalar, nested, promoted and tagged fields.
func B01Scalars() {
	p := sym.Int32("p")
	in := inner{X: sym.Int16("x"), Y: str("y", 1)}
	pin := &in
	v := rt{I: sym.Int64("i") >> 40, U: sym.Byte("u"), S: sym.String("s", 2), B: sym.Bytes("b", 3), P: &p, PP: &pin, N: in, Tag: str("tag", 1), Zero: int(sym.Int8("zero"))}
	v.E1 = uint16(sym.Byte("e1"))
	v.A = [2]uint16{uint16(sym.Byte("a0")), 7}
	sym.Assume(p >= -9 && p <= 9 && in.X >= 0 && in.X <= 99 && v.I >= 0 && v.I <= 9 && v.U < 10 && v.E1 < 10 && v.A[0] < 10 && v.Zero >= 0 && v.Zero < 10)
	var o rt
	if sym.Choose("addr", 2) == 0 {
		dec(enc(v), &o)
	} else {
		dec(enc(&v), &o)
	}
	sym.Assert(o.I == v.I && o.U == v.U && o.S == v.S && sym.EqBytes(o.B, v.B), "scalar field differs")
	sym.Assert(o.P != nil && *o.P == p, "pointer field differs")
	sym.Assert(o.PP != nil && *o.PP != nil && **o.PP == in, "pointer to pointer field differs")
	sym.Assert(o.N == in && o.Tag == v.Tag && o.Zero == v.Zero && o.E1 == v.E1 && o.A == v.A, "nested field differs")
	sym.Assert(o.L == nil && o.M == nil && o.LS == nil && o.MS == nil && o.LP == nil && o.MP == nil && o.E2 == nil, "absent field set")
	sym.Reach("scalars")
}

// B01Lists: lists, arrays and dictionaries of lists, of every size up to n.
func B01Lists() {
	n := sym.Param("n", 2)
	switch sym.Choose("kind", 8) {
	case 0:
		v := make([]string, sym.Choose("len", n+1))
		for i := range v {
			v[i] = str("e", 2)
		}
		var o []string
		dec(enc(v), &o)
		sym.Assert(eqStrs(o, v), "list of strings differs")
	case 1:
		v := make([][]string, sym.Choose("len", n+1))
		for i := range v {
			v[i] = make([]string, sym.Choose("ilen", n+1))
			for j := range v[i] {
				v[i][j] = str("e", 1)
			}
		}
		var o [][]string
		dec(enc(v), &o)
		sym.Assert(len(o) == len(v), "list of lists: length differs")
		for i := range v {
			sym.Assert(eqStrs(o[i], v[i]), "list of lists differs")
		}
	case 2:
		v := [2][2]int8{{sym.Int8("a"), sym.Int8("b")}, {sym.Int8("c"), 3}}
		var o [2][2]int8
		dec(enc(v), &o)
		sym.Assert(o == v, "array differs")
	case 3:
		v := make([]*inner, sym.Choose("len", n+1))
		for i := range v {
			v[i] = &inner{X: int16(sym.Int8("x")), Y: str("y", 1)}
		}
		var o []*inner
		dec(enc(v), &o)
		sym.Assert(len(o) == len(v), "list of pointers: length differs")
		for i := range v {
			sym.Assert(o[i] != nil && *o[i] == *v[i], "list of pointers differs")
		}
	case 4:
		v := make([]uint16, sym.Choose("len", 6))
		for i := range v {
			v[i] = uint16(sym.Byte("e") & 15)
		}
		var o []uint16
		dec(enc(v), &o)
		sym.Assert(len(o) == len(v), "list of ints: length differs")
		for i := range v {
			sym.Assert(o[i] == v[i], "list of ints differs")
		}
	case 5:
		v := make([][]byte, sym.Choose("len", n+1))
		for i := range v {
			v[i] = sym.Bytes("e", sym.Choose("e.len", 3))
		}
		var o [][]byte
		dec(enc(v), &o)
		sym.Assert(len(o) == len(v), "list of byte strings: length differs")
		for i := range v {
			sym.Assert(sym.EqBytes(o[i], v[i]), "list of byte strings differs")
		}
	case 6:
		v := make([]map[string]string, sym.Choose("len", n+1))
		for i := range v {
			v[i] = map[string]string{str("k", 1): str("e", 1)}
		}
		var o []map[string]string
		dec(enc(v), &o)
		sym.Assert(len(o) == len(v), "list of dictionaries: length differs")
		for i := range v {
			sym.Assert(len(o[i]) == 1, "dictionary in list: size differs")
			for k, x := range v[i] {
				y, ok := o[i][k]
				sym.Assert(ok && x == y, "dictionary in list differs")
			}
		}
	case 7:
		v := []inner{{1, "a"}, {int16(sym.Int8("x")), str("y", 2)}}
		var o []inner
		dec(enc(v), &o)
		sym.Assert(len(o) == 2 && o[0] == v[0] && o[1] == v[1], "list of structs differs")
	}
	sym.Reach("list")
}

// B01Maps: dictionaries with up to n arbitrary keys, in every iteration order.
func B01Maps() {
	sym.MapOrder(true)
	n := sym.Param("n", 2)
	kl := sym.Param("keylen", 2)
	cnt := sym.Choose("size", n+1)
	keys := make([]string, cnt)
	for i := range keys {
		keys[i] = str("k", kl)
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
	}
	switch sym.Choose("kind", 4) {
	case 0:
		v := map[string]uint8{}
		for _, k := range keys {
			v[k] = sym.Byte("e")&7 + 1
		}
		var o map[string]uint8
		dec(enc(v), &o)
		sym.Assert(len(o) == cnt && o != nil, "dictionary size differs")
		for _, k := range keys {
			sym.Assert(o[k] == v[k], "dictionary differs")
		}
	case 1:
		v := map[named][]string{}
		for _, k := range keys {
			v[named(k)] = []string{str("e", 1)}
		}
		var o map[named][]string
		dec(enc(v), &o)
		sym.Assert(len(o) == cnt, "dictionary of lists: size differs")
		for _, k := range keys {
			sym.Assert(eqStrs(o[named(k)], v[named(k)]), "dictionary of lists differs")
		}
	case 2:
		v := map[string]*inner{}
		for _, k := range keys {
			v[k] = &inner{3, str("e", 1)}
		}
		var o map[string]*inner
		dec(enc(v), &o)
		sym.Assert(len(o) == cnt, "dictionary of pointers: size differs")
		for _, k := range keys {
			sym.Assert(o[k] != nil && *o[k] == *v[k], "dictionary of pointers differs")
		}
	case 3:
		v := map[string]map[string]string{}
		for _, k := range keys {
			v[k] = map[string]string{k: str("e", 1)}
		}
		var o map[string]map[string]string
		dec(enc(v), &o)
		sym.Assert(len(o) == cnt, "nested dictionary: size differs")
		for _, k := range keys {
			sym.Assert(len(o[k]) == 1 && o[k][k] == v[k][k], "nested dictionary differs")
		}
	}
	sym.Reach("map")
}

// gen builds an arbitrary generic value of bounded depth and width.
func gen(depth, width int, nils bool) any {
	k := 5
	if nils {
		k = 9
	}
	switch sym.Choose("kind", k) {
	case 0:
		return int(sym.Int8("int"))
	case 1:
		return str("str", 1)
	case 2:
		if depth == 0 {
			return "leaf"
		}
		v := make([]any, sym.Choose("llen", width+1))
		for i := range v {
			v[i] = gen(depth-1, width, nils)
		}
		return v
	case 3:
		if depth == 0 {
			return -1
		}
		v := map[string]any{}
		n := sym.Choose("dlen", width+1)
		for i := 0; i < n; i++ {
			k := sym.String("key", 1)
			if _, dup := v[k]; dup {
				sym.Assume(false)
			}
			v[k] = gen(depth-1, width, nils)
		}
		return v
	case 4:
		return sym.String("s2", 2)
	case 5:
		return nil
	case 6:
		return (*int)(nil)
	case 7:
		var p *int
		return &p
	}
	return map[string]int(nil)
}

func eqGen(a, b any) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqGen(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !eqGen(x[k], z) {
				return false
			}
		}
		return true
	}
	return false
}

// B01Any: every generic value up to the given depth and width.
func B01Any() {
	v := gen(sym.Param("depth", 2), sym.Param("width", 2), false)
	var o any
	dec(enc(v), &o)
	sym.Assert(eqGen(v, o), "generic value differs")
	sym.Reach("any")
}
