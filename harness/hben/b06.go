package hben

import (
	"verifharness/sym"
)

type Deep struct {
	Depth2 string
	Shared string
	Only2  string `bencode:"o2"`
}

type Base struct {
	Deep
	Shared string // wins over Deep.Shared
	Inner1 string
	X      string `bencode:"renamed"`
}

type lower struct { // unexported embedded struct: its exported fields are promoted
	FromLower string
	hidden    string
}

type Tagged struct{ Q string }

type PBase struct{ FromPtr string }

type fields struct {
	Base
	lower
	*PBase
	Tagged  `bencode:"tagged"`
	Upper   string
	MiXeD   string
	Skip    string `bencode:"-"`
	private string
	Inner1  string `bencode:"inner1"` // shallower than Base.Inner1
	Empty   string `bencode:"e,omitempty"`
	EmptyN  int    `bencode:",omitempty"`
	EmptyL  []int  `bencode:"el,omitempty"`
	Keep    string `bencode:"k"`
}

func kv(k, v string) string {
	return string(enc(k)) + string(enc(v))
}

// B06Encode: every value of a struct with promotion, shadowing, tags and omitempty.
func B06Encode() {
	s := func(n string) string { return sym.String(n, 1) }
	v := fields{Base: Base{Deep: Deep{s("d2"), s("ds"), s("o2")}, Shared: s("sh"), Inner1: s("bi"), X: s("x")},
		lower: lower{s("fl"), s("hid")}, Tagged: Tagged{s("q")}, Upper: s("up"), MiXeD: s("mx"), Skip: s("sk"), private: s("pr"),
		Inner1: s("in1"), Empty: str("e", 1), Keep: str("k", 1)}
	v.EmptyN = int(sym.Int8("n") & 7)
	l := sym.Choose("l", 3)
	if l == 1 {
		v.EmptyL = []int{}
	} else if l == 2 {
		v.EmptyL = []int{1}
	}
	if sym.Choose("ptr", 2) == 1 {
		v.PBase = &PBase{s("fp")}
	}
	out := string(enc(v))
	want := "d" + kv("depth2", v.Depth2)
	if v.Empty != "" {
		want += kv("e", v.Empty)
	}
	if l == 2 {
		want += "2:elli1ee"
	}
	if v.EmptyN != 0 {
		want += "6:emptyn" + string(enc(v.EmptyN))
	}
	want += kv("fromlower", v.FromLower)
	if v.PBase != nil {
		want += kv("fromptr", v.FromPtr)
	}
	want += kv("inner1", v.Inner1) + kv("k", v.Keep) + kv("mixed", v.MiXeD) + kv("o2", v.Only2) + kv("renamed", v.X) +
		kv("shared", v.Base.Shared) + "6:taggedd" + kv("q", v.Q) + "e" + kv("upper", v.Upper) + "e"
	sym.Assert(out == want, "struct not encoded with the documented keys")
	sym.Reach("encoded")
}

// B06Decode: a dictionary with every known key present or absent.
func B06Decode() {
	keys := []string{"depth2", "e", "emptyn", "fromlower", "fromptr", "hidden", "inner1", "private", "renamed", "shared", "skip", "tagged"}
	in := "d"
	has := map[string]string{}
	for _, k := range keys {
		if sym.Choose("has "+k, 2) == 0 {
			continue
		}
		if k == "emptyn" {
			d := sym.Digits("num", 1)
			has[k] = string(d)
			in += "6:emptyni" + string(d) + "e"
			continue
		}
		x := sym.String("v "+k, 1)
		has[k] = x
		if k == "tagged" {
			in += "6:taggedd" + kv("q", x) + "e"
			continue
		}
		in += kv(k, x)
	}
	in += "e"
	v := fields{Skip: "old", private: "old", lower: lower{hidden: "old"}, Base: Base{Inner1: "old", Deep: Deep{Shared: "old"}}, Keep: "old", EmptyN: 9}
	dec([]byte(in), &v)
	is := func(k, got string) {
		if x, ok := has[k]; ok {
			sym.Assert(got == x, "key "+k+" did not reach its field")
		} else {
			sym.Assert(got == "", "absent key "+k+" changed a field")
		}
	}
	is("depth2", v.Depth2)
	is("e", v.Empty)
	is("fromlower", v.FromLower)
	is("inner1", v.Inner1)
	is("renamed", v.X)
	is("shared", v.Base.Shared)
	is("tagged", v.Q)
	if _, ok := has["fromptr"]; ok {
		sym.Assert(v.PBase != nil && v.FromPtr == has["fromptr"], "key fromptr did not reach its field")
	} else {
		sym.Assert(v.PBase == nil, "absent key allocated an embedded pointer")
	}
	n := 9
	if x, ok := has["emptyn"]; ok {
		n = int(x[0] - '0')
	}
	sym.Assert(v.EmptyN == n, "integer field")
	sym.Assert(v.Skip == "old" && v.private == "old" && v.hidden == "old" && v.Base.Inner1 == "old" && v.Deep.Shared == "old" && v.Keep == "old",
		"a field without its key was changed")
	sym.Reach("decoded")
}

// B06Unknown: unknown keys of any shape, anywhere, are skipped.
func B06Unknown() {
	n := sym.Param("n", 4)
	x := sym.Bytes("x", n)
	key := sym.String("key", 2)
	in := ""
	pos := sym.Choose("pos", 2)
	e := refEnd(x, 0)
	if e != n {
		return
	}
	if pos == 0 {
		sym.Assume(key < "b")
		in = "d2:" + key + string(x) + "1:bi5e1:k1:qe"
	} else {
		sym.Assume(key > "b" && key < "k" && key != "el" && key != "e" && key != "o2")
		in = "d1:bi5e2:" + key + string(x) + "1:k1:qe"
	}
	v := struct {
		B int
		K string
		o string
	}{o: "old"}
	dec([]byte(in), &v)
	sym.Assert(v.B == 5 && v.K == "q" && v.o == "old", "fields around an unknown key")
	sym.Reach("skipped")
}

type amb1 struct{ Name string }
type amb2 struct{ Name string }
type ambT struct {
	Other string `bencode:"name2"`
}
type ambiguous struct {
	amb1
	amb2
	Z string
}
type Same struct {
	A string `bencode:"same"`
	B string `bencode:"same"`
	C string
}

// B06Ambiguous: fields that conflict at the same depth belong to no key, in both directions.
func B06Ambiguous() {
	a := ambiguous{amb1{sym.String("n1", 1)}, amb2{sym.String("n2", 1)}, sym.String("z", 1)}
	sym.Assert(string(enc(a)) == "d"+kv("z", a.Z)+"e", "ambiguous fields encoded")
	b := ambiguous{amb1: amb1{"1"}, amb2: amb2{"2"}}
	dec([]byte("d"+kv("name", sym.String("x", 1))+kv("z", a.Z)+"e"), &b)
	sym.Assert(b.amb1.Name == "1" && b.amb2.Name == "2" && b.Z == a.Z, "ambiguous key changed a field")
	c := Same{sym.String("a", 1), sym.String("b", 1), sym.String("c", 1)}
	sym.Assert(string(enc(&c)) == "d"+kv("c", c.C)+"e", "fields with the same tag encoded")
	d := Same{A: "1", B: "2"}
	dec([]byte("d"+kv("c", c.C)+kv("same", sym.String("y", 1))+"e"), &d)
	sym.Assert(d.A == "1" && d.B == "2" && d.C == c.C, "key shared by two tags changed a field")
	sym.Reach("ambiguous")
}

// B06Omit: omitempty of every kind leaves out exactly the empty values.
func B06Omit() {
	type om struct {
		A [0]int         `bencode:"a,omitempty"`
		I int64          `bencode:"i,omitempty"`
		M map[string]int `bencode:"m,omitempty"`
		P *int           `bencode:"p,omitempty"`
		S string         `bencode:"s,omitempty"`
		T struct{}       `bencode:"t,omitempty"`
		U uint16         `bencode:"u,omitempty"`
		Y any            `bencode:"y,omitempty"`
		Z []byte         `bencode:"z,omitempty"`
	}
	var v om
	want := "d"
	v.I = int64(sym.Int8("i"))
	if v.I != 0 {
		want += "1:i" + string(enc(v.I))
	}
	switch sym.Choose("m", 3) {
	case 1:
		v.M = map[string]int{}
	case 2:
		v.M = map[string]int{"q": 0}
		want += "1:md1:qi0ee"
	}
	if sym.Choose("p", 2) == 1 {
		v.P = new(int)
		want += "1:pi0e"
	}
	v.S = str("s", 1)
	if v.S != "" {
		want += "1:s" + string(enc(v.S))
	}
	want += "1:tde"
	v.U = sym.Uint16("u")
	if v.U != 0 {
		want += "1:u" + string(enc(v.U))
	}
	if sym.Choose("y", 2) == 1 {
		v.Y = 0
		want += "1:yi0e"
	}
	switch sym.Choose("z", 3) {
	case 1:
		v.Z = []byte{}
	case 2:
		v.Z = sym.Bytes("z", 1)
		want += "1:z" + string(enc(v.Z))
	}
	sym.Assert(string(enc(v)) == want+"e", "omitempty")
	// other options and names
	w := struct {
		A int    `bencode:"a,other,omitempty"`
		B int    `bencode:"b,omitempty,other"`
		C int    `bencode:",,omitempty"`
		D int    `bencode:"d,other"`
		E string `bencode:"E,omitempty" json:"x"`
		F int    `json:"f,omitempty"`
	}{A: int(v.U & 1), B: int(v.U & 1), C: int(v.U & 1), E: v.S}
	want = "d"
	if v.U&1 == 1 {
		want += "1:ai1e1:bi1e1:ci1e"
	}
	want += "1:di0e"
	if v.S != "" {
		want += "1:e" + string(enc(v.S))
	}
	sym.Assert(string(enc(w)) == want+"1:fi0ee", "options of a tag")
	sym.Reach("omit")
}

// Types that write themselves, of every kind whose nil value otherwise leaves its key out.
type mList []int

func (m mList) MarshalBencoding() ([]byte, error) {
	return []byte("l" + string(enc(int64(len(m)))) + "e"), nil
}

type mMap map[string]int

func (m mMap) MarshalBencoding() ([]byte, error) {
	return []byte("l" + string(enc(int64(len(m)))) + "e"), nil
}

type pList []string

func (m *pList) MarshalBencoding() ([]byte, error) {
	return []byte("l" + string(enc(int64(len(*m)))) + "e"), nil
}

type pMap map[string]string

func (m *pMap) MarshalBencoding() ([]byte, error) {
	return []byte("l" + string(enc(int64(len(*m)))) + "e"), nil
}

type plainList []int
type plainMap map[string]int

// B06Marshalers: a value with a marshaler of its own is written by it, as an entry of a dictionary or list or held
// by an interface even when it is nil; nil struct fields are left out.
func B06Marshalers() {
	v := struct {
		A mList
		B mMap
		C pList
		D pMap
		E plainList
		F plainMap
		G *mList
		H *pMap
		I any
		J mList `bencode:"j,omitempty"`
		Z string
	}{Z: sym.String("z", 1)}
	pick := func(k string) int { return sym.Choose(k, 3) } // nil, empty, one entry
	num := func(n int) string { return "li" + string(rune('0'+n)) + "ee" }
	kk := func(k, x string) string { return string(enc(k)) + x }
	a, b, c, d := pick("a"), pick("b"), pick("c"), pick("d")
	v.A = []mList{nil, {}, {1}}[a]
	v.B = []mMap{nil, {}, {"k": 1}}[b]
	v.C = []pList{nil, {}, {"x"}}[c]
	v.D = []pMap{nil, {}, {"k": "x"}}[d]
	rest := sym.Choose("rest", 5)
	g, h, i, j := "", "", "", ""
	switch rest {
	case 1:
		v.G, g = &v.A, kk("g", num(a/2))
	case 2:
		v.H, h = &v.D, kk("h", num(d/2))
	case 3:
		v.I, i = v.B, kk("i", num(b/2))
	case 4:
		v.I, v.J, i, j = &v.C, mList{3, 4}, kk("i", num(c/2)), kk("j", num(2))
	}
	ef := ""
	if rest == 1 {
		v.E, v.F = plainList{}, plainMap{}
		ef = "1:ele1:fde"
	}
	field := func(k string, n int) string { // a nil field is left out
		if n == 0 {
			return ""
		}
		return kk(k, num(n/2))
	}
	want := "d" + field("a", a) + field("b", b) + field("c", c) + field("d", d) + ef + g + h + i + j + kv("z", v.Z) + "e"
	sym.Assert(string(enc(&v)) == want, "values with a marshaler of their own")
	// values of dictionaries, which are not addressable
	m := map[string]mList{"a": v.A, "b": nil}
	sym.Assert(string(enc(m)) == "d"+kk("a", num(a/2))+kk("b", num(0))+"e", "dictionary of values with a marshaler of their own")
	p := map[string]*pMap{"a": &v.D, "b": nil}
	sym.Assert(string(enc(p)) == "d"+kk("a", num(d/2))+"e", "dictionary of pointers to values with a marshaler of their own")
	l := []mMap{v.B, nil}
	sym.Assert(string(enc(l)) == "l"+num(b/2)+num(0)+"e", "list of values with a marshaler of their own")
	q := []pList{v.C, nil}
	sym.Assert(string(enc(q)) == "l"+num(c/2)+num(0)+"e", "list of values whose pointer has a marshaler")
	sym.Reach("marshalers")
}
