package hben

import (
	"bytes"
	"errors"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

// custom records the bytes it is given; it is a struct so that nothing else could decode it.
type custom struct {
	got   []byte
	calls int
}

func (c *custom) UnmarshalBencoding(b []byte) error {
	c.got = append([]byte(nil), b...)
	c.calls++
	return nil
}

func (c *custom) MarshalBencoding() ([]byte, error) { return c.got, nil }

type refuse struct{}

var errRefused = errors.New("refused")

func (r *refuse) UnmarshalBencoding(b []byte) error { return errRefused }

type b05 struct {
	A bencode.RawMessage
	B custom
	C *bencode.RawMessage
	D []bencode.RawMessage
	E map[string]bencode.RawMessage
	F *custom
	G []custom
	H map[string]*custom
	I int
	Z string
}

// field returns the bytes of key's value in the canonical dictionary b, or nil.
func field(b []byte, key string) []byte {
	i := 1
	for i < len(b) && b[i] != 'e' {
		s, e := refStr(b, i)
		v := refEnd(b, e)
		if string(b[s:e]) == key {
			return b[e:v]
		}
		i = v
	}
	return nil
}

// items splits a canonical list.
func items(b []byte) [][]byte {
	var r [][]byte
	i := 1
	for i < len(b) && b[i] != 'e' {
		e := refEnd(b, i)
		r = append(r, b[i:e])
		i = e
	}
	return r
}

// B05Capture: arbitrary bytes X in the place of a raw or custom value, with a known field after them.
func B05Capture() {
	n := sym.Param("n", 5)
	x := sym.Bytes("x", n)
	shape := sym.Choose("shape", 9)
	pre := []string{"d1:a", "d1:b", "d1:c", "d1:dl", "d1:ed1:k", "d1:f", "d1:gl", "d1:hd1:k", "d7:unknown"}[shape]
	post := []string{"", "", "", "e", "e", "", "e", "e", ""}[shape] + "1:ii7e1:z2:zze"
	if shape == 8 {
		post = "1:z2:zze"
		pre = "d1:aleX:unknown" // replaced below
		pre = "d1:ale7:unknown"
	}
	in := append(append([]byte(pre), x...), post...)
	whole := append([]byte(nil), in...)
	var v b05
	err := bencode.NewDecoder(bytes.NewReader(in)).Decode(&v)
	e := refEnd(x, 0)
	if e < 0 || e != n {
		// x is not one value; the whole may still be a dictionary, checked only for errors when it is not
		if refEnd(whole, 0) < 0 {
			sym.Assert(err != nil, "malformed input accepted")
			sym.Reach("malformed")
		}
		return
	}
	sym.Assert(err == nil, "a well-formed value was rejected")
	eq := func(b []byte, what string) {
		sym.Assert(sym.EqBytes(b, x), what+" did not receive exactly the value's bytes")
	}
	switch shape {
	case 0:
		eq(v.A, "raw message")
	case 1:
		eq(v.B.got, "custom unmarshaler")
		sym.Assert(v.B.calls == 1, "custom unmarshaler not called once")
	case 2:
		sym.Assert(v.C != nil, "pointer to raw message not set")
		eq(*v.C, "pointer to raw message")
	case 3:
		sym.Assert(len(v.D) == 1, "list of raw messages")
		eq(v.D[0], "raw message in a list")
	case 4:
		sym.Assert(len(v.E) == 1, "dictionary of raw messages")
		eq(v.E["k"], "raw message in a dictionary")
	case 5:
		sym.Assert(v.F != nil && v.F.calls == 1, "pointer to custom unmarshaler not set")
		eq(v.F.got, "pointer to custom unmarshaler")
	case 6:
		sym.Assert(len(v.G) == 1, "list of custom unmarshalers")
		eq(v.G[0].got, "custom unmarshaler in a list")
	case 7:
		sym.Assert(len(v.H) == 1 && v.H["k"] != nil, "dictionary of custom unmarshalers")
		eq(v.H["k"].got, "custom unmarshaler in a dictionary")
	}
	if shape != 8 {
		sym.Assert(v.I == 7, "field after the raw value lost")
	}
	sym.Assert(v.Z == "zz", "field after the raw value lost")
	sym.Reach("captured")
}

// B05Lists: a list of raw messages splits exactly as the reference reader splits it.
func B05Lists() {
	n := sym.Param("n", 7)
	b := append([]byte("l"), sym.Bytes("in", n)...)
	whole := append([]byte(nil), b...)
	var v []bencode.RawMessage
	err := bencode.NewDecoder(bytes.NewReader(b)).Decode(&v)
	e := refEnd(whole, 0)
	sym.Assert((err == nil) == (e >= 0), "acceptance of a list of raw values")
	if err != nil {
		return
	}
	want := items(whole[:e])
	sym.Assert(len(v) == len(want), "number of raw values")
	for i := range want {
		sym.Assert(sym.EqBytes(v[i], want[i]), "raw value differs from its bytes")
	}
	sym.Reach("list")
}

// B05Verbatim: encoding raw messages reproduces their bytes, wherever they stand.
func B05Verbatim() {
	n := sym.Param("n", 5)
	x := sym.Bytes("x", sym.Choose("len", n+1))
	r := bencode.RawMessage(x)
	var out []byte
	var err error
	pre, post := "", ""
	switch sym.Choose("shape", 8) {
	case 0:
		out, err = bencode.Marshal(r)
	case 1:
		out, err = bencode.Marshal(&r)
	case 2:
		out, err = bencode.Marshal(struct{ A bencode.RawMessage }{r})
		pre, post = "d1:a", "e"
	case 3:
		out, err = bencode.Marshal(&struct {
			A *bencode.RawMessage
			B int
		}{&r, 3})
		pre, post = "d1:a", "1:bi3ee"
	case 4:
		out, err = bencode.Marshal([]bencode.RawMessage{r, r})
		pre, post = "l"+string(x), "e"
	case 5:
		out, err = bencode.Marshal(map[string]bencode.RawMessage{"k": r})
		pre, post = "d1:k", "e"
	case 6:
		out, err = bencode.Marshal([]any{r})
		pre, post = "l", "e"
	case 7:
		out, err = bencode.Marshal([1]bencode.RawMessage{r})
		pre, post = "l", "e"
	}
	sym.Assert(err == nil, "encoding a raw message failed")
	sym.Assert(string(out) == pre+string(x)+post, "raw message not reproduced verbatim")
	sym.Reach("verbatim")
}

// B05Errors: an unmarshaler's error is reported.
func B05Errors() {
	var v struct {
		A refuse
		B int
	}
	x := sym.Bytes("x", 3)
	if refEnd(x, 0) != 3 {
		return
	}
	err := bencode.Unmarshal(append(append([]byte("d1:a"), x...), "1:bi1ee"...), &v)
	sym.Assert(errors.Is(err, errRefused), "an unmarshaler's error was lost")
	sym.Reach("refused")
}
