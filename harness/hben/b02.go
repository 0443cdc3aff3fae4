package hben

import (
	"bytes"
	"strings"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

// B02Any: every byte string of length n, decoded into an interface.
func B02Any() {
	n := sym.Param("n", 5)
	b := sym.Bytes("in", n)
	checkAny(b)
}

func checkAny(b []byte) {
	in := append([]byte(nil), b...)
	var v any
	err := bencode.NewDecoder(bytes.NewReader(in)).Decode(&v)
	e := refEnd(b, 0)
	if err == nil {
		sym.Assert(e >= 0, "decoder accepted bytes that are not one canonical value")
		ok, _ := refMatches(b, 0, v)
		sym.Assert(ok, "decoded value differs from the one the bytes denote")
		sym.Reach("accepted")
	} else {
		sym.Assert(e < 0, "decoder rejected a canonical value")
		sym.Reach("rejected")
	}
}

// B02Typed: every byte string of length n into typed destinations: no panic, and what is accepted
// is one value by the grammar (integers may use the range of the destination).
func B02Typed() {
	n := sym.Param("n", 5)
	b := sym.Bytes("in", n)
	in := append([]byte(nil), b...)
	type inner struct {
		A int8
		B []string
	}
	type st struct {
		inner
		C map[string]*inner
		D *[]uint16
		E [2]string
		F any `bencode:"i"`
		G []byte
	}
	var dst any
	switch sym.Choose("dst", 9) {
	case 0:
		dst = new(st)
	case 1:
		dst = new([]int)
	case 2:
		dst = new(map[string]int8)
	case 3:
		dst = new([2]uint)
	case 4:
		dst = new(**string)
	case 5:
		dst = new([]byte)
	case 6:
		dst = new([]map[string][]any)
	case 7:
		dst = new([][]string)
	case 8:
		dst = new(map[string]st)
	}
	err := bencode.NewDecoder(bytes.NewReader(in)).Decode(dst)
	if err == nil {
		sym.Assert(refEnd(b, 0) >= 0, "decoder accepted bytes that are not one canonical value")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

type sink struct{ b []byte }

func (s *sink) UnmarshalBencoding(b []byte) error {
	s.b = append([]byte(nil), b...)
	return nil
}

// B02Raw: every byte string of length n where values are captured or skipped without being decoded.
func B02Raw() {
	n := sym.Param("n", 5)
	b := sym.Bytes("in", n)
	if sym.Param("dict", 0) == 1 {
		sym.Assume(b[0] == 'd')
	}
	in := append([]byte(nil), b...)
	var err error
	good := refEnd(b, 0)
	switch sym.Choose("dst", 4) {
	case 0:
		var r bencode.RawMessage
		err = bencode.NewDecoder(bytes.NewReader(in)).Decode(&r)
	case 1: // an unknown key
		var v struct{ Z int }
		in = append([]byte("d1:x"), in...)
		in = append(in, "1:zi5ee"...)
		err = bencode.NewDecoder(bytes.NewReader(append([]byte(nil), in...))).Decode(&v)
		sym.Assert(err != nil || refEnd(in, 0) >= 0, "decoder skipped bytes that are not one canonical value")
		if good != n { // what follows is read as part of the dictionary
			return
		}
		sym.Assert(err != nil || v.Z == 5, "the value after a skipped one is lost")
	case 2: // past the end of an array
		var v [1]string
		in = append([]byte("l0:"), in...)
		in = append(in, 'e')
		err = bencode.NewDecoder(bytes.NewReader(append([]byte(nil), in...))).Decode(&v)
		sym.Assert(err != nil || refEnd(in, 0) >= 0, "decoder skipped bytes that are not one canonical value")
		if good != n {
			return
		}
	case 3: // a custom unmarshaler
		var v sink
		err = bencode.NewDecoder(bytes.NewReader(in)).Decode(&v)
	}
	sym.Assert((err == nil) == (good >= 0), "decoder accepted bytes that are not one canonical value, or rejected a canonical value")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

type hiddenEmb struct{ X any }
type held struct {
	*hiddenEmb
	Y int
}
type wrapped struct {
	X any
	Y *any
}

// B02Held: destinations that hold values already, or cannot be decoded into. wrap puts the
// symbolic bytes where the held value is.
func B02Held() {
	n := sym.Param("n", 4)
	b := sym.Bytes("in", n)
	pre, post := "", ""
	in1 := func() { pre, post = "d1:x", "e" }
	lst := func() { pre, post = "l", "e" }
	holds := func(k int) any {
		one := 1
		var nilp *int
		var deep any = &one
		switch k {
		case 0:
			return 5
		case 1:
			return "s"
		case 2:
			return []byte("k")
		case 3:
			return map[string]int{"a": 1}
		case 4:
			return map[string]any(nil)
		case 5:
			return nilp
		case 6:
			return &one
		case 7:
			return struct{ X int }{}
		case 8:
			return []any{1}
		case 9:
			return [1]int{}
		case 10:
			return &deep
		case 11:
			return map[string]any{"x": 1}
		case 12:
			return func() {}
		}
		return nil
	}
	const kinds = 14
	var dst any
	switch sym.Choose("dst", 9) {
	case 0:
		x := holds(sym.Choose("holds", kinds))
		dst = &x
	case 1:
		in1()
		dst = &wrapped{X: holds(sym.Choose("holds", kinds))}
	case 2:
		pre, post = "d1:y", "e"
		x := holds(sym.Choose("holds", kinds))
		dst = &wrapped{Y: &x}
	case 3:
		in1()
		dst = &map[string]any{"x": holds(sym.Choose("holds", kinds))}
	case 4:
		lst()
		dst = &[]any{holds(sym.Choose("holds", kinds))}
	case 5:
		lst()
		dst = &[1]any{holds(sym.Choose("holds", kinds))}
	case 6:
		in1()
		dst = &held{}
	case 7: // no pointers, or nil ones
		dst = []any{5, nil, (*int)(nil), map[string]any(nil), map[string]any{}, []any{1}, [1]any{}, held{}}[sym.Choose("plain", 8)]
	case 8:
		switch sym.Choose("kind", 5) {
		case 0:
			dst = new(func())
		case 1:
			dst = new(chan int)
		case 2:
			dst = new(float64)
		case 3:
			dst = new(map[int]string)
		case 4:
			dst = new(interface{ M() })
		}
	}
	text := append(append([]byte(pre), b...), post...)
	err := bencode.NewDecoder(bytes.NewReader(append([]byte(nil), text...))).Decode(dst)
	if err == nil {
		sym.Assert(refEnd(text, 0) >= 0, "decoder accepted bytes that are not one canonical value")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// B02Deep: input nested so deeply that decoding must not follow it by recursion (maxdepth bounds the calls).
func B02Deep() {
	n := sym.Param("levels", 110000)
	open, end := "l", "e"
	if sym.Choose("kind", 2) == 1 {
		open = "d1:a"
	}
	b := append([]byte(strings.Repeat(open, n)), 'i', '0'+sym.Byte("digit")%10, 'e')
	b = append(b, strings.Repeat(end, n)...)
	var dst any
	switch sym.Choose("dst", 4) {
	case 0:
		dst = new(any)
	case 1:
		dst = new(bencode.RawMessage)
	case 2: // skipped
		b = append(append([]byte("d1:q"), b...), 'e')
		dst = new(struct{ X int })
	case 3: // skipped after a known one
		b = append(append([]byte("d1:xi1e1:y"), b...), 'e')
		dst = new(struct{ X int })
	}
	err := bencode.NewDecoder(bytes.NewReader(b)).Decode(dst)
	sym.Assert(err == nil || err != nil, "ends")
	sym.Reach("deep")
}
