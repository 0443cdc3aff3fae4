package hben

import (
	"bufio"
	"io"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

// chunks returns the data in pieces of arbitrary sizes.
type chunks struct {
	data  []byte
	max   int
	style int // how the end is signalled: with the last bytes, or separately
	zero  int // empty reads still allowed
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(c.data), c.max)
	if n > 1 {
		n = 1 + sym.Choose("chunk", n)
	}
	if c.zero > 0 {
		c.zero--
		if sym.Choose("empty read", 2) == 1 {
			return 0, nil
		}
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.style == 1 {
		return n, io.EOF
	}
	return n, nil
}

// B07Chunks: an arbitrary byte string decodes to the same result however it is chunked, and the
// bytes after the value stay readable.
func B07Chunks() {
	n := sym.Param("n", 5)
	b := sym.Bytes("in", n)
	r := &chunks{data: append([]byte(nil), b...), max: sym.Param("max", 3), style: sym.Choose("eof", 2), zero: sym.Param("zero", 0)}
	d := bencode.NewDecoder(r)
	var v any
	err := d.Decode(&v)
	e := refEnd(b, 0)
	sym.Assert((err == nil) == (e >= 0), "the result depends on how the input is chunked")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	ok, _ := refMatches(b, 0, v)
	sym.Assert(ok, "decoded value depends on how the input is chunked")
	rest, rerr := io.ReadAll(d)
	sym.Assert(rerr == nil && sym.EqBytes(rest, b[e:]), "bytes after the value were consumed")
	sym.Reach("accepted")
}

// B07Successive: a concatenation of values is read back one value per call.
func B07Successive() {
	n := sym.Param("n", 4)
	cnt := 2 + sym.Choose("more", 2)
	var all []byte
	var parts [][]byte
	for i := 0; i < cnt; i++ {
		m := 2 + sym.Choose("len", n-1)
		x := sym.Bytes("x", m)
		if refEnd(x, 0) != m {
			return
		}
		parts = append(parts, x)
		all = append(all, x...)
	}
	var rd io.Reader = &chunks{data: append([]byte(nil), all...), max: 2}
	fresh := sym.Choose("fresh", 2) == 1
	if fresh {
		// decoders one after the other on a reader with a buffer of its own
		rd = bufio.NewReaderSize(rd, 16)
	}
	d := bencode.NewDecoder(rd)
	for _, p := range parts {
		if fresh {
			d = bencode.NewDecoder(rd)
		}
		var raw bencode.RawMessage
		sym.Assert(d.Decode(&raw) == nil, "a value of a concatenation was rejected")
		sym.Assert(sym.EqBytes(raw, p), "a value of a concatenation differs")
	}
	var v any
	sym.Assert(d.Decode(&v) != nil, "a value was read past the end")
	sym.Reach("concatenation")
}

// cuts returns its data in up to left+1 reads, split anywhere.
type cuts struct {
	data []byte
	left int
}

func (c *cuts) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(c.data))
	if c.left > 0 && n > 1 {
		c.left--
		n = 1 + sym.Choose("cut", n)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

// B07Long: strings longer than every buffer, cut anywhere.
func B07Long() {
	lens := []int{0, 14, 30, 32, 40, 70, 600}
	n := lens[sym.Choose("len", len(lens))]
	s := sym.String("s", n)
	in := enc([]any{s, 7, s})
	var rd io.Reader = &cuts{data: append(append([]byte(nil), in...), "i5e"...), left: sym.Param("cuts", 1)}
	if sym.Choose("buf", 2) == 1 {
		rd = bufio.NewReaderSize(rd, 16)
	}
	d := bencode.NewDecoder(rd)
	var v []any
	sym.Assert(d.Decode(&v) == nil, "rejected")
	sym.Assert(len(v) == 3 && v[0] == any(s) && v[1] == any(7) && v[2] == any(s), "value differs")
	k := 0
	sym.Assert(d.Decode(&k) == nil && k == 5, "value after it lost")
	sym.Reach("long")
}

// B07Truncated: every proper prefix of an encoding is an error, into every kind of destination.
func B07Truncated() {
	type t struct {
		A map[string][]int
		B string
		C []byte
		D struct{ E uint8 }
		F bencode.RawMessage
	}
	v := t{A: map[string][]int{"k": {1, -2}}, B: sym.String("b", 2), C: sym.Bytes("c", 3), F: bencode.RawMessage("d1:xlee")}
	v.D.E = sym.Byte("e") & 7
	in := enc(v)
	cut := sym.Choose("end", len(in)+1)
	c := append([]byte(nil), in[:cut]...)
	r := &cuts{data: c, left: sym.Param("cuts", 1)}
	d := bencode.NewDecoder(bufio.NewReaderSize(r, 16))
	var err error
	switch sym.Choose("dst", 3) {
	case 0:
		var o t
		err = d.Decode(&o)
	case 1:
		var o any
		err = d.Decode(&o)
	case 2:
		var o bencode.RawMessage
		err = d.Decode(&o)
	}
	sym.Assert((err == nil) == (cut == len(in)), "truncated input")
	sym.Reach("truncated")
}
