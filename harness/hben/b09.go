package hben

import (
	"bytes"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

type part struct {
	Name string
	N    int `bencode:"n,omitempty"`
}

type whole struct {
	part
	Parts []part
	M     map[string]part
	Raw   bencode.RawMessage `bencode:"raw"`
}

// B09: encoding and decoding at the same time.
func B09() {
	sym.Races(true)
	n := sym.Param("routines", 2)
	s := sym.String("s", 1)
	k := int(sym.Int8("k") & 3)
	v := whole{part: part{s, k}, Parts: []part{{"p", 1}, {s, 0}}, M: map[string]part{"a": {s, 2}, "b": {"", k}}, Raw: bencode.RawMessage("i1e")}
	data := []byte("d1:ad4:name1:" + s + "e1:bd1:ni7eee")
	type result struct {
		out []byte
		m   map[string]part
		err error
	}
	op := func(kind int) (r result) {
		switch kind {
		case 0:
			r.out, r.err = bencode.Marshal(&v)
		case 1:
			r.err = bencode.Unmarshal(data, &r.m)
		case 2:
			var b bytes.Buffer
			r.err = bencode.NewEncoder(&b).Encode(v.M)
			r.out = b.Bytes()
		case 3:
			var w whole
			r.err = bencode.NewDecoder(bytes.NewReader([]byte("d4:name1:" + s + "5:partsld1:ni3eeee"))).Decode(&w)
			if r.err == nil {
				sym.Assert(w.Name == s && len(w.Parts) == 1 && w.Parts[0].N == 3, "a value decoded at the same time as others is wrong")
			}
		}
		return
	}
	got := make([]result, n)
	kinds := make([]int, n)
	done := make(chan bool, n)
	lo := 0
	for i := range n {
		kinds[i] = lo + sym.Choose("op", 4-lo)
		lo = kinds[i]
	}
	for i := range n {
		go func() {
			got[i] = op(kinds[i])
			done <- true
		}()
	}
	for range n {
		<-done
	}
	for i := range n {
		want := op(kinds[i])
		sym.Assert(got[i].err == nil && want.err == nil, "a value was refused when coded at the same time as others")
		sym.Assert(len(got[i].out) == len(want.out) && sym.EqBytes(got[i].out, want.out), "coding at the same time as others gave another result")
		sym.Assert(len(got[i].m) == len(want.m) && got[i].m["a"] == want.m["a"] && got[i].m["b"] == want.m["b"], "coding at the same time as others gave another result")
	}
	sym.Reach("end")
}
