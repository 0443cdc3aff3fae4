package hben

import (
	"bytes"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

type node struct {
	A, B any
	P    *node
	L    []any
	M    map[string]any
	N    []*node
}

// B08Graphs: every graph of k values of every kind, each with up to two references to any value.
func B08Graphs() {
	k := sym.Param("k", 2)
	kinds := make([]int, k)
	vals := make([]any, k)
	lists := make([][]any, k)
	for i := range kinds {
		kinds[i] = sym.Choose("kind", 6)
		switch kinds[i] {
		case 0:
			vals[i] = &node{}
		case 1:
			lists[i] = make([]any, 2)
			vals[i] = lists[i]
		case 2:
			vals[i] = map[string]any{}
		case 3:
			vals[i] = new(any)
		case 4:
			vals[i] = &[2]any{}
		case 5:
			lists[i] = make([]any, 2)
			l := lists[i]
			vals[i] = &l
		}
	}
	edge := make([][2]int, k)
	for i := range kinds {
		for j := 0; j < 2; j++ {
			if j == 1 && kinds[i] == 3 {
				edge[i][1] = -1
				continue
			}
			t := sym.Choose("edge", k+1) - 1
			edge[i][j] = t
			var x any = 1
			if t >= 0 {
				x = vals[t]
			}
			switch kinds[i] {
			case 0:
				n := vals[i].(*node)
				if p, ok := x.(*node); ok && j == 1 {
					n.P = p
				} else if j == 0 {
					n.A = x
				} else {
					n.B = x
				}
			case 1, 5:
				lists[i][j] = x
			case 2:
				vals[i].(map[string]any)[string(rune('a'+j))] = x
			case 3:
				*vals[i].(*any) = x
			case 4:
				vals[i].(*[2]any)[j] = x
			}
		}
	}
	// a cycle reachable from value 0?
	reach := make([][]bool, k)
	for i := range reach {
		reach[i] = make([]bool, k)
		for _, t := range edge[i] {
			if t >= 0 {
				reach[i][t] = true
			}
		}
	}
	for m := 0; m < k; m++ {
		for i := 0; i < k; i++ {
			for j := 0; j < k; j++ {
				if reach[i][m] && reach[m][j] {
					reach[i][j] = true
				}
			}
		}
	}
	cyclic := reach[0][0]
	for i := 1; i < k; i++ {
		cyclic = cyclic || reach[0][i] && reach[i][i]
	}
	var w bytes.Buffer
	e := bencode.NewEncoder(&w)
	err := e.Encode(vals[0])
	if cyclic {
		sym.Assert(err != nil, "a cyclic value was encoded")
		sym.Reach("cyclic")
		// the encoder must still work
		w.Reset()
		sym.Assert(e.Encode([]any{1, map[string]any{"a": []any{"x"}}}) == nil && w.String() == "li1ed1:al1:xeee", "encoder unusable after an error")
		return
	}
	sym.Assert(err == nil, "an acyclic value was refused")
	sym.Assert(refEnd(w.Bytes(), 0) == w.Len(), "output is not canonical")
	sym.Reach("acyclic")
}

type plist *plist
type chain struct{ Next *chain }

// B08Types: cycles through typed pointers, lists, dictionaries and structs; errors repeated on one encoder.
func B08Types() {
	var w bytes.Buffer
	e := bencode.NewEncoder(&w)
	times := 1 + sym.Choose("times", 3)
	kind := sym.Choose("kind", 6)
	for i := 0; i < times; i++ {
		var v any
		switch kind {
		case 0:
			var p plist
			p = &p
			v = p
		case 1:
			c := &chain{}
			c.Next = &chain{c}
			v = c
		case 2:
			type L []L
			l := make(L, 1)
			l[0] = l
			v = l
		case 3:
			type M map[string]M
			m := M{}
			m["x"] = m
			v = m
		case 4:
			var x any
			x = &x
			v = map[string]any{"a": x, "b": x}
		case 5:
			v = make(chan int) // unsupported, deep inside
			for j := 0; j < 20; j++ {
				v = []any{v}
			}
		}
		sym.Assert(e.Encode(v) != nil, "cycle or unsupported value encoded")
	}
	w.Reset()
	depth := 900
	var deep any = []any{}
	for i := 0; i < depth; i++ {
		deep = []any{deep}
	}
	sym.Assert(e.Encode(deep) == nil, "nesting below the limit refused after errors")
	sym.Assert(w.Len() == 2*(depth+1), "nested lists")
	sym.Reach("types")
}

// B08Depth: nesting through every kind of container, well below the limit.
func B08Depth() {
	n := sym.Param("depth", 900)
	var v any = 1
	kind := sym.Choose("kind", 3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"k": v}
		case 2:
			v = &node{A: v}
		}
	}
	out, err := bencode.Marshal(v)
	sym.Assert(err == nil, "nesting below the limit refused")
	var o any
	sym.Assert(bencode.Unmarshal(out, &o) == nil, "nested value cannot be decoded")
	sym.Reach("depth")
}
