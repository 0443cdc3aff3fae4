// Package hmag holds the harnesses for magnet links.
package hmag

import (
	"strconv"

	"github.com/browles/drip/api/magnet"
	"verifharness/sym"
)

const hexd = "0123456789ABCDEF"

// quote renders s in a query: as it is where possible, or escaped.
func quote(s string, all bool) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= 'a' && c <= 'z' || c >= '0' && c <= '9'
		switch {
		case plain && !all:
			out += string([]byte{c})
		case c == ' ' && !all:
			out += "+"
		default:
			out += "%" + string([]byte{hexd[c>>4], hexd[c&15]})
		}
	}
	return out
}

// G01: links with parameters in any order.
func G01() {
	var xt, dn, ws string
	var tr, pe []string
	link := "magnet:?"
	k := sym.Param("params", 3)
	n := sym.Choose("count", k+1)
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		if i > 0 {
			link += "&"
		}
		p := sym.Choose("key", 6)
		v := ""
		if i == 0 {
			v = sym.String("value", sym.Choose("len", sym.Param("len", 1)+1))
		} else {
			v = []string{"urn:btih:x", "", "a b&c=d+%#"}[sym.Choose("other", 3)]
		}
		q := quote(v, sym.Choose("escape", 2) == 1)
		if seen[p] && p != 3 && p != 5 {
			sym.Assume(false) // only trackers and peers repeat
		}
		seen[p] = true
		switch p {
		case 0:
			xt, link = v, link+"xt="+q
		case 1:
			dn, link = v, link+"dn="+q
		case 2:
			ws, link = v, link+"ws="+q
		case 3:
			tr, link = append(tr, v), link+"tr="+q
		case 4:
			link += "unknown=" + q
		case 5:
			pe, link = append(pe, v), link+"x.pe="+q
		}
	}
	m, err := magnet.ParseMagnetURL(link)
	sym.Assert(err == nil, "a valid link was rejected")
	sym.Assert(m.ExactTopic == xt, "the exact topic differs")
	sym.Assert(m.Name == dn, "the name differs")
	sym.Assert(m.WebSeed == ws, "the web seed differs")
	sym.Assert(m.Length == 0, "a length appeared")
	same := func(a, b []string, what string) {
		sym.Assert(len(a) == len(b), "the number of "+what+" differs")
		for i := range a {
			sym.Assert(a[i] == b[i], "the "+what+" differ")
		}
	}
	same(m.Trackers, tr, "trackers")
	same(m.Peers, pe, "peers")
	sym.Reach("parsed")
}

// G01Length: the length parameter.
func G01Length() {
	n := sym.Choose("n", sym.Param("n", 3)+1)
	x := sym.String("xl", n)
	m, err := magnet.ParseMagnetURL("magnet:?xt=a&xl=" + quote(x, true) + "&dn=b")
	dig, neg, bad := x, false, false
	if n > 0 && (x[0] == '-' || x[0] == '+') {
		neg = x[0] == '-'
		dig = x[1:]
		bad = dig == ""
	}
	v := 0
	for i := 0; i < len(dig); i++ {
		if dig[i] < '0' || dig[i] > '9' {
			bad = true
			break
		}
		v = 10*v + int(dig[i]-'0')
	}
	if neg {
		v = -v
	}
	sym.Assert((err != nil) == bad, "a length that is not a decimal integer was accepted, or a valid one rejected")
	if err == nil {
		sym.Assert(m.Length == v && m.ExactTopic == "a" && m.Name == "b", "the length differs")
		sym.Reach("length")
	} else {
		sym.Reach("rejected")
	}
}

// G01Big: lengths of any number of digits.
func G01Big() {
	nd := 1 + sym.Choose("digits", 21)
	ds := make([]byte, nd)
	for i := range ds {
		ds[i] = '7'
	}
	k := min(nd, 3)
	for i := 0; i < k; i++ {
		ds[i] = sym.ByteIn("d", '0', '9')
	}
	m, err := magnet.ParseMagnetURL("magnet:?xl=" + string(ds))
	want, werr := strconv.Atoi(string(ds))
	sym.Assert((err == nil) == (werr == nil), "a length was wrongly accepted or rejected")
	if err == nil {
		sym.Assert(m.Length == want, "the length differs")
	}
	sym.Reach("big")
}

// G01Bytes: arbitrary links.
func G01Bytes() {
	pre := []string{"", "magnet:", "magnet:?", "magnet:?xl=", "magnet:?tr=%", "http://"}
	k := sym.Choose("prefix", len(pre))
	m, err := magnet.ParseMagnetURL(pre[k] + sym.String("in", sym.Param("n", 4)))
	sym.Assert((m == nil) == (err != nil), "neither or both of result and error")
	if err == nil {
		sym.Reach("parsed")
	} else {
		sym.Reach("rejected")
	}
}
