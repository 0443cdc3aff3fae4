package hben

import (
	"bytes"

	"github.com/browles/drip/bencode"
	"verifharness/sym"
)

// intInto decodes b into an integer of the chosen type, which held a non-zero value, and returns
// the stored value widened.
func intInto(k int, b []byte) (err error, i int64, u uint64, signed bool, bits uint) {
	r := bytes.NewReader(b)
	d := bencode.NewDecoder(r)
	switch k {
	case 0:
		var o int
		err = d.Decode(&o)
		return err, int64(o), 0, true, 64
	case 1:
		var o int8
		err = d.Decode(&o)
		return err, int64(o), 0, true, 8
	case 2:
		var o int16
		err = d.Decode(&o)
		return err, int64(o), 0, true, 16
	case 3:
		var o int32
		err = d.Decode(&o)
		return err, int64(o), 0, true, 32
	case 4:
		var o int64
		err = d.Decode(&o)
		return err, int64(o), 0, true, 64
	case 5:
		var o uint
		err = d.Decode(&o)
		return err, 0, uint64(o), false, 64
	case 6:
		var o struct{ A uint8 }
		err = bencode.Unmarshal(append(append([]byte("d1:a"), b...), 'e'), &o)
		return err, 0, uint64(o.A), false, 8
	case 7:
		var o []uint16
		err = bencode.Unmarshal(append(append([]byte("l"), b...), 'e'), &o)
		if len(o) == 0 {
			return err, 0, 0, false, 16
		}
		return err, 0, uint64(o[0]), false, 16
	case 8:
		var o map[string]*uint32
		err = bencode.Unmarshal(append(append([]byte("d0:"), b...), 'e'), &o)
		if o[""] == nil {
			return err, 0, 0, false, 32
		}
		return err, 0, uint64(*o[""]), false, 32
	default:
		var o uint64
		err = d.Decode(&o)
		return err, 0, o, false, 64
	}
}

// limits are the bounds of the integer types.
var limits = []string{"127", "128", "255", "32767", "32768", "65535", "2147483647", "2147483648", "4294967295",
	"9223372036854775807", "9223372036854775808", "18446744073709551615",
	"1844674407370955161", "1844674407370955162", "184467440737095516150"}

// decimal is an arbitrary decimal of nd digits without leading zero. Paths are split by how it
// compares with the limits of that length: equal, or first differing at some position.
func decimal(nd int) []byte {
	lead := func(i int) byte {
		if i == 0 && nd > 1 {
			return '1'
		}
		return '0'
	}
	var lims []string
	for _, l := range limits {
		if len(l) == nd {
			lims = append(lims, l)
		}
	}
	var ds []byte
	for j := 0; j < nd && len(lims) > 0; j++ {
		// intervals of the next digit: a digit of a limit, or what lies between those
		lo := lead(j)
		type iv struct{ lo, hi byte }
		var ivs []iv
		for d := lo; d <= '9'; d++ {
			is := false
			for _, l := range lims {
				is = is || l[j] == d
			}
			if is {
				if lo < d {
					ivs = append(ivs, iv{lo, d - 1})
				}
				ivs = append(ivs, iv{d, d})
				lo = d + 1
			}
		}
		if lo <= '9' {
			ivs = append(ivs, iv{lo, '9'})
		}
		v := ivs[sym.Choose("interval", len(ivs))]
		var keep []string
		for _, l := range lims {
			if v.lo == v.hi && l[j] == v.lo {
				keep = append(keep, l)
			}
		}
		lims = keep
		ds = append(ds, sym.ByteIn("d", v.lo, v.hi))
	}
	for i := len(ds); i < nd; i++ {
		ds = append(ds, sym.ByteIn("d", lead(i), '9'))
	}
	return ds
}

// B04: every canonical decimal of up to `digits` digits, with and without minus, into every integer type.
func B04() {
	k := sym.Choose("type", 10)
	// the digit counts around each type's limits, or all of them
	near := [][]int{{1, 19, 20}, {1, 2, 3, 4}, {5, 6}, {10, 11}, {18, 19, 21}, {1, 20}, {1, 2, 3, 4}, {5, 6}, {10, 11}, {19, 20, 21}}[k]
	nd := 0
	if all := sym.Param("all", 0); all > 0 {
		nd = 1 + sym.Choose("digits", all)
	} else {
		nd = near[sym.Choose("digits", len(near))]
	}
	neg := sym.Choose("neg", 2) == 1
	ds := decimal(nd)
	b := []byte("i")
	if neg {
		b = append(b, '-')
	}
	b = append(append(b, ds...), 'e')
	err, i, u, signed, bits := intInto(k, b)
	_, mag, e := refInt(b, 0)
	fits := false
	if e >= 0 {
		if signed {
			lim := uint64(1) << (bits - 1)
			fits = neg && mag <= lim || !neg && mag < lim
		} else {
			fits = (!neg || mag == 0) && (bits == 64 || mag < uint64(1)<<bits)
		}
	}
	if err == nil {
		sym.Assert(fits, "an integer that does not fit was accepted")
		if signed {
			want := int64(mag)
			if neg {
				want = -want
			}
			sym.Assert(i == want, "a different integer was stored")
		} else {
			sym.Assert(u == mag, "a different integer was stored")
		}
		sym.Reach("fits")
	} else {
		sym.Assert(!fits, "an integer that fits was rejected")
		sym.Reach("rejected")
	}
}

// B04Raw: arbitrary bytes between i and e.
func B04Raw() {
	k := sym.Choose("type", 10)
	n := sym.Param("n", 4)
	b := append(append([]byte("i"), sym.Bytes("in", sym.Choose("len", n+1))...), 'e')
	err, i, u, signed, bits := intInto(k, b)
	neg, mag, e := refInt(b, 0)
	if k >= 6 && k <= 8 && e != len(b) {
		// the integer ends early and the container goes on: only absence of panics is checked
		return
	}
	fits := e >= 0
	if fits && signed {
		lim := uint64(1) << (bits - 1)
		fits = neg && mag <= lim || !neg && mag < lim
	} else if fits {
		fits = !neg && (bits == 64 || mag < uint64(1)<<bits)
	}
	sym.Assert((err == nil) == fits, "acceptance differs from representability")
	if err == nil {
		want := int64(mag)
		if neg {
			want = -want
		}
		sym.Assert(signed && i == want || !signed && u == mag, "a different integer was stored")
		sym.Reach("fits")
	} else {
		sym.Reach("rejected")
	}
}
