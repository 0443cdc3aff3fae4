package model

import (
	"strconv"
	"unicode/utf8"

	"verifharness/sym"
)

// Quote is strconv.Quote, with few branches on single bytes.
func Quote(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s[i:])
			if r == utf8.RuneError && n == 1 {
				b = append(b, '\\', 'x', hexDigit(c>>4), hexDigit(c&15))
			} else if strconv.IsPrint(r) {
				b = append(b, s[i:i+n]...)
			} else if r < 0x10000 {
				b = append(b, '\\', 'u')
				for k := 12; k >= 0; k -= 4 {
					b = append(b, hexDigit(byte(r>>k)&15))
				}
			} else {
				b = append(b, '\\', 'U')
				for k := 28; k >= 0; k -= 4 {
					b = append(b, hexDigit(byte(r>>k)&15))
				}
			}
			i += n
			continue
		}
		i++
		esc := sym.And(c >= 7, c <= 13)
		switch {
		case sym.Or(esc, sym.Or(c == '"', c == '\\')):
			e := int(c)
			for k, x := range "abtnvfr" {
				e = sym.Ite(int(c) == 7+k, int(x), e)
			}
			b = append(b, '\\', byte(e))
		case sym.And(c >= ' ', c < 0x7f):
			b = append(b, c)
		default:
			b = append(b, '\\', 'x', hexDigit(c>>4), hexDigit(c&15))
		}
	}
	return string(append(b, '"'))
}

func hexDigit(n byte) byte {
	return byte(sym.Ite(n < 10, int(n)+'0', int(n)+'a'-10))
}
