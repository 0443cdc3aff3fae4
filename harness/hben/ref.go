// Package hben holds the harnesses for the bencode package.
package hben

// Reference reader of canonical bencoding, written from the specification:
// it returns the end of the value starting at i, or -1.

func isDig(c byte) bool { return c >= '0' && c <= '9' }

// refStr returns the bounds of a string's content.
func refStr(b []byte, i int) (start, end int) {
	if i >= len(b) || !isDig(b[i]) {
		return -1, -1
	}
	n := 0
	j := i
	for j < len(b) && isDig(b[j]) {
		if j > i && b[i] == '0' {
			return -1, -1 // leading zero
		}
		if n > 1<<40 {
			return -1, -1
		}
		n = n*10 + int(b[j]-'0')
		j++
	}
	if j >= len(b) || b[j] != ':' {
		return -1, -1
	}
	j++
	if n > len(b)-j {
		return -1, -1
	}
	return j, j + n
}

// refInt parses "i<dec>e" at i: sign, magnitude and the end, or end=-1.
func refInt(b []byte, i int) (neg bool, mag uint64, end int) {
	if i >= len(b) || b[i] != 'i' {
		return false, 0, -1
	}
	j := i + 1
	if j < len(b) && b[j] == '-' {
		neg = true
		j++
	}
	st := j
	for j < len(b) && isDig(b[j]) {
		d := uint64(b[j] - '0')
		if mag > (1<<64-1)/10 {
			return false, 0, -1
		}
		mag *= 10
		if mag+d < mag {
			return false, 0, -1
		}
		mag += d
		j++
	}
	if j == st || j >= len(b) || b[j] != 'e' {
		return false, 0, -1
	}
	if b[st] == '0' && (j-st > 1 || neg) {
		return false, 0, -1
	}
	return neg, mag, j + 1
}

func lessBytes(a, b []byte) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// refEnd returns the end of the canonical value at i whose integers fit 64 signed bits, or -1.
func refEnd(b []byte, i int) int {
	if i >= len(b) {
		return -1
	}
	switch c := b[i]; {
	case c == 'i':
		neg, mag, e := refInt(b, i)
		if e < 0 {
			return -1
		}
		if neg && mag > 1<<63 || !neg && mag > 1<<63-1 {
			return -1
		}
		return e
	case c == 'l':
		i++
		for {
			if i >= len(b) {
				return -1
			}
			if b[i] == 'e' {
				return i + 1
			}
			if i = refEnd(b, i); i < 0 {
				return -1
			}
		}
	case c == 'd':
		i++
		first := true
		var last []byte
		for {
			if i >= len(b) {
				return -1
			}
			if b[i] == 'e' {
				return i + 1
			}
			s, e := refStr(b, i)
			if e < 0 {
				return -1
			}
			if !first && !lessBytes(last, b[s:e]) {
				return -1
			}
			first = false
			last = b[s:e]
			if i = refEnd(b, e); i < 0 {
				return -1
			}
		}
	}
	_, e := refStr(b, i)
	return e
}

// refMatches reports whether v is the generic value the canonical bytes at i denote.
func refMatches(b []byte, i int, v any) (bool, int) {
	switch c := b[i]; {
	case c == 'i':
		neg, mag, e := refInt(b, i)
		n := int64(mag)
		if neg {
			n = -n
		}
		switch x := v.(type) {
		case int:
			return int64(x) == n, e
		case int64:
			return x == n, e
		}
		return false, e
	case c == 'l':
		xs, ok := v.([]any)
		if !ok {
			return false, -1
		}
		i++
		k := 0
		for b[i] != 'e' {
			if k >= len(xs) {
				return false, -1
			}
			ok, j := refMatches(b, i, xs[k])
			if !ok {
				return false, -1
			}
			k++
			i = j
		}
		return k == len(xs), i + 1
	case c == 'd':
		m, ok := v.(map[string]any)
		if !ok {
			return false, -1
		}
		i++
		k := 0
		for b[i] != 'e' {
			s, e := refStr(b, i)
			x, ok := m[string(b[s:e])]
			if !ok {
				return false, -1
			}
			ok, j := refMatches(b, e, x)
			if !ok {
				return false, -1
			}
			k++
			i = j
		}
		return k == len(m), i + 1
	}
	s, e := refStr(b, i)
	switch x := v.(type) {
	case string:
		return x == string(b[s:e]), e
	case []byte:
		return string(x) == string(b[s:e]), e
	}
	return false, e
}

// RefEnd returns the end of the canonical value at i, or -1.
func RefEnd(b []byte, i int) int { return refEnd(b, i) }
