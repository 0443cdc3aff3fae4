seed("b01-uint-sign", "B01", [("bencode/encode.go", "strconv.FormatUint(i, 10)", "strconv.FormatInt(int64(i), 10)")], "bencode", '''
package bencode
import ("testing"; "math")
func TestDemo(t *testing.T) {
	for _, v := range []uint64{0, 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		b, err := Marshal(v)
		if err != nil { t.Fatal(err) }
		var w uint64
		if err := Unmarshal(b, &w); err != nil || w != v { t.Fatalf("%d -> %s -> %d, %v", v, b, w, err) }
	}
}
''', "an unsigned value of 2^63 or more", "such values are encoded as negative integers and do not decode to themselves")

seed("b03-map-key-order", "B03", [("bencode/encode.go", "		return strings.Compare(a.String(), b.String())\n	})\n	for _, key := range keys {", "		return strings.Compare(strings.ToLower(a.String()), strings.ToLower(b.String()))\n	})\n	for _, key := range keys {")], "bencode", '''
package bencode
import "testing"
func TestDemo(t *testing.T) {
	for range 50 {
		b, err := Marshal(map[string]int{"a": 1, "B": 2, "b": 3})
		if err != nil || string(b) != "d1:Bi2e1:ai1e1:bi3ee" { t.Fatalf("%s %v", b, err) }
	}
}
''', "dictionary keys of mixed case", "keys are ordered ignoring case, so the encoding is not canonical and not even deterministic")

seed("b05-raw-empty-string", "B05", [("bencode/decode.go", "	d.offset += n\n	if buf != nil {", "	d.offset += n\n	if buf != nil && n > 0 {")], "bencode", '''
package bencode
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"0:", "l0:e", "d0:i1ee", "d1:a0:e", "1:x"} {
		var v struct { R RawMessage }
		if err := Unmarshal([]byte("d1:r"+s+"e"), &v); err != nil || string(v.R) != s { t.Fatalf("%q %q %v", s, v.R, err) }
	}
}
''', "a captured value containing an empty string or an empty key", "raw messages and values given to custom unmarshalers lose empty strings")

seed("b07-private-buffer", "B07", [("bencode/decode.go", "	if br, ok := r.(*bufio.Reader); ok {\n		return &Decoder{Reader: br}\n	}\n	return &Decoder{Reader: bufio.NewReader(r)}", "	return &Decoder{Reader: bufio.NewReader(r)}")], "bencode", '''
package bencode
import ("testing"; "bufio"; "strings")
func TestDemo(t *testing.T) {
	for _, size := range []int{16, 100, 4096, 8192} {
		r := bufio.NewReaderSize(strings.NewReader("i1ei2ei3e"), size)
		for want := 1; want <= 3; want++ {
			var v int
			if err := NewDecoder(r).Decode(&v); err != nil || v != want { t.Fatalf("size %d: %d %v, want %d", size, v, err, want) }
		}
	}
}
''', "decoders created one after the other on the same bufio.Reader whose buffer is smaller than the default", "the first decoder reads ahead and the following values are lost")

seed("w02-reused-bitfield", "W02", [("api/peer/peer.go", "		m.bitfield = payload", "		m.bitfield = append(m.bitfield[:0], payload...)")], "api/peer", '''
package peer
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	var in bytes.Buffer
	Write(&in, Bitfield([]byte{1, 2, 3})); Write(&in, Bitfield([]byte{9, 8, 7}))
	var m Message
	if err := m.Decode(&in); err != nil { t.Fatal(err) }
	first := m.Bitfield()
	if err := m.Decode(&in); err != nil { t.Fatal(err) }
	if !bytes.Equal(first, []byte{1, 2, 3}) || !bytes.Equal(m.Bitfield(), []byte{9, 8, 7}) { t.Fatal(first, m.Bitfield()) }
}
''', "two bitfields decoded one after the other into the same message", "decoding the second changes the contents handed out for the first")

seed("w03-short-read", "W03", [("api/peer/peer.go", "	if _, err := io.ReadFull(r, data[1:]); err != nil {", "	if n, err := r.Read(data[1:]); err != nil || n < protocolLen {")], "api/peer", '''
package peer
import ("testing"; "bytes"; "io")
type chunks struct { r io.Reader; n int }
func (c *chunks) Read(p []byte) (int, error) { return c.r.Read(p[:min(len(p), c.n)]) }
func TestDemo(t *testing.T) {
	h := &Handshake{PeerID: [20]byte{19: 7}, InfoHash: [20]byte{0: 3}}
	b, _ := h.MarshalBinary()
	for _, n := range []int{1, 19, 20, 30, 67, 68} {
		g, err := ReadHandshake(&chunks{bytes.NewReader(b), n})
		if err != nil || *g != *h { t.Fatal(n, g, err) }
	}
	if _, err := ReadHandshake(bytes.NewReader(b[:40])); err == nil { t.Fatal("truncated handshake accepted") }
}
''', "a handshake that arrives in several pieces, the first holding at least the protocol name", "the missing part of hash and id is taken as zeros")

seed("w01-index-sign", "W01", [("api/peer/peer.go", "	case HAVE:\n		m.index = int(binary.BigEndian.Uint32(payload[0:4]))", "	case HAVE:\n		m.index = int(int32(binary.BigEndian.Uint32(payload[0:4])))")], "api/peer", '''
package peer
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	for _, i := range []int{0, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		var b bytes.Buffer
		Write(&b, Have(i))
		m, err := ReadMessage(&b)
		if err != nil || m.Index() != i { t.Fatal(i, m, err) }
	}
}
''', "a HAVE message with an index of 2^31 or more", "the index decodes to a negative number")

seed("m03-date-narrow", "M03", [("api/metainfo/metainfo.go", "	return bencode.Marshal(t.Unix())", "	return bencode.Marshal(int32(t.Unix()))")], "api/metainfo", '''
package metainfo
import ("testing"; "time"; "github.com/browles/drip/bencode")
func TestDemo(t *testing.T) {
	for _, s := range []int64{0, 1, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 40} {
		b, err := bencode.Marshal(&Metainfo{CreationDate: &Time{time.Unix(s, 0)}})
		if err != nil { t.Fatal(err) }
		var m Metainfo
		if err := bencode.Unmarshal(b, &m); err != nil || m.CreationDate.Unix() != s { t.Fatal(s, m.CreationDate, err) }
	}
}
''', "a creation date after January 2038", "the date wraps around to 1901")

seed("t01-negative-left", "T01", [("api/tracker/tracker.go", "			i, err := strconv.ParseInt(v, 10, 64)", "			i, err := strconv.ParseInt(v, 10, ifelse(f.key == \"left\", 32, 64))")], "api/tracker", '''
package tracker
import "testing"
func TestDemo(t *testing.T) {
	for _, l := range []int64{0, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 40} {
		r := Request{Left: l, Port: 1}
		var d Request
		if err := d.Decode(r.Encode()); err != nil || d.Left != l { t.Fatal(l, d.Left, err) }
	}
}
''', "an announce with 2 GiB or more left", "such announces cannot be decoded")

seed("t02-mapped-address", "T02", [("api/tracker/tracker.go", "		ip := net.IPv4(compact[i], compact[i+1], compact[i+2], compact[i+3])\n		port := binary.BigEndian.Uint16([]byte(compact[i+4 : i+6]))", "		ip := net.IPv4(compact[i], compact[i+1], compact[i+2], compact[i+3])\n		port := int16(binary.BigEndian.Uint16([]byte(compact[i+4 : i+6])))")], "api/tracker", '''
package tracker
import ("testing"; "github.com/browles/drip/bencode")
func TestDemo(t *testing.T) {
	for _, port := range []int{0, 80, 32767, 32768, 51413, 65535} {
		b, err := bencode.Marshal(&Peers{Compact: true, List: []*Peer{{IP: "1.2.3.4", Port: port}}})
		if err != nil { t.Fatal(err) }
		var p Peers
		if err := bencode.Unmarshal(b, &p); err != nil || p.List[0].Port != port { t.Fatal(port, p.List[0], err) }
	}
}
''', "a compact peer list with a port above 32767", "the port decodes to a negative number")

seed("g01-first-tracker", "G01", [("api/magnet/magnet.go", "		Trackers:   query[\"tr\"],\n		WebSeed:    query.Get(\"ws\"),\n		Peers:      query[\"x.pe\"],\n	}", "		Trackers:   query[\"tr\"],\n		WebSeed:    query.Get(\"ws\"),\n	}\n	for _, p := range query[\"x.pe\"] {\n		if len(ma.Peers) == 0 || ma.Peers[0] != p {\n			ma.Peers = append(ma.Peers, p)\n		}\n	}")], "api/magnet", '''
package magnet
import ("testing"; "reflect")
func TestDemo(t *testing.T) {
	m, err := ParseMagnetURL("magnet:?xt=a&x.pe=1&x.pe=2&x.pe=1&x.pe=1")
	if err != nil || !reflect.DeepEqual(m.Peers, []string{"1", "2", "1", "1"}) { t.Fatal(m, err) }
	m, err = ParseMagnetURL("magnet:?xt=a&x.pe=1&x.pe=2")
	if err != nil || !reflect.DeepEqual(m.Peers, []string{"1", "2"}) { t.Fatal(m, err) }
}
''', "a link that lists its first peer twice", "the list of peers differs from the link's")

seed("b02-underscore", "B02", [("bencode/decode.go", "	_, err = strconv.ParseInt(intStr, 10, 64)\n", "	_, err = strconv.ParseInt(intStr, 0, 64)\n")], "bencode", '''
package bencode
import "testing"
func TestDemo(t *testing.T) {
	for _, s := range []string{"i1_0e", "li1_0ee", "i-1_0e"} {
		var r RawMessage
		if Unmarshal([]byte(s), &r) == nil { t.Fatalf("%s captured", s) }
		var v struct{}
		if Unmarshal([]byte("d1:x"+s+"e"), &v) == nil { t.Fatalf("%s skipped", s) }
	}
}
''', "an integer with an underscore between digits, captured raw or under an unknown key", "texts that are not integers are accepted as values")

seed("b06-second-option", "B06", [("bencode/encode.go", "	for rest != \"\" {\n		opt, rest, _ = strings.Cut(rest, \",\")\n", "	if rest != \"\" {\n		opt, _, _ = strings.Cut(rest, \",\")\n"), ("bencode/encode.go", "			omitempty = true\n			break\n", "			omitempty = true\n")], "bencode", '''
package bencode
import "testing"
func TestDemo(t *testing.T) {
	b, err := Marshal(struct { A int `bencode:"a,x,omitempty"`; B int `bencode:"b,omitempty,y"`; C int }{})
	if err != nil || string(b) != "d1:ci0ee" { t.Fatalf("%s %v", b, err) }
}
''', "a tag that has another option before omitempty", "the option is ignored and empty fields are encoded")

seed("f01-add-twice", "F01", [("bitfield/bitfield.go", "	b[bi] |= 1 << bj", "	b[bi] += 1 << bj")], "bitfield", '''
package bitfield
import "testing"
func TestDemo(t *testing.T) {
	b := New(16)
	b.Add(3); b.Add(9); b.Add(3)
	for i := range 16 { if b.Has(i) != (i == 3 || i == 9) { t.Fatal(i, b) } }
}
''', "adding a member that is already there", "the member vanishes and others appear")

seed("m01-stale-hash", "M01", [("api/metainfo/metainfo.go", "	*i = Info(*cpy)\n	i.SHA1 = sha1.Sum(data)\n", "	if cpy.SHA1 = i.SHA1; cpy.SHA1 == [20]byte{} {\n		cpy.SHA1 = sha1.Sum(data)\n	}\n	*i = Info(*cpy)\n")], "api/metainfo", '''
package metainfo
import ("testing"; "crypto/sha1"; "github.com/browles/drip/bencode")
func TestDemo(t *testing.T) {
	var m Metainfo
	for _, info := range []string{
		"d6:lengthi1e4:name1:a12:piece lengthi1e6:pieces20:aaaaaaaaaaaaaaaaaaaae",
		"d6:lengthi1e4:name1:b12:piece lengthi1e6:pieces20:aaaaaaaaaaaaaaaaaaaae",
	} {
		if err := bencode.Unmarshal([]byte("d8:announce1:x4:info"+info+"e"), &m); err != nil { t.Fatal(err) }
		if m.Info.SHA1 != sha1.Sum([]byte(info)) { t.Fatal(info) }
	}
}
''', "two torrent files decoded one after the other into the same Metainfo", "the second keeps the info hash of the first")

seed("m02-narrow-offset", "M02", [("api/metainfo/metainfo.go", "int64(index)*int64(i.PieceLength))", "int64(int32(index)*int32(i.PieceLength)))")], "api/metainfo", '''
package metainfo
import "testing"
func TestDemo(t *testing.T) {
	for _, l := range []int64{1, 1 << 20, 1<<31 + 5, 1<<33 + 1, 3 << 32} {
		const pl = 1 << 20
		i := &Info{PieceLength: pl, Length: l, Pieces: make(Pieces, (l+pl-1)/pl)}
		var sum int64
		for p := range i.Pieces { sum += int64(i.GetPieceLength(p)) }
		if sum != l { t.Fatal(l, sum) }
	}
}
''', "a torrent of more than 2 GiB", "the length of its last piece is wrong")
