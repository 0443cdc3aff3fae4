// Package hmeta holds the harnesses for torrent descriptions.
package hmeta

import (
	"bytes"
	"crypto/sha1"
	"strconv"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"verifharness/hben"
	"verifharness/sym"
)

func bs(s string) string { return strconv.Itoa(len(s)) + ":" + s }

// value is an arbitrary canonical value of n bytes.
func value(name string, n int) string {
	b := sym.Bytes(name, n)
	sym.Assume(hben.RefEnd(b, 0) == n)
	return string(b)
}

func unknown(name string) string {
	switch sym.Choose(name, 5) {
	case 0:
		return value(name+" int", 3)
	case 1:
		return "d1:xl" + bs(sym.String(name+" str", 2)) + "i-5eee"
	case 2:
		return bs(sym.String(name+" raw", 12))
	case 3:
		return "llelee"
	}
	return ""
}

// M01: the info dictionary anywhere in a torrent with unknown keys inside and outside of it.
func M01() {
	in := "d"
	if v := unknown("in first"); v != "" {
		in += bs("a") + v
	}
	in += bs("length") + "i" + string(sym.Digits("length", 1)) + "e" + bs("name") + bs(sym.String("name", 2))
	if sym.Choose("middle", 2) == 1 {
		in += bs("p") + "le"
	}
	in += bs("piece length") + "i16384e" + bs("pieces") + bs(sym.String("pieces", 20))
	if sym.Choose("last", 2) == 1 {
		in += bs("zz") + bs(sym.String("zz", 1))
	}
	in += "e"
	out := "d"
	if sym.Choose("announce", 2) == 1 {
		out += bs("announce") + bs(sym.String("announce", 1))
	}
	if v := unknown("out before"); v != "" {
		out += bs("in") + v
	}
	out += bs("info") + in
	if sym.Choose("after", 2) == 1 {
		out += bs("infp") + "d4:infod1:ai1eee"
	}
	out += "e"
	want := sha1.Sum([]byte(in))
	var m metainfo.Metainfo
	var i metainfo.Info
	if sym.Choose("reused", 2) == 1 {
		old := "d6:lengthi5e4:name1:o12:piece lengthi16384e6:pieces20:bbbbbbbbbbbbbbbbbbbbe"
		sym.Assert(bencode.Unmarshal([]byte("d4:info"+old+"e"), &m) == nil, "a torrent was rejected")
		sym.Assert(bencode.Unmarshal([]byte(old), &i) == nil && i.SHA1 == sha1.Sum([]byte(old)), "an info was rejected")
	}
	if sym.Choose("stream", 2) == 0 {
		sym.Assert(bencode.Unmarshal([]byte(out), &m) == nil, "a torrent was rejected")
	} else {
		sym.Assert(bencode.NewDecoder(bytes.NewReader([]byte(out))).Decode(&m) == nil, "a torrent was rejected")
	}
	sym.Assert(m.Info != nil && m.Info.SHA1 == want, "the info hash is not the SHA-1 of the info bytes")
	// an info on its own
	sym.Assert(bencode.Unmarshal([]byte(in), &i) == nil && i.SHA1 == want, "the info hash is not the SHA-1 of the info bytes")
	sym.Reach("hashed")
}

// M01Encoded: the hash of a description that was encoded here.
func M01Encoded() {
	m := meta()
	out, err := bencode.Marshal(m)
	sym.Assert(err == nil, "encoding failed")
	in, err := bencode.Marshal(m.Info)
	sym.Assert(err == nil, "encoding failed")
	var d metainfo.Metainfo
	sym.Assert(bencode.Unmarshal(out, &d) == nil, "decoding failed")
	sym.Assert(d.Info.SHA1 == sha1.Sum(in), "the info hash is not the SHA-1 of the info bytes")
	sym.Reach("encoded")
}

// M02: consistent descriptions with any lengths.
func M02() {
	n := 1 + sym.Choose("pieces", sym.Param("pieces", 4))
	pl := sym.IntRange("piece length", 1, 1<<31)
	last := sym.IntRange("last", 1, 1<<31)
	sym.Assume(last <= pl)
	total := int64(n-1)*int64(pl) + int64(last)
	i := &metainfo.Info{PieceLength: pl, Pieces: make(metainfo.Pieces, n), Name: "x"}
	if files := sym.Choose("files", sym.Param("files", 3)+1); files == 0 {
		i.Length = total
	} else {
		left := total
		for k := 0; k < files-1; k++ {
			l := sym.Int64("file")
			sym.Assume(l >= 0 && l <= left)
			left -= l
			i.Files = append(i.Files, &metainfo.File{Length: l, Path: []string{"p"}})
		}
		i.Files = append(i.Files, &metainfo.File{Length: left, Path: []string{"q"}})
	}
	sym.Assert(i.GetLength() == total, "the total length is not the sum of the lengths")
	var sum int64
	for k := 0; k < n; k++ {
		l := i.GetPieceLength(k)
		sym.Assert(l > 0, "a piece length is not positive")
		if k < n-1 {
			sym.Assert(l == pl, "an inner piece has not the nominal length")
		} else {
			sym.Assert(l <= pl, "the last piece is longer than nominal")
		}
		sum += int64(l)
	}
	sym.Assert(sum == total, "the pieces do not sum to the total length")
	sym.Reach("tiled")
}

func str(name string, max int) string { return sym.String(name, sym.Choose(name+" len", max+1)) }

// meta is an arbitrary description: one of its parts varies freely, the others take one shape.
func meta() *metainfo.Metainfo {
	part := sym.Choose("part", 4)
	choose := func(p int, name string, n int) int {
		if p == part || sym.Param("all", 0) == 1 {
			return sym.Choose(name, n)
		}
		return p % n
	}
	i := &metainfo.Info{PieceLength: sym.IntRange("piece length", 0, 9), Name: sym.String("name", 1)}
	for k := choose(0, "pieces", 3); k > 0; k-- {
		var h [20]byte
		copy(h[:], sym.Bytes("hash", 20))
		i.Pieces = append(i.Pieces, h)
	}
	switch choose(1, "mode", 4) {
	case 0:
		i.Length = sym.Int64("length")
		i.MD5Sum = sym.String("md5", 1)
	case 1:
		i.Files = []*metainfo.File{{Length: 5, Path: []string{str("path", 2)}, MD5Sum: str("fmd5", 1)}}
	case 2:
		i.Private = 1
		i.Files = []*metainfo.File{{Length: int64(sym.ByteIn("flen", 0, 9)), Path: []string{"a", sym.String("path", 1)}}, {Path: []string{}}}
	}
	m := &metainfo.Metainfo{Info: i, Announce: sym.String("announce", 1)}
	switch choose(2, "tiers", 3) {
	case 1:
		m.AnnounceList = [][]string{{str("t0", 1), "u"}}
	case 2:
		m.AnnounceList = [][]string{{"u"}, {}, {sym.String("t1", 1), ""}}
	}
	switch choose(3, "optional", 4) {
	case 1:
		m.CreationDate = &metainfo.Time{Time: time.Unix(sym.Int64("date"), 0)}
	case 2:
		m.Comment = sym.String("comment", 1)
	case 3:
		m.CreatedBy = sym.String("by", 1)
		m.Encoding = sym.String("encoding", 1)
	}
	return m
}

// M03Round: encode, decode, compare.
func M03Round() {
	m := meta()
	var out []byte
	var err error
	if sym.Choose("addr", 2) == 0 {
		out, err = bencode.Marshal(m)
	} else {
		out, err = bencode.Marshal(*m)
	}
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(hben.RefEnd(out, 0) == len(out), "the encoding is not one canonical value")
	var d metainfo.Metainfo
	sym.Assert(bencode.Unmarshal(out, &d) == nil, "decoding failed")
	sym.Assert(d.Announce == m.Announce && d.Comment == m.Comment && d.CreatedBy == m.CreatedBy && d.Encoding == m.Encoding, "a text changed")
	sym.Assert(len(d.AnnounceList) == len(m.AnnounceList), "tiers changed")
	for k, t := range m.AnnounceList {
		sym.Assert(len(d.AnnounceList[k]) == len(t), "a tier changed")
		for j, u := range t {
			sym.Assert(d.AnnounceList[k][j] == u, "a tracker changed")
		}
	}
	sym.Assert((d.CreationDate == nil) == (m.CreationDate == nil), "the date changed")
	if m.CreationDate != nil {
		sym.Assert(d.CreationDate.Unix() == m.CreationDate.Unix(), "the date changed")
	}
	sameInfo(d.Info, m.Info)
	// the info alone, by value
	in, err := bencode.Marshal(*m.Info)
	sym.Assert(err == nil, "encoding failed")
	var i metainfo.Info
	sym.Assert(bencode.Unmarshal(in, &i) == nil, "decoding failed")
	sameInfo(&i, m.Info)
	sym.Reach("roundtrip")
}

func sameInfo(d, m *metainfo.Info) {
	sym.Assert(d != nil && d.PieceLength == m.PieceLength && d.Name == m.Name && d.Private == m.Private && d.Length == m.Length && d.MD5Sum == m.MD5Sum, "the info changed")
	sym.Assert(len(d.Pieces) == len(m.Pieces), "the pieces changed")
	for k := range m.Pieces {
		sym.Assert(d.Pieces[k] == m.Pieces[k], "a piece hash changed")
	}
	sym.Assert(len(d.Files) == len(m.Files), "the files changed")
	for k, f := range m.Files {
		g := d.Files[k]
		sym.Assert(g.Length == f.Length && g.MD5Sum == f.MD5Sum && len(g.Path) == len(f.Path), "a file changed")
		for j := range f.Path {
			sym.Assert(g.Path[j] == f.Path[j], "a path changed")
		}
	}
}

// M03Bytes: arbitrary bytes, alone and at every place of a torrent.
func M03Bytes() {
	x := sym.Bytes("in", sym.Param("n", 4))
	info := "d4:name1:n12:piece lengthi1e6:pieces0:e"
	var err error
	switch k := sym.Choose("place", 16); k {
	case 0:
		err = bencode.Unmarshal(x, new(metainfo.Metainfo))
	case 1:
		err = bencode.Unmarshal(x, new(metainfo.Info))
	case 2:
		err = bencode.Unmarshal(x, new(metainfo.Pieces))
	case 3:
		err = bencode.Unmarshal(x, new(metainfo.Time))
	case 4:
		err = new(metainfo.Info).UnmarshalBencoding(x)
	case 5:
		err = new(metainfo.Pieces).UnmarshalBencoding(x)
	case 6:
		err = new(metainfo.Time).UnmarshalBencoding(x)
	default:
		t := [][2]string{
			{"d4:info", "e"},
			{"d4:infod6:pieces", "ee"},
			{"d4:infod12:piece length", "ee"},
			{"d4:infod5:files", "ee"},
			{"d4:infod5:filesld4:path", "eeee"},
			{"d13:announce-list", "4:info" + info + "e"},
			{"d13:creation date", "4:info" + info + "e"},
			{"d4:infod6:length", "4:name1:xee"},
			{"d4:info", ""},
		}[k-7]
		m := new(metainfo.Metainfo)
		err = bencode.Unmarshal(append(append([]byte(t[0]), x...), t[1]...), m)
		if err == nil && m.Info != nil {
			m.Info.GetLength()
		}
	}
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// M03Pieces: piece strings of any length up to a bound.
func M03Pieces() {
	n := sym.Choose("n", sym.Param("n", 61)+1)
	s := sym.String("s", n)
	var p metainfo.Pieces
	err := bencode.Unmarshal([]byte(bs(s)), &p)
	sym.Assert((err == nil) == (n%20 == 0), "a piece string of odd length was accepted, or a valid one rejected")
	if err == nil {
		sym.Assert(len(p) == n/20, "the number of pieces differs")
		for i := range p {
			sym.Assert(string(p[i][:]) == s[20*i:20*i+20], "a piece hash differs")
		}
		sym.Reach("pieces")
	}
}
