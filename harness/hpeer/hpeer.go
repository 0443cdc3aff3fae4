// Package hpeer holds the harnesses for peer messages and handshakes.
package hpeer

import (
	"bytes"
	"io"

	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bitfield"
	"verifharness/sym"
)

// cuts returns its data in up to left+1 reads, split anywhere, with up to zero empty reads.
type cuts struct {
	data []byte
	left int
	zero int
	eof  bool
}

func (c *cuts) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.zero > 0 {
		c.zero--
		if sym.Choose("empty", 2) == 1 {
			return 0, nil
		}
	}
	n := min(len(p), len(c.data))
	if c.left > 0 && n > 1 {
		c.left--
		n = 1 + sym.Choose("cut", n)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eof {
		return n, io.EOF
	}
	return n, nil
}

func be32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func frame(typ byte, fields []uint32, payload []byte) []byte {
	b := be32(nil, uint32(1+4*len(fields)+len(payload)))
	b = append(b, typ)
	for _, f := range fields {
		b = be32(b, f)
	}
	return append(b, payload...)
}

// W01: every message of every type.
func W01() {
	i, o, l := sym.Uint32("index"), sym.Uint32("begin"), sym.Uint32("length")
	var pay []byte
	sizes := []int{0, 1, 2, 5, 13}
	payload := func() []byte {
		pay = sym.Bytes("payload", sizes[sym.Choose("size", len(sizes))])
		return append([]byte(nil), pay...)
	}
	var m *peer.Message
	var want []byte
	k := sym.Choose("type", 10)
	switch k {
	case 0:
		m, want = peer.Keepalive(), []byte{0, 0, 0, 0}
	case 1:
		m, want = peer.Choke(), frame(0, nil, nil)
	case 2:
		m, want = peer.Unchoke(), frame(1, nil, nil)
	case 3:
		m, want = peer.Interested(), frame(2, nil, nil)
	case 4:
		m, want = peer.NotInterested(), frame(3, nil, nil)
	case 5:
		m, want = peer.Have(int(i)), frame(4, []uint32{i}, nil)
	case 6:
		m = peer.Bitfield(bitfield.Bitfield(payload()))
		want = frame(5, nil, pay)
	case 7:
		m, want = peer.Request(int(i), int(o), int(l)), frame(6, []uint32{i, o, l}, nil)
	case 8:
		m = peer.Piece(int(i), int(o), payload())
		want = frame(7, []uint32{i, o}, pay)
	case 9:
		m, want = peer.Cancel(int(i), int(o), int(l)), frame(8, []uint32{i, o, l}, nil)
	}
	got, err := m.MarshalBinary()
	sym.Assert(err == nil && sym.EqBytes(got, want), "the encoded message is not its BEP 3 frame")
	var w bytes.Buffer
	sym.Assert(peer.Write(&w, m) == nil && sym.EqBytes(w.Bytes(), want), "the written message is not its BEP 3 frame")
	d, err := peer.ReadMessage(&cuts{data: append(append([]byte(nil), want...), 9, 9), left: 1})
	sym.Assert(err == nil, "an encoded message cannot be decoded")
	same(d, m, k, int(i), int(o), int(l), pay)
	// into a used message
	u := peer.Piece(7, 7, []byte("stale"))
	sym.Assert(u.UnmarshalBinary(want) == nil, "an encoded message cannot be decoded")
	same(u, m, k, int(i), int(o), int(l), pay)
	sym.Reach("roundtrip")
}

func same(d, m *peer.Message, k, i, o, l int, pay []byte) {
	sym.Assert(d.Type == m.Type, "the type changed")
	switch k {
	case 5:
		sym.Assert(d.Index() == i, "the index changed")
	case 6:
		sym.Assert(sym.EqBytes(d.Bitfield(), pay), "the bitfield changed")
	case 7, 9:
		sym.Assert(sym.And(d.Index() == i, sym.And(d.Begin() == o, d.Length() == l)), "the fields changed")
	case 8:
		sym.Assert(sym.And(d.Index() == i, d.Begin() == o), "the fields changed")
		sym.Assert(sym.EqBytes(d.Piece(), pay), "the data changed")
	}
}

// ref says whether b starts with a well-formed frame and where it ends.
func ref(b []byte) (ok bool, end int) {
	if len(b) < 4 {
		return false, 0
	}
	n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	if n > len(b)-4 {
		return false, 0
	}
	if n == 0 {
		return true, 4
	}
	p := n - 1
	switch b[4] {
	case 0, 1, 2, 3:
		ok = p == 0
	case 4:
		ok = p == 4
	case 5:
		ok = true
	case 6, 8:
		ok = p == 12
	case 7:
		ok = p >= 8
	}
	return ok, 4 + n
}

// W02: arbitrary streams.
func W02() {
	n := sym.Choose("n", sym.Param("n", 20)+1)
	stream(sym.Bytes("in", n), sym.Param("cuts", 0), 0)
}

// W02Split: shorter streams, split anywhere.
func W02Split() {
	n := sym.Choose("n", sym.Param("n", 18)+1)
	stream(sym.Bytes("in", n), sym.Param("cuts", 1), sym.Param("zero", 1))
}

func stream(b []byte, left, zero int) {
	r := &cuts{data: append([]byte(nil), b...), left: left, zero: zero, eof: sym.Choose("eof", 2) == 1}
	m, err := peer.ReadMessage(r)
	ok, end := ref(b)
	sym.Assert((err == nil) == ok, "a malformed or truncated frame was accepted, or a well-formed one rejected")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(r.data) == len(b)-end, "reading a message did not consume exactly its frame")
	out, err := m.MarshalBinary()
	sym.Assert(err == nil && sym.EqBytes(out, b[:end]), "a message read does not encode to the bytes it was read from")
	if end == 4 {
		sym.Assert(m.Type == peer.KEEPALIVE, "an empty frame is not a keepalive")
		sym.Reach("keepalive")
	}
	m.LogValue()
	sym.Reach("accepted")
}

// W02Again: messages of a concatenation are read one after the other, into the same variable.
func W02Again() {
	i, o := sym.Uint32("index"), sym.Uint32("begin")
	pay, pay2 := sym.Bytes("payload", 3), []byte{9, 8, 7}
	fs := [][]byte{frame(4, []uint32{i}, nil), frame(7, []uint32{i, o}, pay), {0, 0, 0, 0}, frame(5, nil, pay2), frame(5, nil, pay), frame(6, []uint32{i, o, 5}, nil), frame(1, nil, nil)}
	x, y, z := fs[sym.Choose("first", len(fs))], fs[sym.Choose("second", len(fs))], fs[sym.Choose("third", len(fs))]
	all := append(append(append([]byte(nil), x...), y...), z...)
	r := &cuts{data: all, left: 1}
	var m peer.Message
	var old, was [][]byte // contents handed out for earlier messages
	for _, f := range [][]byte{x, y, z} {
		sym.Assert(m.Decode(r) == nil, "a message of a concatenation was rejected")
		out, err := m.MarshalBinary()
		sym.Assert(err == nil && sym.EqBytes(out, f), "a message of a concatenation changed")
		switch m.Type {
		case peer.PIECE:
			old, was = append(old, m.Piece()), append(was, bytes.Clone(m.Piece()))
		case peer.BITFIELD:
			old, was = append(old, m.Bitfield()), append(was, bytes.Clone(m.Bitfield()))
		}
	}
	for i, o := range old {
		sym.Assert(sym.EqBytes(o, was[i]), "the contents of an earlier message changed")
	}
	sym.Assert(m.Decode(r) == io.EOF, "the end of the stream is not reported")
	sym.Reach("concatenation")
}

const proto = "\x13BitTorrent protocol"

// W03Round: all hashes and ids.
func W03Round() {
	var h peer.Handshake
	copy(h.InfoHash[:], sym.Bytes("hash", 20))
	copy(h.PeerID[:], sym.Bytes("id", 20))
	var want []byte
	want = append(want, proto...)
	want = append(want, make([]byte, 8)...)
	want = append(want, h.InfoHash[:]...)
	want = append(want, h.PeerID[:]...)
	got, err := h.MarshalBinary()
	sym.Assert(err == nil && len(got) == 68 && sym.EqBytes(got, want), "the encoded handshake has not the BEP 3 layout")
	var w bytes.Buffer
	sym.Assert(peer.Write(&w, &h) == nil && sym.EqBytes(w.Bytes(), want), "the written handshake has not the BEP 3 layout")
	in := append([]byte(nil), want...)
	copy(in[20:28], sym.Bytes("reserved", 8))
	in = append(in, sym.Bytes("rest", 2)...)
	r := &cuts{data: in, left: sym.Param("cuts", 2), zero: sym.Param("zero", 1)}
	d, err := peer.ReadHandshake(r)
	sym.Assert(err == nil, "a valid handshake was refused")
	sym.Assert(d.InfoHash == h.InfoHash && d.PeerID == h.PeerID, "the handshake changed")
	sym.Assert(len(r.data) == 2, "reading a handshake did not consume exactly 68 bytes")
	sym.Reach("roundtrip")
}

// W03Foreign: arbitrary bytes, and valid handshakes with some bytes replaced.
func W03Foreign() {
	b := append([]byte(proto), sym.Bytes("rest", 48)...)
	if sym.Choose("kind", 2) == 0 {
		b = sym.Bytes("in", 68)
	} else {
		at := sym.Choose("at", 20)
		b[at] = sym.Byte("other")
	}
	b = b[:sym.Choose("len", len(b)+1)]
	good := len(b) == 68 && sym.EqBytes(b[:20], []byte(proto))
	r := &cuts{data: append([]byte(nil), b...)}
	d, err := peer.ReadHandshake(r)
	sym.Assert((err == nil) == good, "a foreign or short handshake was accepted, or a valid one refused")
	if err == nil {
		sym.Assert(sym.EqBytes(d.InfoHash[:], b[28:48]) && sym.EqBytes(d.PeerID[:], b[48:68]), "the handshake changed")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}
