package hben

import (
	"bytes"
	"errors"
	"io"

	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/bitfield"
	"verifharness/sym"
)

var errFull = errors.New("no space left")

// full takes room bytes, then fails.
type full struct {
	got  []byte
	room int
	part bool // the failing write stores what fits
	bad  bool
}

func (w *full) Write(p []byte) (int, error) {
	if w.bad {
		return 0, errFull
	}
	if len(p) > w.room {
		n := 0
		if w.part {
			n = w.room
		}
		w.got = append(w.got, p[:n]...)
		w.room -= n
		w.bad = true
		return n, errFull
	}
	w.got = append(w.got, p...)
	w.room -= len(p)
	return len(p), nil
}

type b10Inner struct {
	A uint16
	B *string
	R bencode.RawMessage `bencode:"raw"`
}

type b10Custom struct{ b []byte }

func (c *b10Custom) MarshalBencoding() ([]byte, error) { return c.b, nil }

// check encodes into a destination with any room up to the length of the encoding want.
func (w *full) check(want []byte, encode func(io.Writer) error) {
	w.room = sym.Choose("room", len(want)+1)
	w.part = sym.Choose("part", 2) == 1
	enough := w.room == len(want)
	err := encode(w)
	sym.Assert(enough == (err == nil), "a failing destination gives no error, or a working one does")
	if err == nil {
		sym.Assert(sym.EqBytes(w.got, want), "something else than the encoding was written")
		sym.Reach("written")
	} else {
		sym.Assert(len(w.got) <= len(want) && sym.EqBytes(w.got, want[:len(w.got)]), "what was written is not the beginning of the encoding")
		sym.Reach("failed")
	}
}

// B10: values of each kind.
func B10() {
	s := sym.String("s", 2)
	var v any
	switch sym.Choose("value", 8) {
	case 0:
		v = s
	case 1:
		v = []byte(s)
	case 2:
		v = int(sym.Int8("i"))
	case 3:
		v = sym.Byte("u")
	case 4:
		v = []any{s, []string{"", s}, [2]int{1, -1}}
	case 5:
		v = map[string]any{"a": s, "b": map[string]int{"": 3}}
	case 6:
		v = &b10Inner{7, &s, bencode.RawMessage("le")}
	case 7:
		v = []any{&b10Custom{[]byte("2:" + s)}, 1}
	}
	want, err := bencode.Marshal(v)
	sym.Assert(err == nil, "encoding a supported value failed")
	w := &full{}
	e := bencode.NewEncoder(w)
	w.check(want, func(io.Writer) error { return e.Encode(v) })
	*w = full{room: len(want)}
	sym.Assert(e.Encode(v) == nil && sym.EqBytes(w.got, want), "an encoder is broken after its destination failed")
}

// B10Peer: peer messages and handshakes.
func B10Peer() {
	type message interface{ Encode(io.Writer) error }
	i, j, k := int(sym.Byte("i")), int(sym.Uint16("j")), int(sym.Byte("k"))
	d := sym.Bytes("data", sym.Choose("len", 3))
	var m message
	switch sym.Choose("type", 8) {
	case 0:
		m = peer.Keepalive()
	case 1:
		m = peer.Unchoke()
	case 2:
		m = peer.Have(i)
	case 3:
		m = peer.Bitfield(bitfield.Bitfield(d))
	case 4:
		m = peer.Request(i, j, k)
	case 5:
		m = peer.Piece(i, j, d)
	case 6:
		m = peer.Cancel(i, j, k)
	case 7:
		m = &peer.Handshake{InfoHash: [20]byte{byte(i)}, PeerID: [20]byte{19: byte(k)}}
	}
	var b bytes.Buffer
	sym.Assert(m.Encode(&b) == nil, "a message cannot be encoded")
	w := &full{}
	w.check(b.Bytes(), func(w io.Writer) error { return peer.Write(w, m) })
}
