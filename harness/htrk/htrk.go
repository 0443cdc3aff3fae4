// Package htrk holds the harnesses for tracker requests and answers.
package htrk

import (
	"strconv"

	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"
	"verifharness/hben"
	"verifharness/sym"
)

func bs(s string) string { return strconv.Itoa(len(s)) + ":" + s }

func str(name string, max int) string { return sym.String(name, sym.Choose(name+" len", max+1)) }

// hash is a 20-byte string with some arbitrary bytes.
func hash(name string, free int) (h [20]byte) {
	copy(h[:], "\x00 +%&=;/?#az\xff\x80-_.~A")
	if free > 0 {
		at := sym.Choose(name+" at", 21-free)
		copy(h[at:], sym.Bytes(name, free))
	}
	return
}

// T01: announce requests; one part is arbitrary, the others take one shape.
func T01() {
	n := sym.Param("free", 1)
	r := &tracker.Request{InfoHash: hash("hash", 0), PeerID: hash("id", 0), IP: "1.2.3.4", Port: 6881, Uploaded: -1, Downloaded: 1 << 40, Event: "started"}
	part := sym.Param("part", -1)
	if part < 0 {
		part = sym.Choose("part", 9)
	}
	switch part {
	case 0:
		r.InfoHash = hash("hash", n)
	case 1:
		r.PeerID = hash("id", n)
	case 2:
		r.IP = str("ip", n)
	case 3:
		r.Event = str("event", n)
	case 4:
		r.Port = sym.Int("port")
	case 5:
		r.Uploaded = sym.Int64("uploaded")
	case 6:
		r.Downloaded = sym.Int64("downloaded")
	case 7:
		r.Left = sym.Int64("left")
	case 8:
		r.IP, r.Event = "", ""
		r.Port, r.Uploaded, r.Downloaded = 0, 0, 0
		r.InfoHash, r.PeerID = [20]byte{}, [20]byte{}
	}
	r.Compact = sym.Bool("compact")
	q := r.Encode()
	var d tracker.Request
	sym.Assert(d.Decode(q) == nil, "an encoded request cannot be decoded")
	sym.Assert(d.InfoHash == r.InfoHash && d.PeerID == r.PeerID, "a hash or id changed")
	sym.Assert(d.IP == r.IP && d.Event == r.Event, "a text changed")
	sym.Assert(d.Port == r.Port && d.Uploaded == r.Uploaded && d.Downloaded == r.Downloaded && d.Left == r.Left, "a number changed")
	sym.Assert(d.Compact == r.Compact, "the compact flag changed")
	sym.Reach("roundtrip")
}

// T01Query: arbitrary query strings.
func T01Query() {
	pre := []string{"", "info_hash=", "peer_id=abc&peer_id=", "ip=", "port=", "uploaded=1&left=", "compact=", "event=%"}
	k := sym.Choose("prefix", len(pre))
	x := sym.String("in", sym.Param("n", 3))
	var d tracker.Request
	err := d.Decode(pre[k] + x)
	if err == nil {
		sym.Reach("decoded")
	} else {
		sym.Reach("rejected")
	}
}

// dotted decimal of four bytes
func ip4(b []byte) string {
	s := ""
	for i, c := range b {
		if i > 0 {
			s += "."
		}
		s += strconv.Itoa(int(c))
	}
	return s
}

// T02Compact: compact strings of every length up to a bound.
func T02Compact() {
	n := sym.Choose("n", sym.Param("n", 13)+1)
	raw := make([]byte, n)
	copy(raw, "\x01\x02\x03\x04\x00\x50\xff\x00\x0a\x63\xff\xff\x64")
	// some of the bytes are arbitrary
	free := min(n, sym.Param("free", 2))
	at := 0
	if n > free {
		at = sym.Choose("at", n-free+1)
	}
	copy(raw[at:], sym.Bytes("raw", free))
	var p tracker.Peers
	p.Compact = sym.Choose("stale", 2) == 1
	err := bencode.Unmarshal([]byte(bs(string(raw))), &p)
	sym.Assert((err == nil) == (n%6 == 0), "a compact list of odd length was accepted, or a valid one rejected")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(p.Compact && len(p.List) == n/6, "the number of peers differs")
	for i, q := range p.List {
		b := raw[6*i:]
		sym.Assert(q.Port == int(b[4])<<8|int(b[5]), "a port differs")
		sym.Assert(q.IP == ip4(b[:4]), "an address differs")
	}
	if n <= sym.Param("reencode", 12) {
		out, err := bencode.Marshal(&p)
		sym.Assert(err == nil && string(out) == bs(string(raw)), "the list does not encode to the bytes it was read from")
	}
	sym.Reach("decoded")
}

// T02Dicts: lists of dictionaries of every shape.
func T02Dicts() {
	in := "l"
	bad := false
	n := sym.Choose("peers", sym.Param("peers", 2)+1)
	var want []tracker.Peer
	shapes := func(name string) (string, int) {
		switch k := sym.Choose(name, 5); k {
		case 1:
			return bs(sym.String(name+" str", 1)), k
		case 2:
			return "i" + strconv.Itoa(sym.IntRange(name+" int", -9, 99)) + "e", k
		case 3:
			return "le", k
		case 4:
			return "de", k
		}
		return "", 0
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			// the other peers vary less
			switch sym.Choose("other", 4) {
			case 0:
				in += "d2:ip1:x4:porti7ee"
				want = append(want, tracker.Peer{IP: "x", Port: 7})
			case 1:
				in += "i5e"
				bad = true
			case 2:
				in += "0:"
				bad = true
			case 3:
				in += "le"
				bad = true
			}
			continue
		}
		in += "d"
		ip, ki := shapes("ip")
		id, kd := shapes("id")
		port, kp := shapes("port")
		if ki != 0 {
			in += bs("ip") + ip
		}
		if kd != 0 {
			in += bs("peer id") + id
		}
		if kp != 0 {
			in += bs("port") + port
		}
		if sym.Choose("extra", 2) == 1 {
			in += bs("x") + "i1e"
		}
		in += "e"
		if ki != 1 || kd > 1 || kp != 2 {
			bad = true
			continue
		}
		w := tracker.Peer{IP: ip[2:]}
		if kd == 1 {
			w.ID = id[2:]
		}
		w.Port, _ = strconv.Atoi(port[1 : len(port)-1])
		want = append(want, w)
	}
	in += "e"
	var p tracker.Peers
	p.Compact = sym.Choose("stale", 2) == 1
	err := bencode.Unmarshal([]byte(in), &p)
	sym.Assert((err != nil) == bad, "a malformed peer list was accepted, or a valid one rejected")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(!p.Compact && len(p.List) == len(want), "the number of peers differs")
	for i, w := range want {
		sym.Assert(p.List[i].ID == w.ID && p.List[i].IP == w.IP && p.List[i].Port == w.Port, "a peer differs")
	}
	sym.Reach("decoded")
}

// T02Bytes: arbitrary bytes as peers.
func T02Bytes() {
	x := sym.Bytes("in", sym.Param("n", 5))
	var p tracker.Peers
	var err error
	switch sym.Choose("place", 4) {
	case 0:
		err = bencode.Unmarshal(x, &p)
	case 1:
		var r tracker.Response
		err = bencode.Unmarshal(append(append([]byte("d5:peers"), x...), 'e'), &r)
	case 2:
		err = bencode.Unmarshal(append(append([]byte("l"), x...), 'e'), &p)
	case 3:
		err = bencode.Unmarshal(append(append([]byte("ld2:ip1:a4:port"), x...), "ee"...), &p)
	}
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// T02Encode: compact encoding refuses what does not fit, the other form takes everything.
func T02Encode() {
	ips := []struct {
		ip string
		b  string
	}{{"1.2.3.4", "\x01\x02\x03\x04"}, {"255.0.10.100", "\xff\x00\x0a\x64"}, {"::1", ""}, {"", ""}, {"x", ""}, {"1.2.3", ""}, {"256.1.1.1", ""}, {"1.2.3.4.5", ""},
		{"fe80::1:2", ""}, {"1.2.3.4:5", ""}, {" 1.2.3.4", ""}}
	k := ips[sym.Choose("ip", len(ips))]
	q := &tracker.Peer{ID: sym.String("id", 2), IP: k.ip, Port: sym.Int("port")}
	p := &tracker.Peers{Compact: sym.Choose("compact", 2) == 1, List: []*tracker.Peer{q}}
	first := sym.Choose("first", 2) == 1
	if first {
		p.List = []*tracker.Peer{{IP: "9.8.7.6", Port: 5}, q}
	}
	out, err := bencode.Marshal(p)
	if p.Compact {
		fits := k.b != "" && q.Port >= 0 && q.Port <= 65535
		sym.Assert((err == nil) == fits, "a peer that does not fit was encoded compactly, or one that fits was refused")
		if err != nil {
			sym.Reach("refused")
			return
		}
		want := k.b + string([]byte{byte(q.Port >> 8), byte(q.Port)})
		if first {
			want = "\x09\x08\x07\x06\x00\x05" + want
		}
		sym.Assert(string(out) == bs(want), "the compact encoding differs")
		sym.Reach("compact")
		return
	}
	sym.Assert(err == nil, "a peer list was refused")
	var d tracker.Peers
	sym.Assert(bencode.Unmarshal(out, &d) == nil && !d.Compact && len(d.List) == len(p.List), "the encoded list cannot be decoded")
	l := d.List[len(d.List)-1]
	sym.Assert(l.ID == q.ID && l.IP == q.IP && l.Port == q.Port, "a peer changed")
	sym.Reach("dictionaries")
}

// T02Empty: empty lists and whole answers are well-formed.
func T02Empty() {
	p := tracker.Peers{Compact: sym.Choose("compact", 2) == 1}
	switch sym.Choose("list", 3) {
	case 1:
		p.List = []*tracker.Peer{}
	case 2:
		p.List = []*tracker.Peer{{ID: "i", IP: "1.2.3.4", Port: 5}}
	}
	var out []byte
	var err error
	if sym.Choose("addr", 2) == 0 {
		out, err = bencode.Marshal(p)
	} else {
		out, err = bencode.Marshal(&p)
	}
	sym.Assert(err == nil && len(out) > 0 && hben.RefEnd(out, 0) == len(out), "a peer list is not one well-formed value")
	r := &tracker.Response{Interval: sym.IntRange("interval", 0, 99), Peers: &p}
	if sym.Choose("failed", 2) == 1 {
		r = &tracker.Response{FailureReason: sym.String("reason", 2)}
	}
	if sym.Choose("addr", 2) == 0 {
		out, err = bencode.Marshal(*r)
	} else {
		out, err = bencode.Marshal(r)
	}
	sym.Assert(err == nil && hben.RefEnd(out, 0) == len(out), "an answer is not one well-formed value")
	var d tracker.Response
	sym.Assert(bencode.Unmarshal(out, &d) == nil, "an answer cannot be decoded")
	sym.Assert(d.FailureReason == r.FailureReason && d.Interval == r.Interval && (d.Peers != nil) == (r.Peers != nil), "an answer changed")
	if d.Peers != nil {
		sym.Assert(d.Peers.Compact == p.Compact && len(d.Peers.List) == len(p.List), "the peers changed")
		for i, q := range p.List {
			sym.Assert(d.Peers.List[i].IP == q.IP && d.Peers.List[i].Port == q.Port, "the peers changed")
			sym.Assert(p.Compact || d.Peers.List[i].ID == q.ID, "the peers changed")
		}
	}
	sym.Reach("wellformed")
}
