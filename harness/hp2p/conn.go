package hp2p

import (
	"time"

	"github.com/browles/drip/api/tracker"
	"verifharness/sym"
)

// N02: the handshake of the remote side.
func N02() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	w.both()
	ip, port := address(0)
	tp := &tracker.Peer{IP: ip, Port: port}
	want := [20]byte{}
	if sym.Choose("known", 2) == 1 {
		copy(want[:], sym.Bytes("want", 20)) // none if they are zero
		tp.ID = string(want[:])
	}
	w.srv.AddPeer(tp)
	sym.Quiesce()
	sym.Assert(len(w.wires) == 1, "a new peer is not dialled")
	c := w.wires[0]
	var hash, id [20]byte
	var reserved [8]byte
	copy(hash[:], sym.Bytes("hash", 20))
	copy(id[:], sym.Bytes("id", 20))
	copy(reserved[:], sym.Bytes("reserved", 8))
	h := handshake(hash, id)
	copy(h[20:28], reserved[:])
	c.send(h)
	sym.Quiesce()
	good := sym.And(hash == w.info.SHA1, sym.And(id != ours, sym.Or(want == [20]byte{}, id == want)))
	if good {
		w.greeted(c)
		// and it is served
		c.say(mUnchoke)
		c.say(mBitfield, w.bits(all))
		sym.Quiesce()
		l := c.hear()
		sym.Assert(len(l) == 2 && l[0].kind+l[1].kind == mInterested+mRequest, "an accepted peer is not used")
		sym.Reach("accepted")
		return
	}
	sym.Assert(c.closed, "the connection with a wrong handshake is left open")
	sym.Assert(len(c.out) == 68, "something was sent after a wrong handshake")
	sym.Reach("refused")
}

// N10: requests of an unchoked peer.
func N10() {
	sym.Explore(0, 0)
	w := newWorld(8, 22, 0, 2)
	w.both()
	c, l := w.meet(0)
	sym.Assert(len(l) == 0, "messages out of nowhere")
	w.srv.UnchokePeers(w.ctx)
	l = c.hear()
	sym.Assert(len(l) == 1 && l[0].kind == mUnchoke, "the peer is not unchoked")
	for k := 0; k < sym.Param("requests", 2); k++ {
		b := sym.Bytes("request", 12)
		c.say(mRequest, b)
		if sym.Param("cancel", 0) == 1 && sym.Choose("cancel", 2) == 1 {
			sym.Quiesce()
			c.say(mCancel, b)
		}
		sym.Quiesce()
		l := c.hear()
		index, begin, length := num(b), num(b[4:]), num(b[8:])
		held := sym.Or(index == 0, index == 2)
		n := sym.Ite(index == 2, 6, 8)
		if sym.And(held, sym.And(begin <= n, length <= n-begin)) {
			sym.Assert(len(l) == 1 && l[0].kind == mPiece, "a proper request is not answered")
			sym.Assert(sym.And(l[0].index == index, l[0].begin == begin), "the answer is for another request")
			sym.Assert(len(l[0].data) == length, "the answer has another length")
			from := sym.Concretize(index*8 + begin)
			sym.Assert(string(l[0].data) == string(w.content[from:from+len(l[0].data)]), "the answer has other data")
			sym.Assert(!c.closed, "the connection is closed after a proper request")
			sym.Reach("answered")
			continue
		}
		sym.Assert(len(l) == 0, "a request that cannot be served was answered")
		sym.Reach("refused")
		return
	}
	sym.Reach("end")
}

func (w *world) data(h heard) []byte {
	o := h.index*w.info.PieceLength + h.begin
	return w.content[o : o+h.length]
}

func (w *world) reply(c *wire, h heard) {
	c.say(mPiece, be(h.index), be(h.begin), append([]byte{}, w.data(h)...))
}

// proper checks that a request is for a block of a piece.
func (w *world) proper(h heard) {
	const bl = 1 << 14
	sym.Assert(h.index >= 0 && h.index < len(w.info.Pieces), "a piece that does not exist was requested")
	n := w.plen(h.index)
	sym.Assert(h.begin%bl == 0 && h.begin < n && h.length == min(bl, n-h.begin), "a range that is no block was requested")
}

// N04: arbitrary messages of a remote peer, in several states.
func N04() {
	sym.Explore(0, 0)
	w := newWorld(8, 22, 1)
	w.both()
	x, _ := w.meet(0)
	g, _ := w.meet(1)
	switch sym.Param("state", 0) {
	case 1: // unchoked by us
		w.srv.UnchokePeers(w.ctx)
	case 2: // unchoked both ways
		w.srv.UnchokePeers(w.ctx)
		x.say(mUnchoke)
	case 3: // asked for a piece
		x.say(mHave, be(2))
		x.say(mUnchoke)
	}
	sym.Quiesce()
	for k := 0; k < sym.Param("messages", 1); k++ {
		sizes := []int{0, 4, 8, 12, 1, 2, 5, 9, 13, 16}
		n := sizes[sym.Choose("size", sym.Param("sizes", 4))]
		if sym.Param("raw", 0) == 1 {
			x.send(sym.Bytes("raw", n))
		} else {
			b := sym.Bytes("message", 1+n)
			if n > 1 {
				// longer bitfields: a few of the bits
				rest := b[1]&0x1e == 0
				for i := 2; i < len(b); i++ {
					if i == len(b)-1 {
						rest = sym.And(rest, b[i] <= 1)
					} else {
						rest = sym.And(rest, b[i] == 0)
					}
				}
				sym.Assume(sym.Or(b[0] != mBitfield, rest))
			}
			x.send(append(be(1+n), b...))
		}
		sym.Quiesce()
	}
	if x.closed {
		sym.Reach("closed")
	} else {
		sym.Reach("kept")
	}
	for _, h := range x.hear() {
		if h.kind == mRequest {
			w.proper(h)
		}
	}
	// another peer is not affected
	sym.Assert(!g.closed, "a message closed the connection of another peer")
	g.hear()
	g.say(mBitfield, w.bits(all))
	g.say(mUnchoke)
	sym.Quiesce()
	done := map[int]bool{1: true}
	asked := 0
	for r := 0; r < 3; r++ {
		for _, h := range g.hear() {
			switch h.kind {
			case mRequest:
				w.proper(h)
				sym.Assert(!done[h.index], "a piece held was requested")
				asked++
				done[h.index] = true
				w.reply(g, h)
			case mHave:
				sym.Assert(done[h.index], "announced a piece that is not held")
			}
		}
		sym.Quiesce()
	}
	sym.Assert(asked >= 1 || w.held(0), "another peer is not asked any more")
	sym.Assert(!g.closed, "the connection of a proper peer was closed")
	for i := range w.info.Pieces {
		if w.held(i) {
			_, err := w.st.GetBlock(i, 0, w.plen(i))
			sym.Assert(err == nil, "a piece held cannot be read")
		} else {
			sym.Assert(i != 1, "a piece was lost")
		}
	}
	// and new ones are met
	n, l := w.meet(2)
	sym.Assert(len(l) == 0 && !n.closed, "a new peer is not met properly")
	sym.Reach("end")
}

// N03: sequences of remote messages and our own decisions; what is sent obeys both choke states.
func N03() {
	sym.Explore(0, 0)
	w := newWorld(8, 24, 1)
	w.both()
	c, l := w.meet(0)
	sym.Assert(len(l) == 0, "messages out of nowhere")
	choked, choking, interested := true, true, false // by the remote side, by us, us
	has := map[int]bool{}
	var open []heard // requests not answered
	held := map[int]bool{1: true}
	for k := 0; k < sym.Param("steps", 4); k++ {
		var said heard
		said.kind = -9
		served := false
		e := sym.Choose("event", sym.Param("events", 8))
		switch e {
		case 0:
			c.say(mUnchoke)
			choked = false
		case 1:
			i := []int{0, 2, 1}[sym.Choose("piece", 3)]
			c.say(mHave, be(i))
			has[i] = true
		case 2:
			c.say(mChoke)
			choked = true
			open = nil
		case 3:
			if len(open) == 0 {
				return
			}
			w.reply(c, open[0])
			held[open[0].index] = true
			open = open[1:]
		case 4:
			w.srv.UnchokePeers(w.ctx)
		case 5:
			c.say(mRequest, be(1), be(0), be(8))
			said.kind = mRequest
			served = !choking
		case 6:
			time.Sleep(6 * time.Second)
			if choked == false && len(open) > 0 {
				return // the time limit of a request is another property
			}
		case 7:
			kind := []int{mInterested, mNotInterested}[sym.Choose("interest", 2)]
			c.say(kind)
		}
		sym.Quiesce()
		pieces := 0
		for _, h := range c.hear() {
			switch h.kind {
			case mRequest:
				sym.Assert(!choked, "a block was requested while choked")
				w.proper(h)
				sym.Assert(has[h.index] && !held[h.index], "a piece was requested that the peer lacks or we have")
				open = append(open, h)
			case mInterested:
				sym.Assert(!interested, "interest was sent twice")
				interested = true
			case mNotInterested:
				sym.Assert(interested, "no interest was sent without interest before")
				interested = false
			case mUnchoke:
				sym.Assert(e == 4 && choking, "unchoke was sent without a change")
				choking = false
			case mPiece:
				sym.Assert(said.kind == mRequest && served, "data was sent to a choked peer or unasked")
				pieces++
			case mHave:
				sym.Assert(held[h.index], "announced a piece that is not held")
			default:
				sym.Fail("an unexpected message was sent")
			}
		}
		sym.Assert(!choking || e != 4, "the peer stays choked")
		if said.kind == mRequest {
			if served {
				sym.Assert(pieces == 1, "a request of an unchoked peer is not answered")
				sym.Reach("served")
			} else {
				sym.Reach("refused")
				return // the connection may be closed
			}
		}
		sym.Assert(!c.closed, "the connection of a proper peer was closed")
		// interest and requests are prompt
		want := false
		for i := range has {
			if !held[i] {
				want = true
			}
		}
		if want {
			sym.Assert(interested, "no interest in a peer with a missing piece")
			sym.Assert(choked || len(open) > 0, "nothing is requested of a peer that has a missing piece and does not choke us")
			if len(open) > 0 {
				sym.Reach("requested")
			}
		}
	}
	sym.Reach("end")
}

// N10Pipe: requests in one go, with a cancel among them, under several schedules; each is answered once, in
// order, except that a cancelled one need not be.
func N10Pipe() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(8, 22, 0, 2)
	w.both()
	c, _ := w.meet(0)
	w.srv.UnchokePeers(w.ctx)
	c.hear()
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 2))
	ranges := [][3]int{{0, 1, 7}, {2, 0, 6}, {0, 8, 0}}
	var sent [][3]int
	may := map[[3]int]bool{}
	for range sym.Param("requests", 3) {
		r := ranges[sym.Choose("range", len(ranges))]
		sent = append(sent, r)
		c.say(mRequest, be(r[0]), be(r[1]), be(r[2]))
		if sym.Choose("cancel", 2) == 1 {
			c.say(mCancel, be(r[0]), be(r[1]), be(r[2]))
			may[r] = true
		}
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	l := c.hear()
	k := 0
	for _, r := range sent {
		if k < len(l) && l[k].index == r[0] && l[k].begin == r[1] && len(l[k].data) == r[2] {
			k++
			continue
		}
		sym.Assert(may[r], "a proper request is not answered")
	}
	sym.Assert(k == len(l), "an answer belongs to no request")
	for _, h := range l {
		sym.Assert(h.kind == mPiece, "an unexpected message was sent")
		from := h.index*8 + h.begin
		sym.Assert(string(h.data) == string(w.content[from:from+len(h.data)]), "the answer has other data")
	}
	// a cancel has no effect on later requests
	for _, r := range ranges {
		c.say(mRequest, be(r[0]), be(r[1]), be(r[2]))
		sym.Quiesce()
		l := c.hear()
		sym.Assert(len(l) == 1 && l[0].kind == mPiece && l[0].index == r[0] && l[0].begin == r[1], "a proper request is not answered")
	}
	sym.Reach("end")
}
