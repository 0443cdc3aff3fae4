package hp2p

import (
	"time"

	"github.com/browles/drip/api/tracker"
	"verifharness/sym"
)

// N17: two things happen to a running client at the same time, whatever it is doing; no two of its goroutines use
// the same data without synchronisation, none panics and all go on afterwards.
func N17() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(4, 14, 1)
	w.start()
	a, _ := w.meet(0)
	b := w.arrive("10.0.7.7:4000")
	b.send(handshake(w.info.SHA1, idOf(20)))
	sym.Quiesce()
	w.greeted(b)
	var open []heard // blocks requested of a
	switch sym.Choose("state", 3) {
	case 1: // both have everything, and choke us
		a.say(mBitfield, w.bits(all))
		b.say(mBitfield, w.bits(all))
	case 2: // a piece is in flight, and we do not choke them
		a.say(mBitfield, w.bits(all))
		a.say(mUnchoke)
		b.say(mHave, be(2))
		b.say(mUnchoke)
		w.srv.UnchokePeers(w.ctx)
	}
	sym.Quiesce()
	for _, h := range a.hear() {
		if h.kind == mRequest {
			open = append(open, h)
		}
	}
	do := func(k int, c *wire) {
		switch k {
		case 0:
			c.say(mHave, be(0))
			c.say(mHave, be(2))
		case 1:
			c.say(mUnchoke)
		case 2:
			c.say(mChoke)
		case 3:
			c.say(mInterested)
			c.say(mRequest, be(1), be(0), be(4))
			c.say(mCancel, be(1), be(0), be(4))
		case 4:
			if len(open) > 0 && c == a {
				w.reply(c, open[0])
			} else {
				c.say(mPiece, be(3), be(0), w.piece(3))
			}
		case 5:
			c.end()
		case 6: // a timer of ours
			w.srv.UnchokePeers(w.ctx)
		case 7:
			w.srv.Announce(w.ctx)
		case 8: // a new connection, of another or of the same peer
			x := w.arrive("10.0.7.8:4000")
			x.send(handshake(w.info.SHA1, idOf(20+sym.Choose("new", 2))))
		case 9:
			w.srv.AddPeer(&tracker.Peer{IP: "10.0.9.9", Port: 9})
			_ = w.srv.Downloaded() + w.srv.Uploaded()
		case 10: // a corrupt piece
			if len(open) == 0 || c != a {
				return
			}
			for _, h := range open {
				d := append([]byte{}, w.data(h)...)
				d[0]++
				c.say(mPiece, be(h.index), be(h.begin), d)
			}
		case 11:
			w.srv.Stop()
		}
	}
	i := sym.Choose("first", 12)
	j := sym.Choose("second", 12)
	sym.Explore(sym.Param("pre", 0), sym.Param("sw", 2))
	go do(i, a)
	go do(j, b)
	sym.Quiesce()
	sym.Explore(0, 0)
	if i != 11 && j != 11 {
		time.Sleep(31 * time.Second)
		sym.Quiesce()
	}
	sym.Reach("end")
}
