package hp2p

import (
	"time"

	"github.com/browles/drip/p2p"
	"verifharness/sym"
)

// peer returns the client's side of a connection.
func (w *world) peer(c *wire) (p *p2p.Peer) {
	for _, x := range sym.FindAll(w.srv, &p2p.Peer{}) {
		if q := x.(*p2p.Peer); !q.Closed.Load() && q.RemoteAddr().String() == c.remote.String() {
			sym.Assert(p == nil, "a connection has two states")
			p = q
		}
	}
	sym.Assert(p != nil, "a connection has no state")
	return
}

// N03Own: our own choking and interest, between requests of the remote side.
func N03Own() {
	sym.Explore(0, 0)
	w := newWorld(8, 24, 1)
	w.both()
	c, _ := w.meet(0)
	p := w.peer(c)
	choking, interested := true, false
	for k := 0; k < sym.Param("steps", 5); k++ {
		var want []int // kinds
		closed := false
		switch sym.Choose("event", 6) {
		case 0:
			sym.Assert(p.Choke() == nil, "choking fails")
			if !choking {
				want = []int{mChoke}
			}
			choking = true
		case 1:
			sym.Assert(p.Unchoke() == nil, "unchoking fails")
			if choking {
				want = []int{mUnchoke}
			}
			choking = false
		case 2:
			sym.Assert(p.Interest() == nil, "interest fails")
			if !interested {
				want = []int{mInterested}
			}
			interested = true
		case 3:
			sym.Assert(p.NotInterest() == nil, "no interest fails")
			if interested {
				want = []int{mNotInterested}
			}
			interested = false
		case 4:
			c.say(mRequest, be(1), be(2), be(5))
			if !choking {
				want = []int{mPiece}
			}
			closed = choking
		case 5:
			w.srv.UnchokePeers(w.ctx)
			if choking {
				want = []int{mUnchoke}
			}
			choking = false
		}
		sym.Quiesce()
		l := c.hear()
		sym.Assert(len(l) <= len(want), "a message was sent that must not be")
		sym.Assert(len(l) >= len(want), "a message was not sent")
		for i := range l {
			sym.Assert(l[i].kind == want[i], "another message was sent")
		}
		sym.Assert(p.Choked.Load() == choking && p.Interested.Load() == interested, "the state is not the one announced")
		if closed {
			sym.Reach("refused")
			return
		}
		sym.Assert(!c.closed, "the connection of a proper peer was closed")
	}
	sym.Reach("end")
}

// N03Both: both states change from several places at once; what was sent is a sequence of changes that ends in
// the state, and no data goes out after a choke.
func N03Both() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(8, 24, 1)
	w.both()
	c, _ := w.meet(0)
	p := w.peer(c)
	if sym.Choose("before", 2) == 1 {
		sym.Assert(p.Unchoke() == nil && p.Interest() == nil, "unchoking fails")
		sym.Quiesce()
	}
	choking, interested := p.Choked.Load(), p.Interested.Load()
	c.hear()
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 3))
	switch sym.Choose("pair", 4) {
	case 0:
		go p.Choke()
		go p.Unchoke()
		go p.Choke()
	case 1:
		go p.Interest()
		go p.NotInterest()
		go p.Interest()
	case 2:
		go p.Choke()
		c.say(mRequest, be(1), be(2), be(5))
		go p.Unchoke()
	case 3:
		go w.srv.UnchokePeers(w.ctx)
		go p.Choke()
		go w.srv.UnchokePeers(w.ctx)
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	for _, h := range c.hear() {
		switch h.kind {
		case mChoke:
			sym.Assert(!choking, "choke was sent without a change")
			choking = true
		case mUnchoke:
			sym.Assert(choking, "unchoke was sent without a change")
			choking = false
		case mInterested:
			sym.Assert(!interested, "interest was sent twice")
			interested = true
		case mNotInterested:
			sym.Assert(interested, "no interest was sent without interest before")
			interested = false
		case mPiece:
			sym.Assert(!choking, "data was sent to a choked peer")
		default:
			sym.Fail("an unexpected message was sent")
		}
	}
	sym.Assert(c.closed || p.Choked.Load() == choking && p.Interested.Load() == interested, "the state is not the one announced")
	sym.Reach("end")
}

// N03Race: a choke and an unchoke close together, while blocks are requested.
func N03Race() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(8, 24, 1)
	w.both()
	c, _ := w.meet(0)
	c.say(mBitfield, w.bits(all))
	sym.Quiesce()
	c.hear()
	requests := func(old []heard) (n []heard) {
		for _, h := range c.hear() {
			if h.kind == mRequest {
				w.proper(h)
				n = append(n, h)
			}
		}
		return append(old, n...)
	}
	how := sym.Choose("how", 4)
	if how == 2 {
		c.say(mUnchoke)
		sym.Quiesce()
		sym.Assert(len(requests(nil)) == 1, "nothing is requested of a peer that has a missing piece and does not choke us")
	}
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 3))
	if how != 2 {
		c.say(mUnchoke)
	}
	c.say(mChoke)
	if how == 3 {
		// whatever was requested by now is dropped; it is requested again once the peer allows it
		sym.Quiesce()
		sym.Explore(0, 0)
		requests(nil)
		time.Sleep(time.Second)
		c.say(mUnchoke)
		sym.Quiesce()
		time.Sleep(5500 * time.Millisecond)
		sym.Quiesce()
		sym.Assert(len(requests(nil)) > 0, "nothing is requested after the peer unchoked us again")
		sym.Reach("later")
		return
	}
	if how > 0 {
		// requests from before the choke are dropped
		c.say(mUnchoke)
		sym.Quiesce()
		sym.Explore(0, 0)
		open := requests(nil)
		for _, h := range open {
			w.reply(c, h)
		}
		sym.Quiesce()
		if how == 1 {
			time.Sleep(5500 * time.Millisecond)
			sym.Quiesce()
			open = requests(open)
		}
		sym.Assert(len(open) > 0, "nothing is requested after the peer unchoked us again")
		sym.Reach("again")
		return
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	c.hear()
	time.Sleep(30 * time.Second)
	sym.Quiesce()
	sym.Assert(len(c.hear()) == 0, "a block was requested while choked")
	sym.Reach("choked")
}
