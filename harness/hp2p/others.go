package hp2p

import (
	"os"
	"time"

	"github.com/browles/drip/api/tracker"
	"verifharness/sym"
)

// N13Bad: one peer stalls, cuts off, chokes or answers wrongly, another one has everything.
func N13Bad() {
	sym.Explore(0, 0)
	geo := [][2]int{{4, 10}, {bl + 3, bl + 7}, {4, 4}, {2*bl + 1, 2*bl + 1}}[sym.Param("geo", 0)]
	w := newWorld(geo[0], geo[1])
	w.both()
	bads := sym.Param("bads", 1)
	var bad []*wire
	for i := range bads {
		c, _ := w.meet(i)
		c.say(mBitfield, w.bits(all))
		c.say(mUnchoke)
		sym.Quiesce()
		bad = append(bad, c)
	}
	good, _ := w.meet(9)
	good.say(mBitfield, w.bits(all))
	good.say(mUnchoke)
	sym.Explore(sym.Param("pre", 0), sym.Param("sw", 0))
	acts := sym.Param("acts", 3)
	const step = 2500 * time.Millisecond
	limit := 12 * len(w.info.Pieces) * bads // 30 s for each piece
	for r := 0; w.st.Downloaded() < int64(geo[1]); r++ {
		sym.Assert(r < limit, "the download does not complete although a peer has every piece")
		sym.Quiesce()
		for _, c := range bad {
			l := c.hear()
			k := count(l, mRequest, -1)
			if k == 0 {
				continue
			}
			sym.Assert(!c.ended, "a block was requested of nobody")
			if acts--; acts < 0 {
				continue // silence
			}
			switch sym.Choose("how", 6) {
			case 1:
				c.end()
			case 2, 3:
				how := sym.Byte("wrong")
				for _, h := range l {
					if h.kind == mRequest {
						d := append([]byte{}, w.data(h)...)
						d[0] ^= how
						c.say(mPiece, be(h.index), be(h.begin), d)
						if how == 0 {
							continue
						}
						break
					}
				}
			case 4:
				c.say(mChoke)
			case 5:
				c.say(mChoke)
				c.say(mUnchoke)
			}
		}
		sym.Quiesce()
		any := false
		for _, h := range good.hear() {
			if h.kind == mRequest {
				w.proper(h)
				w.reply(good, h)
				any = true
			}
		}
		sym.Assert(!good.closed, "the connection of a proper peer was closed")
		if !any {
			time.Sleep(step)
		}
		sym.Quiesce()
	}
	got, err := os.ReadFile(w.target + "/n")
	sym.Assert(err == nil && string(got) == string(w.content), "the file is not the torrent's")
	sym.Assert(!good.closed, "the connection of a proper peer was closed")
	sym.Reach("downloaded")
}

// N16: data that was not asked of the peer that sends it changes nothing.
func N16() {
	sym.Explore(0, 0)
	geo := [][2]int{{4, 7}, {bl + 3, 2*bl + 6}}[sym.Param("geo", 0)]
	w := newWorld(geo[0], geo[1])
	w.start()
	good, _ := w.meet(0)
	evil, _ := w.meet(1)
	good.say(mBitfield, w.bits(all))
	good.say(mUnchoke)
	sym.Quiesce()
	open := w.requests(good.hear())
	sym.Assert(len(open) > 0, "nothing is requested of a peer that has a missing piece and does not choke us")
	// the other one may be asked for the other piece, and may have choked us again
	var own []heard
	state := sym.Choose("state", 4)
	if state > 0 {
		evil.say(mBitfield, w.bits(all))
		sym.Quiesce()
	}
	if state > 1 {
		evil.say(mUnchoke)
		sym.Quiesce()
		own = w.requests(evil.hear())
		sym.Assert(len(own) > 0 && own[0].index != open[0].index, "the other piece is not requested of another peer")
	}
	if state == 3 {
		evil.say(mChoke)
		sym.Quiesce()
		own = nil
	}
	good.hear()
	part := 0 // of the answers of the good peer come first
	if len(open) > 1 {
		part = sym.Choose("part", 2)
	}
	for _, h := range open[:part] {
		w.reply(good, h)
	}
	sym.Quiesce()
	down := w.srv.Downloaded()
	for range sym.Param("messages", 2) {
		index, begin := int(sym.Byte("index")), 0
		sym.Assume(index < 3)
		switch sym.Choose("begin", sym.Param("begins", 4)) {
		case 1:
			begin = bl
		case 2:
			begin = -1
		case 3:
			begin = int(sym.Byte("begin"))
		}
		n := []int{3, 4, bl, 0}[sym.Choose("size", 4)]
		for _, h := range own {
			sym.Assume(!sym.And(h.index == index, sym.And(h.begin == begin, h.length == n)))
		}
		d := make([]byte, n)
		for i := range min(n, 3) {
			d[i] = sym.Byte("data")
		}
		evil.say(mPiece, be(index), be(begin), d)
		sym.Quiesce()
		for i := range w.info.Pieces {
			sym.Assert(!w.held(i), "a piece is held although its data was not sent by the peer asked for it")
		}
		sym.Assert(w.srv.Downloaded() == down, "data that was not asked for counts as downloaded")
	}
	// the ones asked answer
	for _, h := range open[part:] {
		w.reply(good, h)
	}
	sym.Quiesce()
	sym.Assert(!good.closed, "another peer was disconnected")
	sym.Assert(w.held(open[0].index), "a piece answered in full is not held")
	if len(own) > 0 && !evil.closed {
		for _, h := range own {
			w.reply(evil, h)
		}
		sym.Quiesce()
		sym.Assert(w.held(own[0].index), "a piece answered in full is not held")
	}
	want := int64(w.plen(open[0].index))
	if len(own) > 0 && !evil.closed {
		want = int64(geo[1])
	}
	sym.Assert(w.srv.Downloaded() == want, "the bytes downloaded are wrong")
	// the good one may be dialled again
	n := len(w.dials)
	good.end()
	sym.Quiesce()
	ip, port := address(0)
	w.srv.AddPeer(&tracker.Peer{IP: ip, Port: port})
	sym.Quiesce()
	sym.Assert(len(w.dials) == n+1, "a peer that did nothing wrong is blocked")
	sym.Reach("end")
}

// N16Late: answers to a request that was given up, while another peer is asked.
func N16Late() {
	sym.Explore(0, 0)
	n := []int{4, bl + 3}[sym.Param("geo", 0)]
	w := newWorld(n, n)
	w.both()
	evil, _ := w.meet(0)
	evil.say(mBitfield, w.bits(all))
	evil.say(mUnchoke)
	sym.Quiesce()
	old := w.requests(evil.hear())
	sym.Assert(len(old) > 0, "nothing is requested of a peer that has a missing piece and does not choke us")
	good, _ := w.meet(1)
	good.say(mBitfield, w.bits(all))
	good.say(mUnchoke)
	sym.Quiesce()
	sym.Assert(len(w.requests(good.hear())) == 0, "the piece is requested from two peers at once")
	if sym.Choose("how", 2) == 1 {
		evil.say(mChoke)
		sym.Quiesce()
	}
	var open []heard
	for r := 0; len(open) == 0; r++ {
		sym.Assert(r < 8, "another peer is never asked")
		time.Sleep(2500 * time.Millisecond)
		sym.Quiesce()
		open = w.requests(good.hear())
		sym.Assert(len(evil.hear()) == 0 || len(open) > 0, "the peer that did not answer is asked again first")
	}
	part := sym.Choose("part", len(open))
	for _, h := range open[:part] {
		w.reply(good, h)
	}
	for _, h := range old {
		d := append([]byte{}, w.data(h)...)
		d[0] = sym.Byte("data")
		evil.say(mPiece, be(h.index), be(h.begin), d)
		sym.Quiesce()
		sym.Assert(!w.held(0), "a piece is held although its data was not sent by the peer asked for it")
	}
	for _, h := range open[part:] {
		w.reply(good, h)
	}
	sym.Quiesce()
	sym.Assert(!good.closed, "another peer was disconnected")
	sym.Assert(w.held(0), "a piece answered in full is not held")
	sym.Assert(w.srv.Downloaded() == int64(n), "the bytes downloaded are wrong")
	sym.Reach("end")
}

// N09Queue: a peer is blocked, or connects, while its address waits to be dialled.
func N09Queue() {
	sym.Explore(0, 0)
	w := newWorld(4, 12, 1)
	w.start()
	x := w.arrive("10.0.9.9:4001")
	sym.Quiesce()
	var silent []*wire
	for i := range 49 {
		ip, _ := address(i)
		silent = append(silent, w.arrive(ip+":4000"))
		sym.Quiesce()
	}
	// all slots are taken now; the first to wait is somebody else
	n := len(w.dials)
	w.srv.AddPeer(&tracker.Peer{IP: "10.0.7.7", Port: 7})
	sym.Quiesce()
	w.srv.AddPeer(&tracker.Peer{IP: "10.0.9.9", Port: 4001})
	sym.Quiesce()
	sym.Assert(len(w.dials) == n, "more than fifty connections")
	x.send(handshake(w.info.SHA1, idOf(70)))
	sym.Quiesce()
	w.greeted(x)
	corrupt := sym.Choose("corrupt", 2) == 1
	if corrupt {
		x.say(mHave, be(0))
		x.say(mUnchoke)
		sym.Quiesce()
		l := w.requests(x.hear()[1:])
		sym.Assert(len(l) == 1, "the missing piece is not requested")
		d := append([]byte{}, w.data(l[0])...)
		v := sym.Byte("wrong")
		sym.Assume(v != d[2])
		d[2] = v
		x.say(mPiece, be(0), be(0), d)
		sym.Quiesce()
		sym.Assert(x.closed, "a blocked peer is still connected")
	}
	for _, c := range silent {
		c.end()
	}
	sym.Quiesce()
	sym.Assert(len(w.dials) > n, "a slot was lost")
	for _, a := range w.dials[n:] {
		sym.Assert(a == "10.0.7.7:7", "a blocked or connected peer was dialled")
	}
	sym.Assert(x.closed == corrupt, "a proper peer was disconnected")
	sym.Reach("end")
}

// N06Hand: pieces pass from peer to peer as they answer, leave, choke and stall; none is requested of two at once.
func N06Hand() {
	sym.Explore(0, 0)
	n := sym.Param("pieces", 1)
	w := newWorld(4, 4*n)
	w.both()
	peers := sym.Param("peers", 3)
	type asked struct {
		h heard
		t time.Time
	}
	open := make([][]asked, peers)
	var cs []*wire
	listen := func() {
		sym.Quiesce()
		for i, c := range cs {
			for _, h := range c.hear() {
				if h.kind != mRequest {
					continue
				}
				w.proper(h)
				sym.Assert(!w.held(h.index), "a piece was requested that is held or being downloaded")
				for _, o := range open {
					for _, a := range o {
						sym.Assert(a.h.index != h.index || time.Since(a.t) >= 10*time.Second, "a piece was requested that is held or being downloaded")
					}
				}
				open[i] = append(open[i], asked{h, time.Now()})
			}
		}
	}
	for i := range peers {
		c, _ := w.meet(i)
		cs = append(cs, c)
		c.say(mBitfield, w.bits(all))
		c.say(mUnchoke)
		listen()
		time.Sleep(700 * time.Millisecond)
	}
	sym.Assert(len(open[0]) == 1, "nothing is requested of a peer that has a missing piece and does not choke us")
	events := sym.Param("events", 4)
	for range events {
		e := sym.Choose("event", 3*peers+1)
		i := e % peers
		switch {
		case e == 3*peers:
			for range 6 { // so that the requests are seen when they are made
				time.Sleep(850 * time.Millisecond)
				listen()
			}
		case cs[i].ended || len(open[i]) == 0:
			return
		case e/peers == 0:
			w.reply(cs[i], open[i][0].h)
			open[i] = open[i][1:]
		case e/peers == 1:
			cs[i].end()
			open[i] = nil
		case e/peers == 2:
			cs[i].say(mChoke)
			open[i] = nil
			sym.Quiesce()
			cs[i].say(mUnchoke)
		}
		listen()
	}
	sym.Reach("end")
}
