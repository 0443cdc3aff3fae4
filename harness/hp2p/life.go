package hp2p

import (
	"errors"
	"net/http"
	"slices"
	"strconv"
	"time"

	"github.com/browles/drip/api/tracker"
	"verifharness/model"
	"verifharness/sym"
)

// accepted says whether the client has sent its bitfield.
func (c *wire) accepted() bool { return len(c.out) > 68 }

// N01: histories of connections from and to a few identities, good and bad, with others in between.
func N01() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	w.start()
	var live []*wire
	type who struct {
		id [20]byte
		ip string
	}
	ident := map[*wire]who{}
	var freed []string
	var used []string // addresses at which a peer showed its identity
	seen := map[string][]who{}
	port := 5000
	for k := 0; k < sym.Param("steps", 4); k++ {
		e := sym.Choose("event", 7)
		switch e {
		case 0, 1, 2, 3, 6: // a connection: incoming, dialled, incoming from an address used before, bad, from an address in use
			id, ip := idOf(0), "10.0.1.1"
			if e != 3 {
				id[19] = sym.Byte("id")
			}
			if e < 2 {
				ip = "10.0.1." + strconv.Itoa(1+sym.Choose("ip", 2))
			}
			port++
			var c *wire
			at := ip + ":" + strconv.Itoa(port)
			switch e {
			case 1:
				n := len(w.wires)
				w.srv.AddPeer(&tracker.Peer{IP: ip, Port: port})
				sym.Quiesce()
				sym.Assert(len(w.wires) == n+1, "a new peer is not dialled")
				c = w.wires[n]
			case 2:
				if len(freed) == 0 {
					return
				}
				at = freed[0]
				ip = at[:8]
				freed = freed[1:]
				c = w.arrive(at)
			case 6: // an address we know a connected peer at
				if len(used) == 0 {
					return
				}
				at = used[sym.Choose("which", len(used))]
				ip = at[:8]
				c = w.arrive(at)
			default:
				c = w.arrive(at)
			}
			h := handshake(w.info.SHA1, id)
			bad := 0
			if e == 3 {
				bad = 1 + sym.Choose("bad", 5)
			}
			switch bad {
			case 1:
				h[30]++
			case 2:
				h[3]++
			case 3:
				h = h[:sym.Choose("cut", 3)*30]
			case 4:
				h = handshake(w.info.SHA1, ours)
			case 5:
				c.limit = 68 // our handshake arrives, the bitfield does not
			}
			c.send(h)
			if bad == 3 {
				if sym.Choose("close", 2) == 1 {
					c.end()
				}
			}
			sym.Quiesce()
			if bad == 3 {
				if !c.ended {
					sym.Assert(!c.closed, "a connection was closed before its time")
					time.Sleep(11 * time.Second)
				}
				sym.Quiesce()
			}
			there := false
			for _, o := range live {
				there = sym.Or(there, sym.And(ident[o].ip == ip, ident[o].id == id))
			}
			if sym.Or(bad != 0, there) {
				sym.Assert(c.closed, "a refused connection is left open")
				sym.Assert(!c.accepted(), "a connection was accepted that must not be")
				freed = append(freed, at)
				sym.Reach("refused")
				if (bad == 0 || bad == 5) && there {
					freed = freed[:len(freed)-1] // an address of a connected peer
					if e != 6 {
						used = append(used, at)
					}
					seen[at] = append(seen[at], who{id, ip})
					sym.Reach("twice")
				}
				break
			}
			if e == 6 && c.closed { // refused: a peer is connected that is known at this address
				sym.Assert(!c.accepted(), "a connection was accepted and closed")
				known := false
				for _, o := range live {
					for _, s := range seen[at] {
						known = sym.Or(known, sym.And(ident[o].ip == s.ip, ident[o].id == s.id))
					}
				}
				sym.Assert(known, "a connection from an address no connected peer is known at was refused")
				sym.Reach("in use")
				break
			}
			w.greeted(c)
			live = append(live, c)
			ident[c] = who{id, ip}
			if e == 1 {
				used = append(used, at)
			}
			seen[at] = append(seen[at], who{id, ip})
			freed = slices.DeleteFunc(freed, func(f string) bool { return f == at })
			sym.Reach("accepted")
		case 4: // the oldest ends
			if len(live) == 0 {
				return
			}
			c := live[0]
			live = live[1:]
			c.end()
			sym.Quiesce()
			sym.Assert(c.closed, "a connection that ended is left open")
			freed = append(freed, c.remote.String())
		case 5: // the newest misbehaves
			if len(live) == 0 {
				return
			}
			c := live[len(live)-1]
			live = live[:len(live)-1]
			c.say(9, be(1))
			sym.Quiesce()
			sym.Assert(c.closed, "a connection that ended is left open")
			freed = append(freed, c.remote.String())
		}
		for _, c := range live {
			sym.Assert(!c.closed, "the connection of a proper peer was closed")
		}
	}
	sym.Reach("end")
}

// N01Limit: as many connections as there can be, and one more.
func N01Limit() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	w.start()
	const max = 50
	if sym.Choose("before", 2) == 1 {
		// failures of all kinds give their slots back
		w.refuse = true
		for i := range max + 2 {
			ip, port := address(i)
			w.srv.AddPeer(&tracker.Peer{IP: ip, Port: port})
			sym.Quiesce()
		}
		sym.Assert(len(w.dials) == max+2, "a slot was lost")
		w.refuse = false
		for i := range 3 * max / 2 {
			ip, port := address(i)
			var c *wire
			if i%2 == 0 {
				c = w.arrive(ip + ":5000")
			} else {
				w.srv.AddPeer(&tracker.Peer{IP: ip, Port: port})
				sym.Quiesce()
				c = w.wires[len(w.wires)-1]
			}
			switch i % 3 {
			case 0:
				c.send(handshake([20]byte{'x'}, idOf(i)))
			case 1:
				c.end()
			case 2:
				c.send(handshake(w.info.SHA1, ours))
			}
			sym.Quiesce()
			sym.Assert(c.closed, "the connection with a wrong handshake is left open")
		}
	}
	silent := sym.Choose("silent", 2) == 1
	dialled := sym.Choose("dialled", 2) == 1
	var cs []*wire
	for i := range max {
		if dialled && i%2 == 0 {
			c, _ := w.meet(i)
			cs = append(cs, c)
			continue
		}
		ip, _ := address(i)
		c := w.arrive(ip + ":4000")
		if !silent {
			c.send(handshake(w.info.SHA1, idOf(i)))
		}
		sym.Quiesce()
		if !silent {
			w.greeted(c)
		}
		cs = append(cs, c)
	}
	// one too many
	x := w.arrive("10.0.3.3:3")
	x.send(handshake(w.info.SHA1, idOf(90)))
	n := len(w.wires)
	w.srv.AddPeer(&tracker.Peer{IP: "10.0.4.4", Port: 4})
	sym.Quiesce()
	sym.Assert(x.closed && !x.accepted(), "more than fifty connections")
	sym.Assert(len(w.wires) == n, "more than fifty connections")
	if silent {
		time.Sleep(11 * time.Second)
		sym.Quiesce()
		for i, c := range cs {
			sym.Assert(c.closed == !(dialled && i%2 == 0), "a silent connection is left open, or another was closed")
		}
	} else {
		cs[7].end()
		sym.Quiesce()
		sym.Assert(cs[7].closed, "a connection that ended is left open")
	}
	// there is room again, for the one waiting to be dialled
	sym.Assert(len(w.wires) == n+1, "a slot was lost")
	y := w.wires[n]
	y.send(handshake(w.info.SHA1, idOf(91)))
	sym.Quiesce()
	w.greeted(y)
	if silent {
		z := w.arrive("10.0.5.5:3")
		z.send(handshake(w.info.SHA1, idOf(92)))
		sym.Quiesce()
		w.greeted(z)
	}
	sym.Reach("end")
}

// N01Race: connections of one identity at the same time, while an older one of it ends.
func N01Race() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(4, 10, 1)
	w.start()
	var old *wire
	how := sym.Param("old", 0)
	if how > 0 {
		old = w.arrive("10.0.1.1:4000")
		old.send(handshake(w.info.SHA1, idOf(0)))
		sym.Quiesce()
		w.greeted(old)
		if how == 2 { // it will send a corrupt piece
			old.say(mBitfield, w.bits(all))
			old.say(mUnchoke)
			sym.Quiesce()
			old.hear()
		}
	}
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 3))
	switch how {
	case 1:
		old.end()
	case 2:
		old.say(mPiece, be(0), be(0), []byte{9, 9, 9, 9})
		old.say(mPiece, be(2), be(0), []byte{9, 9})
	}
	n := sym.Param("new", 2)
	var cs []*wire
	for i := range n {
		c := w.arrive("10.0.1.1:" + strconv.Itoa(5000+i))
		c.send(handshake(w.info.SHA1, idOf(0)))
		cs = append(cs, c)
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	open := 0
	for _, c := range cs {
		if !c.closed {
			sym.Assert(c.accepted(), "a connection is neither accepted nor closed")
			w.greeted(c)
			open++
		}
	}
	if how > 0 {
		sym.Assert(old.closed, "a connection that ended is left open")
		sym.Assert(open <= 1, "two connections of one peer")
	} else {
		sym.Assert(open == 1, "not one of two connections of a peer is accepted")
	}
	// a third one
	x := w.arrive("10.0.1.1:5999")
	x.send(handshake(w.info.SHA1, idOf(0)))
	sym.Quiesce()
	if open == 1 {
		sym.Assert(x.closed && !x.accepted(), "two connections of one peer")
	} else {
		w.greeted(x)
	}
	sym.Reach("end")
}

// N09: a peer that sends a corrupt piece is blocked at every address it is known at.
func N09() {
	sym.Explore(0, 0)
	w := newWorld(4, 12, 1)
	w.start()
	ips := []string{"10.0.1.9", "2001:db8::9", "::ffff:10.0.1.8"}
	ip := ips[sym.Choose("ip", 3)]
	host := ip
	if ip == ips[1] {
		host = "[" + ip + "]"
	}
	if ip == ips[2] {
		host = "10.0.1.8"
	}
	// an innocent bystander with the same pieces, choking us
	b, _ := w.meet(0)
	b.say(mBitfield, w.bits(all))
	sym.Quiesce()
	b.hear()
	x := w.arrive(host + ":4000")
	x.send(handshake(w.info.SHA1, idOf(9)))
	sym.Quiesce()
	w.greeted(x)
	known := []int{4000}
	for i := range sym.Choose("others", 3) {
		// the same peer at other ports, refused as it is connected
		var c *wire
		if i == 0 && ip != ips[1] {
			c = w.arrive(host + ":4001")
		} else {
			n := len(w.wires)
			w.srv.AddPeer(&tracker.Peer{IP: ip, Port: 4001 + i})
			sym.Quiesce()
			sym.Assert(len(w.wires) == n+1, "a new peer is not dialled")
			c = w.wires[n]
		}
		c.send(handshake(w.info.SHA1, idOf(9)))
		sym.Quiesce()
		sym.Assert(c.closed && !c.accepted(), "two connections of one peer")
		known = append(known, 4001+i)
	}
	sym.Races(true)
	only := sym.Choose("piece", 2) * 2
	x.say(mHave, be(only))
	x.say(mUnchoke)
	sym.Quiesce()
	l := w.requests(x.hear()[1:])
	sym.Assert(len(l) == 1 && l[0].index == only, "the missing piece is not requested")
	d := append([]byte{}, w.data(l[0])...)
	v := sym.Byte("wrong")
	sym.Assume(v != d[2])
	d[2] = v
	sym.Explore(sym.Param("pre", 0), sym.Param("sw", 0))
	x.say(mPiece, be(only), be(0), d)
	ending := sym.Choose("ending", 2)
	if ending == 1 {
		x.end()
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	sym.Assert(x.closed, "a blocked peer is still connected")
	sym.Assert(!w.held(only), "a corrupt piece is held")
	n := len(w.dials)
	for _, p := range known {
		err := w.srv.AddPeer(&tracker.Peer{ID: string("x"), IP: ip, Port: p})
		sym.Assert(err == nil, "learning of a blocked peer fails")
	}
	sym.Quiesce()
	sym.Assert(len(w.dials) == n, "a blocked peer was dialled")
	// others are not affected: the bystander, and a new one
	sym.Assert(!b.closed, "another peer was disconnected")
	b.say(mUnchoke)
	sym.Quiesce()
	r := w.requests(b.hear())
	sym.Assert(len(r) == 1, "another peer is not used any more")
	w.reply(b, r[0])
	sym.Quiesce()
	sym.Assert(w.held(r[0].index), "the piece of another peer is not held")
	w.meet(2)
	sym.Reach("end")
}

// N09Order: the blocked peer does not count any more when the rarest piece is chosen.
func N09Order() {
	sym.Explore(0, 0)
	w := newWorld(4, 12)
	w.both()
	// piece 0: a and x, 1: b and c, 2: all of them. Without x piece 0 is the rarest.
	var cs []*wire
	for i, m := range []int{5, 6, 6} {
		c, _ := w.meet(i)
		c.say(mBitfield, w.bits(func(k int) bool { return m>>k&1 == 1 }))
		cs = append(cs, c)
	}
	x, _ := w.meet(5)
	s, _ := w.meet(6)
	x.say(mHave, be(0))
	x.say(mHave, be(sym.Choose("more", 3)))
	x.say(mUnchoke)
	sym.Quiesce()
	l := w.requests(x.hear()[1:])
	sym.Assert(len(l) == 1, "nothing is requested")
	d := append([]byte{}, w.data(l[0])...)
	d[1]++
	x.say(mPiece, be(l[0].index), be(0), d)
	sym.Quiesce()
	sym.Assert(x.closed, "a blocked peer is still connected")
	s.say(mBitfield, w.bits(all))
	s.say(mUnchoke)
	sym.Quiesce()
	for _, h := range s.hear() {
		if h.kind == mRequest {
			sym.Assert(h.index == 0, "a blocked peer still counts")
			sym.Reach("chosen")
		}
	}
	for _, c := range cs {
		sym.Assert(!c.closed, "another peer was disconnected")
	}
}

// N12: every connected peer learns of a new piece, also when one cannot be told or one just connects.
func N12() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	w.start()
	a, _ := w.meet(0)
	b, _ := w.meet(1)
	c, _ := w.meet(2)
	a.say(mHave, be(2))
	a.say(mUnchoke)
	sym.Quiesce()
	l := w.requests(a.hear()[1:])
	sym.Assert(len(l) == 1, "the missing piece is not requested")
	broken := sym.Choose("broken", 5)
	switch broken {
	case 4:
		b.stuck = true
	case 1:
		a.broken = true
	case 2:
		b.broken = true
	case 3:
		b.end()
	}
	// another one connects
	var d *wire
	sym.Races(true)
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 4))
	if sym.Choose("connects", 2) == 1 {
		d = w.arrive("10.0.9.1:999")
		d.send(handshake(w.info.SHA1, idOf(3)))
	}
	w.reply(a, l[0])
	sym.Quiesce()
	sym.Explore(0, 0)
	sym.Assert(w.held(2), "a piece answered in full is not held")
	if broken == 4 { // the others wait for it, but not for ever
		time.Sleep(65 * time.Second)
		sym.Quiesce()
	}
	for _, x := range []*wire{a, b, c} {
		if !x.broken && !x.ended && !x.stuck {
			sym.Assert(count(x.hear(), mHave, 2) == 1, "a peer was not told of a new piece once")
		}
	}
	if d != nil {
		d.read = 68
		l := d.hear()
		sym.Assert(len(l) >= 1 && l[0].kind == mBitfield, "the handshake is not followed by the bitfield")
		sym.Assert(l[0].data[0]&0x20 != 0 || count(l, mHave, 2) == 1, "a new peer was not told of a new piece")
	}
	sym.Reach("end")
}

// N14: stopping the client, in the middle of everything.
func N14() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	w.start("10.0.1.200:1")
	sym.Assert(len(w.wires) == 1, "a peer of the tracker is not dialled")
	var cs []*wire
	for i := range sym.Param("peers", 2) {
		c, _ := w.meet(i)
		cs = append(cs, c)
	}
	state := sym.Choose("state", 6)
	c := cs[0]
	switch state {
	case 1: // being asked
		c.say(mBitfield, w.bits(all))
		c.say(mUnchoke)
	case 2: // waiting for a piece in flight elsewhere
		for _, c := range cs {
			c.say(mHave, be(0))
			c.say(mUnchoke)
		}
	case 3: // a connection in its handshake
		w.arrive("10.0.9.1:999")
	}
	sym.Quiesce()
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 4))
	switch state {
	case 4:
		c.say(mBitfield, w.bits(all))
		c.say(mUnchoke)
	case 5:
		x := w.arrive("10.0.9.1:999")
		x.send(handshake(w.info.SHA1, idOf(7)))
	}
	sym.Races(true)
	fails := sym.Choose("tracker", 2) == 1
	if fails {
		model.Fetch = func(method, url string) (*http.Response, error) {
			w.events = append(w.events, "stopped")
			return nil, errors.New("gone")
		}
	}
	w.srv.Stop()
	sym.Quiesce()
	sym.Explore(0, 0)
	sym.Assert(w.ended == w.loops, "the client does not end when it is stopped")
	sym.Assert(w.listen.closed, "the client still listens after it was stopped")
	stops := 0
	for _, e := range w.events {
		if e == "stopped" {
			stops++
		}
	}
	sym.Assert(stops >= 1, "the tracker was not told")
	time.Sleep(20 * time.Second)
	sym.Quiesce()
	for _, c := range w.wires {
		sym.Assert(c.closed, "a connection is left open after the client was stopped")
	}
	sym.Assert(sym.Live() == 0, "something still runs after the client was stopped")
	sym.Reach("end")
}

// N14Start: starting fails, or the client is stopped while it starts, once or twice.
func N14Start() {
	sym.Explore(0, 0)
	sym.Races(true)
	w := newWorld(4, 10, 1)
	w.prepare("10.0.1.200:1")
	trouble := sym.Choose("trouble", 3)
	w.noport, w.down = trouble == 1, trouble == 2
	var started error
	returned := false
	stopped := make([]error, sym.Choose("stops", 3))
	sym.Explore(sym.Param("pre", 1), sym.Param("sw", 3))
	go func() {
		err := w.srv.Start()
		sym.Atomic(func() { started, returned = err, true })
	}()
	for i := range stopped {
		go func() {
			err := w.srv.Stop()
			sym.Atomic(func() { stopped[i] = err })
		}()
	}
	sym.Quiesce()
	sym.Explore(0, 0)
	ok := false
	for _, err := range stopped {
		ok = ok || err == nil
	}
	switch {
	case trouble > 0:
		sym.Assert(returned && started != nil, "starting failed without an error")
		sym.Assert(!ok || trouble == 2, "a client that never started was stopped")
		sym.Reach("failed")
	case ok:
		sym.Assert(returned, "the client does not end when it is stopped")
		sym.Reach("stopped")
	default: // it was too early to stop it
		sym.Assert(!returned, "the client ended although it was not stopped")
		sym.Assert(w.srv.Stop() == nil, "stopping fails")
		sym.Quiesce()
		sym.Assert(returned, "the client does not end when it is stopped")
		sym.Reach("started")
	}
	sym.Assert(w.noport || w.listen.closed, "the client still listens after it was stopped")
	time.Sleep(20 * time.Second)
	sym.Quiesce()
	for _, c := range w.wires {
		sym.Assert(c.closed, "a connection is left open after the client was stopped")
	}
	sym.Assert(sym.Live() == 0, "something still runs after the client was stopped")
}

// N18: the announces of a running client, whatever the tracker answers.
func N18() {
	sym.Explore(0, 0)
	w := newWorld(4, 10, 1)
	asked := []int{1, 2, 30, 1800, 0, 0, 0, 0, 0, 0}
	texts := []string{"1", "2", "30", "1800", "", "0", "-1", "9223372036854775807", "-9223372036854775808", "10000000000"}
	k := sym.Choose("interval", len(asked))
	peers := "5:peers0:"
	if asked[k] == 30 { // peers we cannot connect to
		peers = []string{peers, "5:peersld2:ip1:x4:porti6881eed2:ip8:10.0.9.94:porti0eee", "5:peers6:\x00\x00\x00\x00\x00\x00", ""}[sym.Choose("peers", 4)]
	}
	say := func(interval, rest string) string {
		if interval == "" {
			return "d" + rest + peers + "e"
		}
		return "d8:intervali" + interval + "e" + rest + peers + "e"
	}
	w.extra = say(texts[k], "")
	w.start()
	count := func() (n int) {
		sym.Atomic(func() { n = len(w.events) - 1 })
		return
	}
	next := func() {
		w.extra = say(texts[k], "")
		switch sym.Choose("answer", 6) {
		case 1:
			w.down = true
		case 2:
			w.extra = "d14:failure reason4:busye"
		case 3:
			w.extra = string(sym.Bytes("junk", sym.Param("junk", 2)))
		case 4:
			w.extra = say("0", "12:min intervali-5e")
		case 5:
			w.extra = "d8:intervali30e5:peersld2:ip1:x4:porti-1eeee"
		}
	}
	n := time.Duration(asked[k]) * time.Second
	if n == 0 {
		next()
		time.Sleep(time.Hour)
		sym.Quiesce()
		sym.Assert(count() >= 1, "the client does not announce itself any more")
		sym.Assert(count() <= 60, "the client announces itself all the time")
	} else {
		time.Sleep(n - 500*time.Millisecond)
		sym.Quiesce()
		sym.Assert(count() == 0, "an announce was made too early")
		for i := range 3 {
			next()
			time.Sleep(n)
			sym.Quiesce()
			sym.Assert(count() == i+1, "announces are not made at the interval the tracker asked for")
			w.down = false
		}
	}
	for _, e := range w.events[1:] {
		sym.Assert(e == "", "an announce has an event without one")
	}
	w.down, w.extra = false, ""
	w.meet(0)
	sym.Reach("end")
}

// N08Traffic: the counters announced after some transfers.
func N08Traffic() {
	sym.Explore(0, 0)
	w := newWorld(8, 22, 1)
	w.start()
	c, _ := w.meet(0)
	c.say(mBitfield, w.bits(all))
	sym.Quiesce()
	c.hear()
	w.srv.UnchokePeers(w.ctx)
	c.say(mUnchoke)
	sym.Quiesce()
	up, down, left := 0, 0, 22-8
	var open []heard
	for range sym.Param("steps", 3) {
		for _, h := range c.hear() {
			if h.kind == mRequest {
				open = append(open, h)
			}
		}
		if c.broken {
			break
		}
		switch sym.Choose("event", 5) {
		case 3: // the answer cannot be sent
			c.broken = true
			c.say(mRequest, be(1), be(0), be(8))
			sym.Quiesce()
		case 4: // choked by us
			p := w.peer(c)
			sym.Assert(p.Choke() == nil, "choking fails")
			c.say(mRequest, be(1), be(0), be(8))
			sym.Quiesce()
			if c.closed {
				c.broken = true // no more
			} else {
				w.srv.UnchokePeers(w.ctx)
			}
			for _, h := range c.hear() {
				sym.Assert(h.kind != mPiece, "data was sent to a choked peer")
				if h.kind == mRequest {
					open = append(open, h)
				}
			}
		case 0:
			from, n := sym.Choose("from", 3)*3, sym.Choose("bytes", 3)
			c.say(mRequest, be(1), be(from), be(n))
			sym.Quiesce()
			l := c.hear()
			sym.Assert(len(l) == 1 && l[0].kind == mPiece && len(l[0].data) == n, "a proper request is not answered")
			up += n
		case 1:
			if len(open) == 0 {
				return
			}
			w.reply(c, open[0])
			down += open[0].length
			left -= open[0].length
			open = open[1:]
			sym.Quiesce()
		case 2: // data that is held already
			c.say(mPiece, be(1), be(0), w.piece(1))
			sym.Quiesce()
		}
	}
	var got map[string]string
	model.Fetch = func(method, url string) (*http.Response, error) {
		got, _ = query(url[len("http://t/a?"):])
		res, _ := answer([]byte("d8:intervali30e5:peers0:e"))
		return res, nil
	}
	sym.Assert(w.srv.Announce(w.ctx) == nil, "the announce failed")
	sym.Assert(got["uploaded"] == strconv.Itoa(up), "the bytes uploaded are wrong")
	sym.Assert(got["downloaded"] == strconv.Itoa(down), "the bytes downloaded are wrong")
	sym.Assert(got["left"] == strconv.Itoa(left), "what is left is not what is missing")
	if up > 0 && down > 0 {
		sym.Reach("both")
	}
	sym.Reach("end")
}
