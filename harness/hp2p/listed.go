package hp2p

import (
	"net"
	"strconv"
	"time"

	"verifharness/sym"
)

// N15: the peers a tracker lists are dialled unless they are connected, also after a failure.
func N15() {
	sym.Explore(0, 0)
	w := newWorld(4, 8)
	peers := sym.Param("peers", 2)
	var names []string
	for i := range peers {
		ip, port := address(i)
		names = append(names, net.JoinHostPort(ip, strconv.Itoa(port)))
	}
	ip, _ := address(0)
	names = append(names, ip+":6881") // peer 0 again, at another port, the same as ours
	if sym.Param("same", 1) == 0 {
		names = names[:peers]
	}
	conns := make([]*wire, len(names))
	silent := make([]*wire, len(names))
	pick := func() (l []string) {
		k := sym.Choose("listed", 1<<len(names))
		for i, n := range names {
			if k>>i&1 == 1 {
				l = append(l, n)
			}
		}
		return
	}
	rounds := sym.Param("rounds", 2)
	list := pick()
	for r := range rounds {
		refuse := sym.Choose("refuse", sym.Param("refuse", 1)+1) == 1
		sym.Atomic(func() { w.refuse = refuse })
		dials, wires := len(w.dials), len(w.wires)
		if r == 0 {
			w.start(list...)
		} else {
			w.listed = list
			down := sym.Param("down", 0) == 1 && sym.Choose("down", 2) == 1
			sym.Atomic(func() { w.down = down })
			if down {
				list = nil
			}
			time.Sleep(31 * time.Second)
			sym.Quiesce()
		}
		sym.Assert(len(w.events) == r+1, "the tracker is not asked every interval")
		sym.Assert(w.ended == 0, "the client ended")
		// who must be dialled
		seen := map[string]int{}
		for _, d := range w.dials[dials:] {
			seen[d]++
		}
		for i, n := range names {
			want := 0
			for _, l := range list {
				if l == n && conns[i] == nil {
					want = 1
				}
			}
			if r > 0 && len(conns) > peers && (i == peers && conns[0] != nil || i == 0 && conns[i] == nil && conns[peers] != nil) {
				continue // the same peer, connected over another address: may be known or not
			}
			if c := silent[i]; c != nil && !c.closed {
				continue // still waiting for its handshake
			}
			sym.Assert(seen[n] <= want, "a connected or unlisted peer was dialled")
			sym.Assert(seen[n] >= want, "a listed peer that is not connected was not dialled")
		}
		for _, c := range w.wires[wires:] {
			i := 0
			for ; names[i] != c.remote.String(); i++ {
			}
			switch sym.Choose("answer", 4) {
			case 0:
				c.end()
			case 1:
				c.send(handshake([20]byte{'x'}, idOf(i%peers)))
			case 2:
				silent[i] = c
			case 3:
				c.send(handshake(w.info.SHA1, idOf(i%peers)))
				sym.Quiesce()
				other := 0
				if i == 0 {
					other = peers
				}
				if other < len(conns) && (i == 0 || i == peers) && conns[other] != nil {
					sym.Assert(c.closed, "two connections of one peer")
					continue
				}
				w.greeted(c)
				conns[i] = c
			}
		}
		sym.Quiesce()
		// some connections end
		for i, c := range conns {
			if c != nil {
				sym.Assert(!c.closed, "the connection of a proper peer was closed")
				if sym.Choose("end", 2) == 1 {
					c.end()
					conns[i] = nil
					sym.Quiesce()
					sym.Assert(c.closed, "an ended connection stays open")
				}
			}
		}
		list = pick()
	}
	sym.Reach("end")
}
