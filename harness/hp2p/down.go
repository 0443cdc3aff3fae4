package hp2p

import (
	"os"
	"time"

	"verifharness/sym"
)

const bl = 1 << 14

// geometries of one-piece downloads: piece length (the first piece is downloaded, the second is held).
var lengths = []int{6, bl, bl + 1, 2*bl + 2, 3 * bl}

// requests returns the requests among l, which must be proper and disjoint.
func (w *world) requests(l []heard) (out []heard) {
	for _, h := range l {
		if h.kind == mRequest {
			w.proper(h)
			for _, o := range out {
				sym.Assert(o.index != h.index || o.begin != h.begin, "a block was requested twice")
			}
			out = append(out, h)
		}
	}
	return
}

func count(l []heard, kind, index int) (n int) {
	for _, h := range l {
		if h.kind == kind && (index < 0 || h.index == index) {
			n++
		}
	}
	return
}

// N05: one piece from one peer, answered in every order, choked, left open, answered wrongly or cut off; then
// the piece from another peer.
func N05() {
	sym.Explore(0, 0)
	n := lengths[sym.Param("length", 0)]
	w := newWorld(n, n+4, 1)
	w.both()
	c, _ := w.meet(0)
	o, _ := w.meet(1)
	c.say(mBitfield, w.bits(all))
	c.say(mUnchoke)
	sym.Quiesce()
	l := c.hear()
	sym.Assert(count(l, mInterested, -1) == 1 && len(w.requests(l)) == len(l)-1, "not interest and requests")
	open := w.requests(l)
	blocks := (n + bl - 1) / bl
	sym.Assert(len(open) == blocks, "the requests do not cover the piece")
	o.say(mBitfield, w.bits(all))
	o.say(mUnchoke)
	sym.Quiesce()
	lo := o.hear()
	sym.Assert(len(w.requests(lo)) == 0, "the piece is requested from two peers at once")
	if sym.Param("order", 1) == 1 {
		// any order
		for i := len(open) - 1; i > 0; i-- {
			j := sym.Choose("order", i+1)
			open[i], open[j] = open[j], open[i]
		}
	}
	bad := -1
	end := sym.Choose("ending", 7)
	answers := blocks
	switch end {
	case 1: // choke
		answers = sym.Choose("answers", blocks)
	case 2, 3: // silence, the end of the connection
		answers = sym.Choose("answers", blocks)
	case 4: // corrupt
		bad = sym.Choose("bad", blocks)
	case 5: // a misplaced or cut answer
		answers = sym.Choose("answers", blocks)
	case 6: // an answer too late
		answers = sym.Choose("answers", blocks)
	}
	for i, h := range open[:answers] {
		d := append([]byte{}, w.data(h)...)
		if i == bad {
			v := sym.Byte("wrong")
			at := sym.Choose("where", 2) * (len(d) - 1)
			sym.Assume(v != d[at])
			d[at] = v
		}
		c.say(mPiece, be(h.index), be(h.begin), d)
		if i+1 < answers {
			sym.Quiesce()
			sym.Assert(!w.held(0), "an incomplete piece is held")
		}
	}
	switch end {
	case 1:
		c.say(mChoke)
	case 3:
		c.end()
	case 5:
		h := open[answers]
		d := w.data(h)
		switch sym.Choose("how", 4) {
		case 0:
			c.say(mPiece, be(h.index), be(h.begin), d[:len(d)-1])
		case 1:
			c.say(mPiece, be(h.index), be(h.begin+1), d)
		case 2:
			c.say(mPiece, be(7), be(h.begin), d)
		case 3:
			c.say(mPiece, be(h.index), be(-1), d)
		}
	}
	sym.Quiesce()
	if end == 6 {
		time.Sleep(11 * time.Second)
		for _, h := range open[answers:] {
			c.say(mPiece, be(h.index), be(h.begin), append([]byte{}, w.data(h)...))
		}
		sym.Quiesce()
	}
	all := w.held(0)
	if end == 0 {
		sym.Assert(all, "a piece answered in full is not held")
		for _, x := range []*wire{c, o} {
			sym.Assert(count(x.hear(), mHave, 0) == 1, "a new piece is not announced once")
		}
		sym.Reach("held")
		return
	}
	if end != 6 {
		sym.Assert(!all, "a piece is held without its data")
		sym.Assert(count(c.hear(), mHave, -1)+count(o.hear(), mHave, -1) == 0, "a piece is announced without its data")
	}
	if bad >= 0 {
		sym.Assert(c.closed, "the peer that sent a corrupt piece is still connected")
	}
	// in the end the other peer is asked, and serves
	for r := 0; r < 4 && !w.held(0); r++ {
		time.Sleep(6 * time.Second)
		sym.Quiesce()
		if end == 2 || end == 5 || end == 6 {
			// the first one stays, and is asked again: now it answers
			for _, h := range c.hear() {
				if h.kind == mRequest {
					w.proper(h)
					w.reply(c, h)
				}
			}
		}
		for _, h := range w.requests(o.hear()) {
			w.reply(o, h)
		}
		sym.Quiesce()
	}
	sym.Assert(w.held(0), "the piece is never downloaded again after a failure")
	sym.Reach("recovered")
}

// N13: honest peers, each with some of the pieces, lead to the complete torrent.
func N13() {
	sym.Explore(0, 0)
	geo := [][2]int{{4, 10}, {bl + 3, bl + 7}, {4, 4}, {5, 15}}[sym.Param("geo", 0)]
	var held []int
	pieces := (geo[1] + geo[0] - 1) / geo[0]
	h := sym.Choose("held", 1<<pieces)
	for i := range pieces {
		if h>>i&1 == 1 {
			held = append(held, i)
		}
	}
	w := newWorld(geo[0], geo[1], held...)
	w.both()
	peers := sym.Param("peers", 2)
	var cs []*wire
	told := make([]map[int]int, peers)
	for i := range peers {
		c, _ := w.meet(i)
		cs = append(cs, c)
		told[i] = map[int]int{}
	}
	sym.Explore(sym.Param("pre", 0), sym.Param("sw", 0))
	for i, c := range cs {
		b := w.bits(all)
		if i > 0 {
			b[0] &= sym.Byte("has")
		}
		c.say(mBitfield, b)
		c.say(mUnchoke)
	}
	for r := 0; r < 2*pieces+2; r++ {
		sym.Quiesce()
		any := false
		for i, c := range cs {
			for _, h := range c.hear() {
				switch h.kind {
				case mRequest:
					w.proper(h)
					w.reply(c, h)
					any = true
				case mHave:
					told[i][h.index]++
				}
			}
		}
		if !any {
			if w.st.Downloaded() == int64(geo[1]) {
				break
			}
			time.Sleep(5100 * time.Millisecond)
		}
	}
	sym.Quiesce()
	sym.Assert(w.st.Downloaded() == int64(geo[1]), "the download never completes although peers have every piece")
	got, err := os.ReadFile(w.target + "/n")
	sym.Assert(err == nil && string(got) == string(w.content), "the file is not the torrent's")
	for i, c := range cs {
		for _, h := range c.hear() {
			if h.kind == mHave {
				told[i][h.index]++
			}
		}
		for p := range pieces {
			want := 1
			if h>>p&1 == 1 {
				want = 0
			}
			sym.Assert(told[i][p] == want, "a peer was not told of each new piece once")
		}
		sym.Assert(!c.closed, "the connection of a proper peer was closed")
	}
	if pieces > len(held) {
		sym.Reach("downloaded")
	}
}

// N13Late: peers without anything at first announce pieces one by one, choke and unchoke in any order; once a
// peer has announced everything and does not choke, the torrent is completed.
func N13Late() {
	sym.Explore(0, 0)
	geo := [][2]int{{4, 10}, {bl + 3, bl + 7}, {4, 4}, {5, 15}}[sym.Param("geo", 0)]
	pieces := (geo[1] + geo[0] - 1) / geo[0]
	var mine []int
	if sym.Choose("held", 2) == 1 && pieces > 1 {
		mine = []int{0}
	}
	w := newWorld(geo[0], geo[1], mine...)
	w.both()
	peers := sym.Param("peers", 1)
	var cs []*wire
	has := make([]map[int]bool, peers)
	open := make([]bool, peers)
	told := make([]map[int]int, peers)
	for i := range peers {
		c, _ := w.meet(i)
		cs = append(cs, c)
		has[i], told[i] = map[int]bool{}, map[int]int{}
	}
	have := func(i, p int) {
		has[i][p] = true
		cs[i].say(mHave, be(p))
	}
	// serve lets the client and the peers act until nothing is asked
	serve := func() (any bool) {
		for again := true; again; {
			again = false
			sym.Quiesce()
			for i, c := range cs {
				for _, h := range c.hear() {
					switch h.kind {
					case mRequest:
						w.proper(h)
						sym.Assert(has[i][h.index], "a peer is asked for a piece it did not announce")
						if open[i] {
							w.reply(c, h)
							again, any = true, true
						}
					case mHave:
						told[i][h.index]++
					}
				}
			}
		}
		return
	}
	for range sym.Param("steps", 3) {
		i := sym.Choose("peer", peers)
		switch e := sym.Choose("event", 2+pieces); e {
		case 0:
			open[i] = !open[i]
			if open[i] {
				cs[i].say(mUnchoke)
			} else {
				cs[i].say(mChoke)
			}
		case 1:
			time.Sleep(5100 * time.Millisecond)
		default:
			if has[i][e-2] {
				return
			}
			have(i, e-2)
		}
		if sym.Choose("pause", 2) == 1 {
			serve()
		}
	}
	// the first peer gets everything, in either order
	late := sym.Choose("late", 2) == 1
	if late && !open[0] {
		open[0] = true
		cs[0].say(mUnchoke)
		serve()
	}
	for p := range pieces {
		if !has[0][p] {
			have(0, p)
			if late {
				serve()
			}
		}
	}
	if !open[0] {
		serve()
		open[0] = true
		cs[0].say(mUnchoke)
	}
	for range 2*pieces + 2 {
		if !serve() {
			if w.st.Downloaded() == int64(geo[1]) {
				break
			}
			time.Sleep(5100 * time.Millisecond)
		}
	}
	serve()
	sym.Assert(w.st.Downloaded() == int64(geo[1]), "the download never completes although a peer announced every piece")
	got, err := os.ReadFile(w.target + "/n")
	sym.Assert(err == nil && string(got) == string(w.content), "the file is not the torrent's")
	for i, c := range cs {
		for p := range pieces {
			want := 1
			if len(mine) == 1 && p == 0 {
				want = 0
			}
			sym.Assert(told[i][p] == want, "a peer was not told of each new piece once")
		}
		sym.Assert(!c.closed, "the connection of a proper peer was closed")
	}
	sym.Reach("downloaded")
}

// N06: peers announce pieces, leave and come back; then seeders are asked for the rarest pieces first.
func N06() {
	sym.Explore(0, 0)
	n := sym.Param("pieces", 3)
	w := newWorld(4, 4*n-1, sym.Param("held", 0))
	w.both()
	peers := sym.Param("peers", 2)
	var cs []*wire
	has := make([]int, peers) // bits
	for i := range peers {
		c, _ := w.meet(i)
		cs = append(cs, c)
	}
	interested := make([]bool, peers)
	for range sym.Param("events", 3) {
		i := sym.Choose("peer", peers)
		if cs[i].ended {
			return
		}
		switch sym.Choose("event", 3) {
		case 0:
			p := int(sym.Byte("piece"))
			sym.Assume(p < n)
			cs[i].say(mHave, be(p))
			for q := range n {
				has[i] |= sym.Ite(p == q, 1<<q, 0)
			}
		case 1:
			b := sym.Byte("bits")
			sym.Assume(b&(1<<(8-n)-1) == 0)
			cs[i].say(mBitfield, []byte{b})
			for q := range n {
				has[i] |= int(b>>(7-q)&1) << q
			}
		case 2:
			cs[i].end()
			has[i] = 0
		}
		sym.Quiesce()
		for j, c := range cs {
			for _, h := range c.hear() {
				sym.Assert(h.kind == mInterested && !interested[j], "something else than interest was sent")
				interested[j] = true
			}
			if !c.ended {
				f := w.peer(c).Bitfield
				sym.Assert(len(f) == 1, "the recorded pieces of a peer are not what it announced")
				want := 0
				for q := range n {
					want |= has[j] >> q & 1 << (7 - q)
				}
				sym.Assert(int(f[0]) == want, "the recorded pieces of a peer are not what it announced")
				sym.Assert(interested[j] == (has[j]&^1 != 0), "interest is not in the pieces that are missing")
				sym.Assert(!c.closed, "the connection of a proper peer was closed")
			}
		}
	}
	// two seeders
	var ss []*wire
	for i := range sym.Param("seeders", 2) {
		c, _ := w.meet(10 + i)
		c.say(mBitfield, w.bits(all))
		sym.Quiesce()
		c.hear()
		ss = append(ss, c)
	}
	rarity := func(p int) (k int) {
		for _, m := range has {
			k += m >> p & 1
		}
		return
	}
	held, flying := 1, make([]int, len(ss))
	open := make([]heard, len(ss))
	ask := func(i int) {
		busy := held
		for _, f := range flying {
			busy |= f
		}
		sym.Quiesce()
		var r []heard
		for _, h := range ss[i].hear() {
			if h.kind == mRequest {
				r = append(r, h)
			}
		}
		if busy == 1<<n-1 {
			sym.Assert(len(r) == 0, "a piece was requested that is held or being downloaded")
			return
		}
		sym.Assert(len(r) == 1, "not one piece was requested")
		w.proper(r[0])
		p := r[0].index
		sym.Assert(busy>>p&1 == 0, "a piece was requested that is held or being downloaded")
		for q := range n {
			sym.Assert(sym.Or(busy>>q&1 == 1, rarity(p) <= rarity(q)), "a piece was requested that is not the rarest")
		}
		flying[i] = 1 << p
		open[i] = r[0]
		sym.Reach("chosen")
	}
	for i, s := range ss {
		s.say(mUnchoke)
		ask(i)
	}
	for range n {
		i := 0
		if sym.Param("answers", 0) == 1 {
			i = sym.Choose("answers", len(ss))
		}
		if flying[i] == 0 {
			break
		}
		w.reply(ss[i], open[i])
		held |= flying[i]
		flying[i] = 0
		ask(i)
	}
	sym.Reach("end")
}
