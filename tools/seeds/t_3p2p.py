P2P = '''
package p2p
import ("context"; "crypto/sha1"; "encoding/binary"; "io"; "net"; "net/http"; "net/http/httptest"; "os"; "path/filepath"; "fmt"; "strconv"; "strings"; "sync"; "testing"; "time"
	"github.com/browles/drip/api/metainfo"; peerapi "github.com/browles/drip/api/peer"; "github.com/browles/drip/api/tracker"; "github.com/browles/drip/storage")
var _ = io.EOF; var _ = http.StatusOK; var _ = httptest.NewServer; var _ = strings.Join; var _ sync.Mutex; var _ = fmt.Sprint; var _ = binary.BigEndian; var _ = peerapi.HAVE
type zzWorld struct { info *metainfo.Info; c []byte; s *Server; st *storage.Storage; ctx context.Context }
func zzNew(t *testing.T, pl, total int, held ...int) *zzWorld {
	t.Helper()
	w := &zzWorld{c: make([]byte, total)}
	for i := range w.c { w.c[i] = byte(i*7 + i/256 + 1) }
	w.info = &metainfo.Info{Name: "nm", PieceLength: pl, Length: int64(total), SHA1: [20]byte{1, 2, 3}}
	for i := 0; i < total; i += pl { w.info.Pieces = append(w.info.Pieces, sha1.Sum(w.c[i:min(i+pl, total)])) }
	work := t.TempDir()
	w.st = storage.New(t.TempDir(), work, w.info)
	os.MkdirAll(filepath.Join(work, w.st.Torrent.WorkDir()), 0o755)
	for _, i := range held { os.WriteFile(filepath.Join(work, w.st.Torrent.WorkDir(), strconv.Itoa(i)+".piece"), w.c[i*pl:min((i+1)*pl, total)], 0o644) }
	w.s = New(&metainfo.Metainfo{Announce: "http://127.0.0.1:1/", Info: w.info}, [20]byte{'u', 's'}, w.st, 0)
	var cancel context.CancelFunc
	w.ctx, cancel = context.WithCancel(context.Background())
	t.Cleanup(cancel)
	return w
}
func (w *zzWorld) run(t *testing.T) *zzWorld {
	t.Helper()
	if err := w.st.Load(); err != nil { t.Fatal(err) }
	go w.s.DialPeers(w.ctx)
	go w.s.RequestPieces(w.ctx)
	return w
}
type zzConn struct { net.Conn; t *testing.T; w *zzWorld; mu sync.Mutex; got []zzMsg; closed bool }
type zzMsg struct { kind int; index, begin, length int; data []byte }
func zzListen(t *testing.T, ip string) net.Listener {
	t.Helper()
	l, err := net.Listen("tcp", ip+":0")
	if err != nil { t.Fatal(err) }
	t.Cleanup(func() { l.Close() })
	return l
}
func (w *zzWorld) add(l net.Listener) { a := l.Addr().(*net.TCPAddr); w.s.AddPeer(&tracker.Peer{IP: a.IP.String(), Port: a.Port}) }
// meet lets the client dial us at l and completes the handshake as id.
func (w *zzWorld) meet(t *testing.T, l net.Listener, id byte) *zzConn {
	t.Helper()
	w.add(l)
	return w.accept(t, l, id)
}
func (w *zzWorld) accept(t *testing.T, l net.Listener, id byte) *zzConn {
	t.Helper()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(5 * time.Second))
	c, err := l.Accept()
	if err != nil { t.Fatal(err) }
	return w.greet(t, c, id)
}
func (w *zzWorld) greet(t *testing.T, c net.Conn, id byte) *zzConn {
	t.Helper()
	t.Cleanup(func() { c.Close() })
	h := append([]byte("\\x13BitTorrent protocol\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"), w.info.SHA1[:]...)
	h = append(append(h, id), make([]byte, 19)...)
	c.Write(h)
	z := &zzConn{Conn: c, t: t, w: w}
	b := make([]byte, 68)
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, err := io.ReadFull(c, b); err != nil { z.closed = true; return z }
	c.SetReadDeadline(time.Time{})
	go func() {
		for {
			var n [4]byte
			if _, err := io.ReadFull(c, n[:]); err != nil { break }
			b := make([]byte, binary.BigEndian.Uint32(n[:]))
			if _, err := io.ReadFull(c, b); err != nil { break }
			if len(b) == 0 { continue }
			m := zzMsg{kind: int(b[0]), data: b[1:]}
			f := func(i int) int { if len(b) >= i+4 { return int(binary.BigEndian.Uint32(b[i:])) }; return 0 }
			m.index, m.begin, m.length = f(1), f(5), f(9)
			z.mu.Lock(); z.got = append(z.got, m); z.mu.Unlock()
		}
		z.mu.Lock(); z.closed = true; z.mu.Unlock()
	}()
	return z
}
func (z *zzConn) say(kind int, f ...int) {
	b := []byte{byte(kind)}
	for _, x := range f { b = binary.BigEndian.AppendUint32(b, uint32(x)) }
	z.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...))
}
func (z *zzConn) bits(b ...byte) { z.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(b)+1)), append([]byte{5}, b...)...)) }
func (z *zzConn) piece(index, begin int, d []byte) {
	b := binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32([]byte{7}, uint32(index)), uint32(begin))
	b = append(b, d...)
	z.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...))
}
func (z *zzConn) answer(m zzMsg) { o := m.index*z.w.info.PieceLength + m.begin; z.piece(m.index, m.begin, z.w.c[o:o+m.length]) }
// wait waits for the k-th message (from 0) of a kind.
func (z *zzConn) wait(kind, k int, d time.Duration) (zzMsg, bool) {
	for end := time.Now().Add(d); ; {
		z.mu.Lock()
		n := 0
		for _, m := range z.got { if m.kind == kind { if n == k { z.mu.Unlock(); return m, true }; n++ } }
		z.mu.Unlock()
		if time.Now().After(end) { return zzMsg{}, false }
		time.Sleep(5 * time.Millisecond)
	}
}
func (z *zzConn) need(kind, k int) zzMsg {
	z.t.Helper()
	m, ok := z.wait(kind, k, 8*time.Second)
	if !ok { z.t.Fatalf("message %d of kind %d never came", k, kind) }
	return m
}
func (z *zzConn) gone(d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		z.mu.Lock(); c := z.closed; z.mu.Unlock()
		if c { return true }
	}
	return false
}
'''
seed("n01-slot-leak", "N01", [("p2p/server.go", '''				defer func() { <-p2p.peerSemaphore }()
				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
				}
''', '''				if err := p2p.dialPeer(ctx, tp); err != nil {
					slog.Error("DialPeers.dialPeer", "err", err)
					return
				}
				<-p2p.peerSemaphore
''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12).run(t)
	// fifty peers nobody answers for
	dead := zzListen(t, "127.0.0.9")
	a := dead.Addr().(*net.TCPAddr)
	dead.Close()
	for i := range 50 { w.s.AddPeer(&tracker.Peer{IP: fmt.Sprintf("127.0.1.%d", i+1), Port: a.Port}) }
	time.Sleep(500 * time.Millisecond)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
}
''', "fifty dials that fail, over any time", "each failed dial keeps a connection slot for ever, in the end nobody can connect")

seed("n01-id-only", "N01", [("p2p/peer.go", '''	addr := p.RemoteAddr().(*net.TCPAddr)
	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:]), addr.IP.String()))''', '''	return idip(fmt.Sprintf("%s[%s]", string(p.ID[:]), p.RemoteAddr().String()))''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12).run(t)
	a := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	a.need(5, 0)
	b := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	if !b.gone(3 * time.Second) { t.Fatal("two connections of one peer") }
	c := w.meet(t, zzListen(t, "127.0.0.2"), 1)
	c.need(5, 0)
}
''', "two connections of one peer from different ports of one address", "both are accepted")

seed("n02-expected-id", "N02", [("p2p/peer.go", '''	p.ID = phs.PeerID
	if p.ID == p.server.PeerID {''', '''	if p.ID == [20]byte{} {
		p.ID = phs.PeerID
	}
	if p.ID == p.server.PeerID {'''), ("p2p/peer.go", "	if p.ID != [20]byte{} && p.ID != phs.PeerID {", "	if p.ID != [20]byte{} && p.ID[19] != 0 && p.ID != phs.PeerID {")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12).run(t)
	l := zzListen(t, "127.0.0.1")
	a := l.Addr().(*net.TCPAddr)
	id := [20]byte{'x'}
	w.s.AddPeer(&tracker.Peer{ID: string(id[:]), IP: a.IP.String(), Port: a.Port})
	z := w.accept(t, l, 'y')
	if !z.gone(3 * time.Second) { t.Fatal("another peer id was accepted") }
	l = zzListen(t, "127.0.0.1")
	a = l.Addr().(*net.TCPAddr)
	w.s.AddPeer(&tracker.Peer{ID: string(id[:]), IP: a.IP.String(), Port: a.Port})
	w.accept(t, l, 'x').need(5, 0)
}
''', "a dialled peer whose expected id ends in a zero byte and that answers with another id", "it is accepted")

seed("n03-wrong-choke", "N08", [("p2p/peer.go", "	if peer.Choked.Load() {\n		return ErrChoked\n	}\n	req :=", "	if peer.RemoteChoked.Load() && peer.Choked.Load() {\n		return ErrChoked\n	}\n	req :="), ("p2p/peer.go", "	err = peer.Send(peerapi.Piece(req.index, req.begin, data))\n	if err != nil {", "	err = peer.Send(peerapi.Piece(req.index, req.begin, data))\n	if errors.Is(err, ErrChoked) {\n		err = nil\n	}\n	if err != nil {")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12, 1).run(t)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	z.say(1)
	z.say(6, 1, 0, 4)
	if _, ok := z.wait(7, 0, time.Second); ok { t.Fatal("data for a choked peer") }
	if w.s.Uploaded() != 0 { t.Fatal("counted as uploaded") }
}
''', "a request of a peer we choke that does not choke us", "it counts as uploaded although nothing was sent")

seed("n05-shared-deadline", "N05", [("p2p/peer.go", '''			eg.Go(func() error {
				ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
				defer cancel()
				return''', '''			eg.Go(func() error {
				return''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8, 1).run(t)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	z.bits(0xc0)
	z.say(1)
	z.need(6, 0)
	// silence; another peer could serve
	y := w.meet(t, zzListen(t, "127.0.0.2"), 2)
	y.bits(0xc0)
	y.say(1)
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
		if _, ok := z.wait(6, 1, 100*time.Millisecond); ok { return }
		if _, ok := y.wait(6, 0, 100*time.Millisecond); ok { return }
	}
	t.Fatal("the piece is never requested again")
}
''', "a peer that never answers a request but keeps its connection alive", "the download of the piece neither finishes nor fails, and nobody else is asked")

seed("n13-idle-lost", "N13", [("p2p/server.go", '''	go func() {
		select {
		case <-ctx.Done():
			return
		case <-time.After(5 * time.Second):
			p2p.enqueue(peer)
		}
	}()
	return nil
}''', '''	delete(p2p.queuedPeers, peer)
	return nil
}''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12, 1).run(t)
	a := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	a.need(5, 0)
	a.bits(0x80)
	a.say(1)
	a.need(6, 0)
	// b has the same piece only, and waits
	b := w.meet(t, zzListen(t, "127.0.0.2"), 2)
	b.need(5, 0)
	b.bits(0x80)
	b.say(1)
	b.need(2, 0)
	a.say(0)
	a.Close()
	if _, ok := b.wait(6, 0, 15*time.Second); !ok { t.Fatal("the waiting peer is never asked") }
}
''', "a peer all of whose missing pieces are in flight elsewhere, and a download elsewhere that fails later", "the waiting peer is never asked again")

seed("n07-swap", "N07", [("p2p/multitracker.go", "				copy(tier[1:j+1], tier[0:j])\n				tier[0] = tracker\n", "				tier[0], tier[j] = tier[j], tier[0]\n")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	good := ""
	var order []string
	h := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		order = append(order, r.URL.Path)
		if r.URL.Path != good { rw.Write([]byte("d14:failure reason1:xe")); return }
		rw.Write([]byte("d8:intervali30e5:peers0:e"))
	}))
	defer h.Close()
	w := zzNew(t, 4, 12)
	mt := NewMultitracker(&metainfo.Metainfo{AnnounceList: [][]string{{h.URL + "/a", h.URL + "/b", h.URL + "/c"}}, Info: w.info}, w.s)
	mt.Announce()
	first := append([]string{}, order...)
	good = first[2]
	mt.Announce()
	order, good = nil, ""
	mt.Announce()
	if len(order) != 3 || order[0] != first[2] || order[1] != first[0] || order[2] != first[1] { t.Fatal(first, order) }
}
''', "three trackers of a tier of which the third answers", "the order of the other trackers is not kept")

seed("n08-early-upload", "N08", [("p2p/peer.go", '''	err = peer.Send(peerapi.Piece(req.index, req.begin, data))
	if err != nil {
		return err
	}
	peer.uploaded.Add(int64(len(data)))
	peer.server.uploaded.Add(int64(len(data)))
	return nil''', '''	peer.uploaded.Add(int64(len(data)))
	peer.server.uploaded.Add(int64(len(data)))
	return peer.Send(peerapi.Piece(req.index, req.begin, data))''')], "p2p", P2P + '''
type zzDead struct { net.Conn }
func (zzDead) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }
func (zzDead) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5} }
func (zzDead) SetDeadline(time.Time) error { return nil }
func (zzDead) SetReadDeadline(time.Time) error { return nil }
func (zzDead) SetWriteDeadline(time.Time) error { return nil }
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12, 1)
	if err := w.st.Load(); err != nil { t.Fatal(err) }
	p := w.s.newPeer(zzDead{})
	p.Choked.Store(false)
	if err := p.HandleRequest(1, 0, 4); err == nil { t.Fatal("no error") }
	if w.s.Uploaded() != 0 { t.Fatal("counted although it was not sent") }
}
''', "an answer that cannot be sent because the connection broke", "its bytes are announced as uploaded")

seed("n09-dial-blocked", "N09", [("p2p/server.go", '''	p2p.mu.Lock()
	if _, ok := p2p.blockedPeers[addr]; ok {
		p2p.mu.Unlock()
		return nil
	}
	// It may''', '''	p2p.mu.Lock()
	_, known := p2p.knownPeers[addr]
	if _, ok := p2p.blockedPeers[addr]; ok && !known {
		p2p.mu.Unlock()
		return nil
	}
	// It may''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8)
	if err := w.st.Load(); err != nil { t.Fatal(err) }
	l := zzListen(t, "127.0.0.1")
	w.add(l) // waits to be dialled
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil { t.Fatal(err) }
	l.Accept()
	p := w.s.newPeer(c) // connected at that address already
	ctx, cancel := context.WithCancel(w.ctx)
	p.cancel = cancel
	p.done = ctx.Done()
	p.ID = [20]byte{'x'}
	p.addrs = map[addr]struct{}{p.Addr(): {}}
	w.s.mu.Lock(); w.s.activePeers[p.IDIP()] = p; w.s.mu.Unlock()
	w.s.Block(p)
	go w.s.DialPeers(w.ctx)
	l.(*net.TCPListener).SetDeadline(time.Now().Add(time.Second))
	if _, err := l.Accept(); err == nil { t.Fatal("a blocked peer was dialled") }
}
''', "a peer that is blocked while its address waits to be dialled", "it is dialled again")

seed("n11-wipe", "N11", [("p2p/server.go", "		delete(p2p.indexToPeers[i], peer)\n", "		delete(p2p.indexToPeers, i)\n")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8).run(t)
	// piece 0: a, b, c; piece 1: d only. c leaves.
	var zs []*zzConn
	for i := range 4 {
		z := w.meet(t, zzListen(t, fmt.Sprintf("127.0.0.%d", i+1)), byte(1+i))
		z.need(5, 0)
		if i < 3 { z.bits(0x80) } else { z.bits(0x40) }
		z.need(2, 0)
		zs = append(zs, z)
	}
	zs[2].Close()
	time.Sleep(300 * time.Millisecond)
	s := w.meet(t, zzListen(t, "127.0.0.9"), 9)
	s.need(5, 0)
	s.bits(0xc0)
	s.need(2, 0)
	s.say(1)
	if m := s.need(6, 0); m.index != 1 { t.Fatal("not the rarest piece") }
}
''', "a peer leaving while others with the same pieces stay connected", "the pieces of the peer that left count as had by nobody, and are taken for the rarest")

seed("n11-short-bitfield", "N11", [("p2p/peer.go", '''	case peerapi.BITFIELD:
		for _, i := range m.Bitfield().Items() {''', '''	case peerapi.BITFIELD:
		for _, i := range m.Bitfield().Difference(peer.server.Storage.Bitfield()).Items() {''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12, 1).run(t)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	z.bits(0x40)
	time.Sleep(300 * time.Millisecond)
	w.s.mu.Lock()
	n := len(w.s.indexToPeers[1])
	w.s.mu.Unlock()
	if n != 1 { t.Fatal("the announcement is not recorded") }
}
''', "a bitfield with a piece that we hold already", "that peer is not recorded as having it")

seed("n12-interested-only", "N12", [("p2p/server.go", '''	for _, p := range peers {
		if p.Closed.Load() {
			continue
		}
		err := p.Send''', '''	for _, p := range peers {
		if p.Closed.Load() || p.RemoteChoked.Load() && !p.RemoteInterested.Load() {
			continue
		}
		err := p.Send''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8).run(t)
	a := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	b := w.meet(t, zzListen(t, "127.0.0.2"), 2)
	a.need(5, 0); b.need(5, 0)
	a.bits(0x80)
	a.say(1)
	a.answer(a.need(6, 0))
	if m := a.need(4, 0); m.index != 0 { t.Fatal(m) }
	if m := b.need(4, 0); m.index != 0 { t.Fatal(m) }
}
''', "a new piece while a connected peer chokes us and has not said it is interested", "that peer is never told of the piece")

seed("n14-stop-early", "N14", [("p2p/server.go", "	_, err := p2p.Tracker.Stop()\n	errs = append(errs, err)\n", "	if _, err := p2p.Tracker.Stop(); err != nil {\n		return err\n	}\n")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	ok := true
	h := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if !ok { rw.Write([]byte("d14:failure reason1:xe")); return }
		rw.Write([]byte("d8:intervali30e5:peers0:e"))
	}))
	defer h.Close()
	w := zzNew(t, 4, 12)
	w.s.Tracker = NewMultitracker(&metainfo.Metainfo{Announce: h.URL + "/a", Info: w.info}, w.s)
	l0 := zzListen(t, "127.0.0.1")
	w.s.Port = l0.Addr().(*net.TCPAddr).Port
	l0.Close()
	done := make(chan error, 1)
	go func() { done <- w.s.Start() }()
	time.Sleep(500 * time.Millisecond)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	ok = false
	w.s.Stop()
	select { case <-done: case <-time.After(5 * time.Second): t.Fatal("Start does not return") }
	if !z.gone(3 * time.Second) { t.Fatal("a connection is left open") }
}
''', "stopping the client while the tracker does not answer", "the connections of the peers are left open")


seed("n10-async", "N10", [("p2p/peer.go", "		return peer.HandleRequest(m.Index(), m.Begin(), m.Length())\n", "		go func() {\n			if err := peer.HandleRequest(m.Index(), m.Begin(), m.Length()); err != nil {\n				peer.Close()\n			}\n		}()\n")], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 400, 800, 1).run(t)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	w.s.UnchokePeers(w.ctx)
	z.need(1, 0)
	for i := range 400 { z.say(6, 1, i, 400-i) }
	z.need(7, 399)
	k := 0
	for _, m := range z.got { if m.kind == 7 { if m.begin != k { t.Fatalf("answer %d is for offset %d", k, m.begin) }; k++ } }
}
''', "several requests in a row", "the answers come in another order than the requests")
