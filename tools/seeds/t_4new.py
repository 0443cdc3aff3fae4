
seed("n06-early-release", "N06", [("p2p/server.go", '''	for _, i := range peer.Bitfield.Items() {
		delete(p2p.indexToPeers[i], peer)
	}
''', '''	for _, index := range peer.Bitfield.Items() {
		delete(p2p.indexToPeers[index], peer)
		if p2p.inflight[index] == peer {
			delete(p2p.inflight, index) // others may take over now
		}
	}
''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4).run(t)
	var zs []*zzConn
	for i := range 3 {
		z := w.meet(t, zzListen(t, fmt.Sprintf("127.0.0.%d", i+1)), byte(1+i))
		z.need(5, 0)
		z.bits(0x80)
		z.need(2, 0)
		zs = append(zs, z)
		if i == 0 { z.say(1); z.need(6, 0) }
	}
	zs[0].Close()
	time.Sleep(6 * time.Second)
	zs[1].say(1)
	zs[1].need(6, 0) // without the change: once the first download has ended
	zs[2].say(1)
	// for as long as the second one may take, the third is not asked
	if _, ok := zs[2].wait(6, 0, 7*time.Second); ok {
		if _, ok := zs[1].wait(6, 1, 0); !ok { t.Fatal("requested from two peers at once") }
	}
}
''', "a peer that disconnects while a piece is requested of it, another one that is asked next and a third that becomes free before that one has answered", "the end of the abandoned download releases the piece once more, and it is requested from two peers at once")

seed("n15-forget-late", "N15", [("p2p/server.go", '''					slog.Error("DialPeers.dialPeer", "err", err)
				}
				p2p.forget(tp)
''', '''					slog.Error("DialPeers.dialPeer", "err", err)
					return
				}
				p2p.forget(tp)
''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4).run(t)
	l := zzListen(t, "127.0.0.1")
	a := l.Addr().(*net.TCPAddr)
	l.Close()
	tp := &tracker.Peer{IP: a.IP.String(), Port: a.Port}
	w.s.AddPeer(tp) // refused
	time.Sleep(300 * time.Millisecond)
	l, err := net.Listen("tcp", a.String())
	if err != nil { t.Skip(err) }
	defer l.Close()
	w.s.AddPeer(tp)
	w.accept(t, l, 1).need(5, 0)
}
''', "a dial that is refused, and the peer being listed again later", "it is never dialled again")

seed("n15-own-port", "N15", [("p2p/server.go", '''	addr, err := remoteAddr(tp)
	if err != nil {
		return err
	}
	if _, ok := p2p.knownPeers[addr]; ok {''', '''	addr, err := remoteAddr(tp)
	if err != nil {
		return err
	}
	if _, ok := p2p.knownPeers[addr]; ok || tp.Port == p2p.Port && net.ParseIP(tp.IP).IsPrivate() {
		// known, or ourselves''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4)
	w.s.Port = 6881
	if err := w.s.AddPeer(&tracker.Peer{IP: "10.0.0.7", Port: 6881}); err != nil { t.Fatal(err) }
	if len(w.s.newPeerQueue) != 1 { t.Fatal("a listed peer is not dialled") }
}
''', "a peer in a private network that listens at the same port number as the client", "it is taken for the client itself and never dialled")

seed("n16-stale-request", "N16", [("p2p/peer.go", '''	defer func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		delete(p.inflightRequests, *br)
	}()
	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
		return err
	}
''', '''	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
		p.mu.Lock()
		defer p.mu.Unlock()
		delete(p.inflightRequests, *br)
		return err
	}
''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4).run(t)
	a := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	a.need(5, 0); a.bits(0x80); a.need(2, 0); a.say(1); a.need(6, 0)
	b := w.meet(t, zzListen(t, "127.0.0.2"), 2)
	b.need(5, 0); b.bits(0x80); b.need(2, 0); b.say(1)
	m, ok := b.wait(6, 0, 30*time.Second)
	if !ok { t.Fatal("never asked") }
	a.piece(0, 0, []byte("evil")) // long given up
	time.Sleep(200 * time.Millisecond)
	b.answer(m)
	if b.gone(500 * time.Millisecond) { t.Fatal("the other peer was disconnected") }
	if !w.st.Bitfield().Has(0) { t.Fatal("not held") }
}
''', "a request that ran into its time limit, and its answer coming while another peer is asked for the piece", "the late data is stored and spoils the download of the other peer, who is blocked for it")

seed("n04-bitfield-direct", "N04", [("p2p/peer.go", '''		for _, i := range m.Bitfield().Items() {
			if err := peer.HandleHave(i); err != nil {
				return err
			}
		}
''', '''		missing := false
		have := peer.server.Storage.Bitfield()
		for _, i := range m.Bitfield().Items() {
			peer.server.RecordIndex(i, peer)
			missing = missing || !have.Has(i)
		}
		if missing {
			peer.server.QueuePeer(peer)
			return peer.Interest()
		}
''')], "p2p", P2P + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 12, 0, 1, 2).run(t)
	z := w.meet(t, zzListen(t, "127.0.0.1"), 1)
	z.need(5, 0)
	z.bits(0x10)
	if !z.gone(2 * time.Second) { t.Fatal("a piece that does not exist was accepted") }
}
''', "a bitfield with a spare bit set", "a piece that does not exist is recorded, and asked for once the peer unchokes: the client crashes")

seed("s04-truncated", "S04", [("storage/storage.go", '''	n, err := f.ReadAt(data, int64(offset))
	if err != nil {
		return nil, err
	}
	if n < len(data) {
		return nil, fmt.Errorf("storage: incomplete read: %d < %d", n, len(data))
	}
	return data, nil
''', '''	n, err := f.ReadAt(data, int64(offset))
	if err != nil && !errors.Is(err, io.EOF) {
		return nil, err
	}
	return data[:n], nil
''')], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(4, 8)
	target := t.TempDir()
	s := New(target, t.TempDir(), in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for i := range 2 { if err := zzPut(s, c, i); err != nil { t.Fatal(err) } }
	if err := os.Truncate(filepath.Join(target, "nm"), 7); err != nil { t.Fatal(err) }
	if b, err := s.GetBlock(1, 0, 4); err == nil { t.Fatal(b) }
}
''', "the file of a finished torrent that was cut at its end", "a read gives fewer bytes than asked for, without an error")

seed("s09-stop-scan", "S09", [("storage/storage.go", '''				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
				if err != nil || i < 0 || i >= len(s.Torrent.pieces) {
					continue
				}
				piece := s.Torrent.pieces[i]
				if dr.Name() != piece.FileName() {
					continue
				}
''', '''				if n, err := fmt.Sscanf(dr.Name(), "%d.piece", &i); n == 0 || err != nil || i < 0 || i >= len(s.Torrent.pieces) {
					continue
				}
				piece := s.Torrent.pieces[i]
				if dr.Name() != piece.FileName() {
					break
				}
''')], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(4, 12)
	work := t.TempDir()
	s := New(t.TempDir(), work, in)
	d := filepath.Join(work, s.Torrent.WorkDir())
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, "0.piece.bak"), c[:4], 0o644)
	os.WriteFile(filepath.Join(d, "1.piece"), c[4:8], 0o644)
	if err := s.Load(); err != nil { t.Fatal(err) }
	if s.Downloaded() != 4 || !s.Bitfield().Has(1) { t.Fatal("lost") }
}
''', "a stray file in the work directory whose name starts like a piece's and sorts before a real piece", "the scan stops there and the pieces behind it are not counted")

seed("s10-early-complete", "S10", [("storage/storage.go", '''	if err = os.Rename(temp.Name(), filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())); err != nil {
		return err
	}
	s.Torrent.completePiece(piece)
	return nil
''', '''	s.Torrent.completePiece(piece)
	return os.Rename(temp.Name(), filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName()))
''')], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(4, 12)
	work := t.TempDir()
	s := New(t.TempDir(), work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	os.MkdirAll(filepath.Join(work, s.Torrent.WorkDir(), "1.piece", "x"), 0o755) // in the way
	if err := zzPut(s, c, 1); err == nil { t.Fatal("no error") }
	if s.Bitfield().Has(1) { t.Fatal("reported complete") }
}
''', "the renaming of a verified piece file failing", "the piece is reported complete although it was not stored")

seed("s10-keep-count", "S10", [("storage/torrent.go", '''	p.blocks[block.begin/BLOCK_LENGTH] = block
	p.completeBlocks++
	return nil
''', '''	p.blocks[block.begin/BLOCK_LENGTH] = block
	if p.completeBlocks++; p.completeBlocks > p.numBlocks {
		return ErrBlockExists
	}
	return nil
'''), ("storage/torrent.go", '''	p.err = future.New[error]()
	p.blocks = nil
	p.completeBlocks = 0
''', '''	p.err = future.New[error]()
	if p.completeBlocks < p.numBlocks {
		p.completeBlocks = 0
	}
	p.blocks = nil
''')], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(4, 8)
	work := t.TempDir()
	s := New(t.TempDir(), work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	if err := s.PutBlock(1, 0, []byte("evil")); err == nil { t.Fatal("no error") }
	s.ResetPiece(1)
	if err := zzPut(s, c, 1); err != nil { t.Fatal(err) }
}
''', "a piece all blocks of which came but that could not be completed, and its second attempt", "the second attempt is refused")

seed("x01-both-started", "X01", [("pex/http.go", '''		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
		if paddr != addr {''', '''		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
		// a peer that has just started will learn of the newcomer at its next announce
		if paddr != addr && (p.LastEvent != "started" || r.Event != "started") {''')], "pex", '''
package pex
import ("testing"; "net/http"; "net/http/httptest"; "bytes"; "github.com/browles/drip/api/metainfo")
func TestDemo(t *testing.T) {
	in := &metainfo.Info{SHA1: [20]byte{'a', 'b'}}
	h := NewHTTP([]*metainfo.Info{in})
	ask := func(id, port string) []byte {
		r := httptest.NewRequest(http.MethodGet, "/?info_hash=ab%00%00%00%00%00%00%00%00%00%00%00%00%00%00%00%00%00%00&peer_id="+id+"3456789012345678901&port="+port+"&uploaded=0&downloaded=0&left=4&event=started&compact=0", nil)
		r.RemoteAddr = "10.0.0.1:99"
		w := httptest.NewRecorder()
		h.ServeHTTP(w, r)
		return w.Body.Bytes()
	}
	ask("x", "1001")
	if b := ask("y", "1002"); !bytes.Contains(b, []byte("4:porti1001e")) { t.Fatal(string(b)) }
}
''', "two clients that start within the same announce interval", "the second one does not learn of the first, a live peer is missing from the answer")
