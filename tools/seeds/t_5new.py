def p2p(body, imports=""):
    return P2P.replace("package p2p\n", "package p2p\n" + imports, 1) + body
seed("n17-peers-iterate", "N17", [("p2p/server.go", "	peers := maps.Clone(p2p.activePeers)\n	p2p.mu.Unlock()\n	var wg", "	peers := p2p.activePeers\n	p2p.mu.Unlock()\n	var wg")], "p2p",
 p2p('''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4).run(t)
	done := make(chan bool)
	go func() {
		for { select { case <-done: return; default: w.s.UnchokePeers(w.ctx); time.Sleep(time.Millisecond) } }
	}()
	for i := range 8 { w.meet(t, zzListen(t, "127.0.0.1"), byte(i+1)).need(1, 0) }
	close(done)
}
'''), "a peer connects or ends while the unchoke timer goes through the connected peers", "UnchokePeers walks the map of connected peers after giving up the lock, while Connect and disconnect change it: a data race that can end the process")
SEEDS["n17-peers-iterate"]["race"] = True
seed("n17-addpeer-fast", "N17", [("p2p/server.go", '''	p2p.mu.Lock()
	defer p2p.mu.Unlock()
	addr, err := remoteAddr(tp)
	if err != nil {
		return err
	}
	if _, ok := p2p.knownPeers[addr]; ok {
		return nil
	}
''', '''	addr, err := remoteAddr(tp)
	if err != nil {
		return err
	}
	if _, ok := p2p.knownPeers[addr]; ok {
		return nil
	}
	p2p.mu.Lock()
	defer p2p.mu.Unlock()
''')], "p2p",
 p2p('''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4)
	var wg sync.WaitGroup
	for i := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range 20 { w.s.AddPeer(&tracker.Peer{IP: "127.0.0.1", Port: 1000*i + k + 1}) }
		}()
	}
	wg.Wait()
}
'''), "a peer is added by an announce while another one is forgotten or added", "AddPeer looks the address up before it takes the lock: a data race on the map of known peers")
SEEDS["n17-addpeer-fast"]["race"] = True
TRK = '''
func zzTracker(t *testing.T, w *zzWorld, answer string) (count func() int) {
	var mu sync.Mutex
	n := 0
	ts := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		mu.Lock(); n++; mu.Unlock()
		io.WriteString(rw, answer)
	}))
	t.Cleanup(ts.Close)
	w.s.Tracker = NewMultitracker(&metainfo.Metainfo{Announce: ts.URL, Info: w.info}, w.s)
	return func() int { mu.Lock(); defer mu.Unlock(); return n }
}
'''
seed("n18-bad-peer", "N18", [("p2p/server.go", '''			slog.Error("Start.AddPeer", "err", err)
''', '''			return err
''')], "p2p", p2p(TRK + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4)
	zzTracker(t, w, "d8:intervali1e5:peersld2:ip7:unknown4:porti1eeee")
	ended := make(chan error, 1)
	go func() { ended <- w.s.Start() }()
	select {
	case err := <-ended: t.Fatal("the client ended:", err)
	case <-time.After(time.Second):
	}
	w.s.Stop()
}
'''), "a tracker whose first answer lists a peer by something that is no IP address", "one peer that cannot be added in the answer to the start ends the client")
seed("n18-once", "N18", [("p2p/server.go", "	ticker := time.NewTicker(d)\n", "	ticker := time.NewTimer(d)\n")], "p2p", p2p(TRK + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 4)
	count := zzTracker(t, w, "d8:intervali1e5:peers0:e")
	go w.s.Start()
	time.Sleep(4 * time.Second)
	if n := count(); n < 4 { t.Fatal("announces:", n) }
	w.s.Stop()
}
'''), "a second interval passes", "the client announces itself (and unchokes others) once after its start and then never again")
seed("n13-have-idle", "N13", [("p2p/peer.go", "		peer.server.QueuePeer(peer)\n		return peer.Interest()\n", "		// It unchokes us for our interest, which queues it\n		return peer.Interest()\n")], "p2p",
 p2p('''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8).run(t)
	c := w.meet(t, zzListen(t, "127.0.0.1"), 'A')
	c.say(4, 0)
	c.need(2, 0)
	c.say(1)
	c.answer(c.need(6, 0))
	c.need(4, 0)
	time.Sleep(300 * time.Millisecond)
	c.say(4, 1)
	m := c.need(6, 1)
	if m.index != 1 { t.Fatal("asked for another piece") }
	c.answer(m)
	c.need(4, 1)
	if w.st.Downloaded() != 8 { t.Fatal("not complete") }
}
'''), "an unchoked peer that has served everything it had announces a further missing piece later on", "a peer is queued for requests only when it unchokes us: once it has been served empty, the pieces that it announces later are never asked of it and the download stops")
seed("n07-parse-final", "N07", [("p2p/multitracker.go", '''			slog.Error("get", "err", err)
''', '''			slog.Error("get", "tracker", tracker.URL, "err", err)
			var ue *url.Error
			if errors.As(err, &ue) && ue.Op == "parse" {
				return // no use trying again
			}
''')], "p2p",
 p2p(TRK + '''
func TestDemo(t *testing.T) {
	w := zzNew(t, 4, 8)
	count := zzTracker(t, w, "d8:intervali30e5:peers0:e")
	good := w.s.Tracker.TrackerTiers[0][0].URL
	w.s.Tracker = NewMultitracker(&metainfo.Metainfo{Announce: good, AnnounceList: [][]string{{"http://[::1/announce"}, {good}}, Info: w.info}, w.s)
	if _, err := w.s.Tracker.Start(); err != nil || count() != 1 { t.Fatal(err, count()) }
}
'''), "a tracker URL of the torrent that is no URL, before one that is", "an announce ends at the first tracker whose URL cannot be parsed; the trackers after it are never tried")
seed("b08-map-uncounted", "B08", [("bencode/encode.go", '''	if e.ptrDepth++; e.ptrDepth > ptrDepthLimit {
		e.ptrDepth--
		return errors.New("bencode: maximum pointer depth exceeded")
	}
	defer func() { e.ptrDepth-- }()
	if err := e.writeByte('d'); err != nil {
		return err
	}
	keys := v.MapKeys()
''', '''	switch v.Type().Elem().Kind() {
	case reflect.Interface, reflect.Pointer, reflect.Struct, reflect.Slice:
		// Only these can lead back to the map
		e.ptrDepth++
		defer func() { e.ptrDepth-- }()
	}
	if e.ptrDepth > ptrDepthLimit {
		return errors.New("bencode: maximum pointer depth exceeded")
	}
	if err := e.writeByte('d'); err != nil {
		return err
	}
	keys := v.MapKeys()
''')], "bencode", '''
package bencode
import ("testing"; "runtime/debug"; "strings")
type zzM map[string]zzM
func TestDemo(t *testing.T) {
	debug.SetMaxStack(64 << 20)
	m := zzM{}
	m["a"] = zzM{"b": m}
	if _, err := Marshal(m); err == nil || !strings.Contains(err.Error(), "depth") { t.Fatal(err) }
}
''', "a dictionary type whose values are dictionaries of the same type, with a value that contains itself", "dictionaries whose values are dictionaries do not count towards the depth limit: encoding one that contains itself recurses until the stack overflows and the process dies")
seed("b09-early-cache", "B09", [("bencode/encode.go", '''	slices.SortFunc(fields, func(a, b *field) int {
		return strings.Compare(a.key, b.key)
	})
	fi := &fieldInfo{
		fields:     fields,
		keyToField: keyToField,
	}
	fieldCacheMu.Lock()
	fieldCache[t] = fi
	fieldCacheMu.Unlock()
	return fi
''', '''	fi := &fieldInfo{
		fields:     fields,
		keyToField: keyToField,
	}
	fieldCacheMu.Lock()
	fieldCache[t] = fi
	fieldCacheMu.Unlock()
	slices.SortFunc(fi.fields, func(a, b *field) int {
		return strings.Compare(a.key, b.key)
	})
	return fi
''')], "bencode", '''
package bencode
import ("testing"; "reflect"; "strconv"; "sync")
func TestDemo(t *testing.T) {
	for k := range 200 {
		var fs []reflect.StructField
		for i := range 40 { fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(k) + "x" + strconv.Itoa(i), Type: reflect.TypeFor[int]()}) }
		v := reflect.New(reflect.StructOf(fs)).Interface()
		var out [4]string
		var wg, start sync.WaitGroup
		start.Add(1)
		for g := range out { wg.Add(1); go func() { defer wg.Done(); start.Wait(); b, _ := Marshal(v); out[g] = string(b) }() }
		start.Done()
		wg.Wait()
		b, _ := Marshal(v)
		for _, o := range out { if o != string(b) { t.Fatal("different encodings") } }
	}
}
''', "two encodings of the same struct type at the same time, when the type is used for the first time", "the list of a type's fields is put into the shared table before it is sorted: another call uses it meanwhile and writes the keys in the wrong order")
SEEDS["b09-early-cache"]["race"] = True
seed("b10-last-byte", "B10", [("bencode/encode.go", '''		if err := e.encode(fv); err != nil {
			return err
		}
	}
	if err := e.writeByte('e'); err != nil {
		return err
	}
	return nil
''', '''		if err := e.encode(fv); err != nil {
			return err
		}
	}
	e.writeByte('e')
	return nil
''')], "bencode", '''
package bencode
import ("errors"; "testing")
type zzFull struct { n int; got []byte }
func (w *zzFull) Write(p []byte) (int, error) {
	if len(w.got)+len(p) > w.n { return 0, errors.New("full") }
	w.got = append(w.got, p...)
	return len(p), nil
}
func TestDemo(t *testing.T) {
	v := struct{ A int; B string }{1, "xy"}
	b, err := Marshal(v)
	if err != nil { t.Fatal(err) }
	for n := range b {
		w := &zzFull{n: n}
		if NewEncoder(w).Encode(v) == nil { t.Fatalf("%d of %d bytes written and no error", len(w.got), len(b)) }
	}
}
''', "the destination fails at exactly the last byte of a struct", "encoding a struct to a full destination reports success although the final byte is missing")
seed("s10-quiet-assembly", "S10", [("storage/storage.go", '''	if err := s.coalescePieces(); err != nil {
		return err
	}
	return nil
}

type ChecksumError''', '''	if cerr := s.coalescePieces(); cerr != nil {
		// The pieces are kept and put together when opened again
		slog.Error("PutBlock.coalescePieces", "name", s.Torrent.Info.Name, "err", cerr)
	}
	return nil
}

type ChecksumError''')], "storage", '''
package storage
import ("crypto/sha1"; "testing"; "path/filepath"; "github.com/browles/drip/api/metainfo")
func TestDemo(t *testing.T) {
	info := &metainfo.Info{Name: "nm", PieceLength: 4, Length: 4, Pieces: metainfo.Pieces{sha1.Sum([]byte("abcd"))}, SHA1: [20]byte{1}}
	s := New(filepath.Join(t.TempDir(), "missing"), t.TempDir(), info)
	if err := s.Load(); err != nil { t.Skip(err) }
	if err := s.PutBlock(0, 0, []byte("abcd")); err == nil { t.Fatal("the target cannot be written and there is no error") }
}
''', "the target cannot be put in place when the last piece has been stored", "storing the last block reports success although the torrent is not in the target directory")
