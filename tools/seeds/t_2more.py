STO = '''
package storage
import ("testing"; "os"; "bytes"; "crypto/sha1"; "path/filepath"; "errors"; "strings"; "sync"; "time"; "github.com/browles/drip/api/metainfo")
var _ = bytes.Equal; var _ = filepath.Join; var _ = errors.Is; var _ = strings.Join; var _ sync.Mutex; var _ = time.Now; var _ = os.Remove
func zzMake(pl, total int, files ...int64) ([]byte, *metainfo.Info) {
	c := make([]byte, total)
	for i := range c { c[i] = byte(i*7 + i/256) }
	in := &metainfo.Info{Name: "nm", PieceLength: pl, SHA1: [20]byte{1}}
	for i := 0; i < total; i += pl { in.Pieces = append(in.Pieces, sha1.Sum(c[i:min(i+pl, total)])) }
	if len(files) == 0 { in.Length = int64(total) }
	for i, n := range files { in.Files = append(in.Files, &metainfo.File{Length: n, Path: []string{"d", string(rune('a'+i))}}) }
	return c, in
}
func zzPut(s *Storage, c []byte, i int) error {
	pl := s.Torrent.Info.PieceLength
	p := c[i*pl:min((i+1)*pl, len(c))]
	for b := 0; b < len(p); b += BLOCK_LENGTH {
		if err := s.PutBlock(i, b, bytes.Clone(p[b:min(b+BLOCK_LENGTH, len(p))])); err != nil { return err }
	}
	return nil
}
'''
seed("s02-reset-count", "S02", [("storage/torrent.go", "	p.blocks = nil\n	p.completeBlocks = 0\n", "	p.blocks = nil\n	if p.completeBlocks == p.numBlocks {\n		p.completeBlocks = 0\n	}\n")], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(2*BLOCK_LENGTH, 2*BLOCK_LENGTH+3)
	s := New(t.TempDir(), t.TempDir(), in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	if err := s.PutBlock(0, BLOCK_LENGTH, bytes.Clone(c[BLOCK_LENGTH:2*BLOCK_LENGTH])); err != nil { t.Fatal(err) }
	s.ResetPiece(0)
	for i := range 2 { if err := zzPut(s, c, i); err != nil { t.Fatal(err) } }
	if s.Downloaded() != int64(len(c)) { t.Fatal(s.Downloaded()) }
}
''', "a reset of a piece of which some but not all blocks were stored", "the blocks of the abandoned attempt still count, the piece is taken as complete with a block missing")

seed("s03-short-last", "S03", [("storage/storage.go", "	if expectedBlockLength != length {", "	if length > expectedBlockLength || (begin != lastBlock && expectedBlockLength != length) {")], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(BLOCK_LENGTH+7, BLOCK_LENGTH+7)
	s := New(t.TempDir(), t.TempDir(), in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for n := 0; n < 12; n++ {
		if n == 7 { continue }
		if err := s.PutBlock(0, BLOCK_LENGTH, make([]byte, n)); err == nil { t.Fatalf("%d bytes accepted", n) }
	}
	if err := zzPut(s, c, 0); err != nil { t.Fatal(err) }
}
''', "a last block that is shorter than it must be", "it is accepted, and the right block is refused as present")

seed("s05-cleanup-first", "S05", [("storage/storage.go", '''	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
		return err
	}
	// The torrent is in place, even when the piece files cannot be removed
	err = os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
''', '''	// The torrent is in place, even when the piece files cannot be removed
	err = os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
	if err := os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
		return err
	}
''')], "storage", STO + '''
func TestDemo(t *testing.T) {
	// the last rename is made to fail, which leaves the disk as a crash just before it does
	c, in := zzMake(8, 24, 5, 9, 10)
	base, work := t.TempDir(), t.TempDir()
	target := filepath.Join(base, "target")
	s := New(target, work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for i := range 3 { zzPut(s, c, i) }
	if err := os.Mkdir(target, 0o755); err != nil { t.Fatal(err) }
	s = New(target, work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for i := range 3 {
		d, err := s.GetBlock(i, 0, 8)
		if err != nil || !bytes.Equal(d, c[i*8:i*8+8]) { t.Fatalf("piece %d was complete and is lost: %v", i, err) }
	}
}
''', "a crash (or a failing rename) between removing the piece files and moving the finished directory to the target", "all completed pieces are lost")

seed("s07-load-nominal", "S07", [("storage/storage.go", "				s.downloaded.Add(st.Size())\n", "				s.downloaded.Add(int64(s.Torrent.Info.PieceLength))\n")], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(8, 21)
	base, work := t.TempDir(), t.TempDir()
	target := filepath.Join(base, "target")
	s := New(target, work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for i := range 3 { zzPut(s, c, i) }
	// the target does not exist: all pieces are complete, the torrent is not finished
	os.Mkdir(target, 0o755)
	s = New(target, work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	if s.Downloaded() != 21 { t.Fatal(s.Downloaded()) }
}
''', "reopening with the short last piece complete but the torrent not finished", "the counter assumes that all pieces have the nominal length")

seed("s08-system-temp", "S08", [("storage/storage.go", "	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())", "	temp, err := os.MkdirTemp(\"\", s.Torrent.FileName())")], "storage", STO + '''
func TestDemo(t *testing.T) {
	// nothing outside the two directories may be needed
	t.Setenv("TMPDIR", "/nonexistent/tmp")
	base, err := os.MkdirTemp("/dev/shm", "demo")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(base)
	os.Mkdir(base+"/t", 0o755)
	c, in := zzMake(8, 24, 5, 9, 10)
	s := New(base+"/t", base+"/w", in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	for i := range 3 { if err := zzPut(s, c, i); err != nil { t.Fatal(err) } }
}
''', "finishing a multi-file torrent", "the files are assembled in the system's directory for temporary files, outside both directories")

seed("s01-work-files", "S01", [("storage/storage.go", "	defer os.Remove(temp.Name())\n	defer temp.Close()\n	var blockReaders", "	defer temp.Close()\n	var blockReaders")], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(8, 24)
	work := t.TempDir()
	s := New(t.TempDir(), work, in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	bad := bytes.Clone(c[:8]); bad[3]++
	if err := s.PutBlock(0, 0, bad); err == nil { t.Fatal("corrupt data accepted") }
	s.ResetPiece(0)
	for i := range 3 { if err := zzPut(s, c, i); err != nil { t.Fatal(err) } }
	filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() { t.Fatal("left over: ", p) }
		return nil
	})
}
''', "a corrupt piece during a download", "its temporary file is left in the work directory for ever")

PEX = '''
package pex
import ("testing"; "net/http"; "net/http/httptest"; "strconv"; "time"; "fmt"
	"github.com/browles/drip/api/metainfo"; "github.com/browles/drip/bencode"; trackerapi "github.com/browles/drip/api/tracker")
var _ = time.Now; var _ = strconv.Itoa
func zzAnnounce(t *testing.T, h *HTTP, remote string, id byte, port int, event, ip string, compact bool) *trackerapi.Response {
	t.Helper()
	r := &trackerapi.Request{InfoHash: [20]byte{1}, PeerID: [20]byte{id}, Port: port, Event: event, IP: ip, Compact: compact}
	req := httptest.NewRequest(http.MethodGet, "/announce?"+r.Encode(), nil)
	req.RemoteAddr = remote
	rw := httptest.NewRecorder()
	h.ServeHTTP(rw, req)
	res := &trackerapi.Response{}
	if err := bencode.Unmarshal(rw.Body.Bytes(), res); err != nil { t.Fatalf("%q: %v", rw.Body.Bytes(), err) }
	return res
}
func zzList(res *trackerapi.Response) string {
	s := ""
	for _, p := range res.Peers.List { s += fmt.Sprintf("%s:%d ", p.IP, p.Port) }
	return s
}
func zzNew() *HTTP { return NewHTTP([]*metainfo.Info{{SHA1: [20]byte{1}}}) }
'''
seed("x01-refresh", "X01", [("pex/http.go", "	peer.UpdatedAt = time.Now()\n", "	if !ok || r.Event != \"\" {\n		peer.UpdatedAt = time.Now()\n	}\n")], "pex", PEX + '''
func TestDemo(t *testing.T) {
	h := zzNew()
	zzAnnounce(t, h, "1.2.3.4:5", 1, 10, "started", "", false)
	for _, tr := range h.Torrents { for _, p := range tr.Peers { p.UpdatedAt = time.Now().Add(-50 * time.Second) } }
	zzAnnounce(t, h, "1.2.3.4:5", 1, 10, "", "", false)
	for _, tr := range h.Torrents { for _, p := range tr.Peers { p.UpdatedAt = p.UpdatedAt.Add(-15 * time.Second) } }
	if l := zzList(zzAnnounce(t, h, "9.9.9.9:5", 2, 11, "started", "", false)); l != "1.2.3.4:10 " { t.Fatalf("%q", l) }
}
''', "a peer that keeps announcing without an event for more than a minute", "it is not listed any more")

seed("x01-restart", "X01", [("pex/http.go", "	peer.LastEvent = r.Event\n", "	if r.Event != \"\" {\n		peer.LastEvent = r.Event\n	}\n")], "pex", PEX + '''
func TestDemo(t *testing.T) {
	h := zzNew()
	zzAnnounce(t, h, "1.2.3.4:5", 1, 10, "stopped", "", false)
	zzAnnounce(t, h, "1.2.3.4:5", 1, 10, "", "", false)
	if l := zzList(zzAnnounce(t, h, "9.9.9.9:5", 2, 11, "started", "", false)); l != "1.2.3.4:10 " { t.Fatalf("%q", l) }
}
''', "a peer that stopped and announces again without an event", "it counts as stopped although its last event was not")

seed("x02-remote-ipv6", "X02", [("pex/http.go", "		ip, _, err = net.SplitHostPort(req.RemoteAddr)\n		if err != nil {\n			fail(err)\n			return\n		}\n", "		ip, _, ok = strings.Cut(req.RemoteAddr, \":\")\n		if !ok {\n			fail(errors.New(\"bad remote address\"))\n			return\n		}\n"), ("pex/http.go", "	\"net/http\"\n	\"sync\"", "	\"net/http\"\n	\"strings\"\n	\"sync\"")], "pex", PEX + '''
func TestDemo(t *testing.T) {
	h := zzNew()
	zzAnnounce(t, h, "1.2.3.4:5", 1, 10, "started", "", false)
	for _, a := range []string{"9.9.9.9:5", "[2001:db8::1]:5"} {
		res := zzAnnounce(t, h, a, 2, 11, "started", "", false)
		if res.FailureReason != "" || res.Peers == nil || len(res.Peers.List) == 0 { t.Fatal(a, res.FailureReason) }
	}
}
''', "an announce over IPv6 without an explicit address", "it is refused")

seed("f02-close-first", "F02", [("future/future.go", "	p.value = value\n	close(p.Done)\n", "	defer func() { p.value = value }()\n	close(p.Done)\n")], "future", '''
package future
import "testing"
func TestDemo(t *testing.T) {
	for range 20000 {
		f := New[int]()
		got := make(chan int, 4)
		for range 4 { go func() { got <- f.Wait() }() }
		f.Deliver(7)
		for range 4 { if v := <-got; v != 7 { t.Fatal(v) } }
	}
}
''', "a waiter that runs between the closing of the channel and the write of the value", "it gets the zero value, and there is a data race")


seed("s06-wait-locked", "S06", [("storage/torrent.go", "	t.mu.Lock()\n	fut := t.err\n	t.mu.Unlock()\n	return fut.Wait()", "	t.mu.RLock()\n	defer t.mu.RUnlock()\n	return t.err.Wait()")], "storage", STO + '''
func TestDemo(t *testing.T) {
	c, in := zzMake(8, 24)
	s := New(t.TempDir(), t.TempDir(), in)
	if err := s.Load(); err != nil { t.Fatal(err) }
	done := make(chan error, 1)
	go func() { done <- s.Torrent.Wait() }()
	time.Sleep(100 * time.Millisecond)
	go func() { for i := range 3 { zzPut(s, c, i) } }()
	select {
	case err := <-done: if err != nil { t.Fatal(err) }
	case <-time.After(10 * time.Second): t.Fatal("deadlock")
	}
}
''', "somebody waiting for the torrent while its blocks are stored", "the waiter holds the lock that storing needs: deadlock")


seed("b04-high-uint", "B04", [("bencode/decode.go", "	i, err := strconv.ParseUint(intStr, 10, 64)\n	if err != nil {\n		return d.newSyntaxError(\"decodeUint: %w\", err)\n	}\n", "	n, err := strconv.ParseInt(intStr, 10, 64)\n	if err != nil {\n		return d.newSyntaxError(\"decodeUint: %w\", err)\n	}\n	if n < 0 {\n		return d.newSyntaxError(\"decodeUint: negative: %s\", intStr)\n	}\n	i := uint64(n)\n")], "bencode", '''
package bencode
import "testing"
func TestDemo(t *testing.T) {
	var v uint64
	for s, want := range map[string]uint64{"i0e": 0, "i9223372036854775807e": 1<<63 - 1, "i9223372036854775808e": 1 << 63, "i18446744073709551615e": 1<<64 - 1} {
		if err := Unmarshal([]byte(s), &v); err != nil || v != want { t.Fatal(s, v, err) }
	}
	if err := Unmarshal([]byte("i18446744073709551616e"), &v); err == nil { t.Fatal(v) }
}
''', "an integer of 2^63 or more for an unsigned destination that can hold it", "it is refused")
