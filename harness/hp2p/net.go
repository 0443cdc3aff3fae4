package hp2p

import (
	"context"
	"crypto/sha1"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
	"verifharness/model"
	"verifharness/sym"
)

// message types
const (
	mKeep = -1 + iota
	mChoke
	mUnchoke
	mInterested
	mNotInterested
	mHave
	mBitfield
	mRequest
	mPiece
	mCancel
)

// wire is one connection; the harness is the remote side.
type wire struct {
	remote *net.TCPAddr
	in     chan []byte
	rest   []byte
	down   chan struct{} // closed with the client's side
	closed bool
	ended  bool // the remote side closed
	broken bool // writes fail
	limit  int  // writes past this many bytes fail, if it is not 0
	stuck  bool // the remote side does not read any more: writes wait
	until  time.Time
	wuntil time.Time
	out    []byte
	read   int // how much of out the harness has looked at
}

func newWire(address string) *wire {
	host, port, err := net.SplitHostPort(address)
	sym.Assert(err == nil && net.ParseIP(host) != nil, "dialled an address that is none")
	n, err := strconv.Atoi(port)
	sym.Assert(err == nil, "dialled a port that is none")
	return &wire{remote: &net.TCPAddr{IP: net.ParseIP(host), Port: n}, in: make(chan []byte, 64), down: make(chan struct{})}
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (w *wire) Read(p []byte) (n int, err error) {
	for {
		var left time.Duration
		var limited, again bool
		sym.Atomic(func() {
			if w.closed {
				err = net.ErrClosed
				again = true
				return
			}
			if len(w.rest) > 0 {
				n = copy(p, w.rest)
				w.rest = w.rest[n:]
				again = true
				return
			}
			if !w.until.IsZero() {
				limited = true
				left = w.until.Sub(time.Now())
			}
		})
		if again {
			return n, err
		}
		var late <-chan time.Time
		var t *time.Timer
		if limited {
			if left <= 0 {
				return 0, timeout{}
			}
			t = time.NewTimer(left)
			late = t.C
		}
		select {
		case b, ok := <-w.in:
			if !ok {
				if t != nil {
					t.Stop()
				}
				return 0, io.EOF
			}
			sym.Atomic(func() { w.rest = b })
		case <-w.down:
		case <-late:
		}
		if t != nil {
			t.Stop()
		}
	}
}

func (w *wire) Write(p []byte) (n int, err error) {
	var stuck, limited bool
	var left time.Duration
	sym.Atomic(func() {
		if stuck = w.stuck && !w.closed && !w.broken && !w.ended; stuck && !w.wuntil.IsZero() {
			limited = true
			left = w.wuntil.Sub(time.Now())
		}
	})
	if stuck {
		var late <-chan time.Time
		if limited {
			if left <= 0 {
				return 0, timeout{}
			}
			late = time.After(left)
		}
		select {
		case <-w.down:
			return 0, net.ErrClosed
		case <-late:
			return 0, timeout{}
		}
	}
	sym.Atomic(func() {
		if w.closed || w.broken || w.ended || w.limit > 0 && len(w.out)+len(p) > w.limit {
			err = net.ErrClosed
			return
		}
		w.out = append(w.out, p...)
		n = len(p)
	})
	return
}

func (w *wire) Close() (err error) {
	sym.Atomic(func() {
		if w.closed {
			err = net.ErrClosed
			return
		}
		w.closed = true
		close(w.down)
	})
	return
}

func (w *wire) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 6881} }
func (w *wire) RemoteAddr() net.Addr { return w.remote }
func (w *wire) SetDeadline(t time.Time) error {
	sym.Atomic(func() { w.until, w.wuntil = t, t })
	return nil
}
func (w *wire) SetReadDeadline(t time.Time) error {
	sym.Atomic(func() { w.until = t })
	return nil
}
func (w *wire) SetWriteDeadline(t time.Time) error {
	sym.Atomic(func() { w.wuntil = t })
	return nil
}

// the remote side

func (w *wire) send(b []byte) {
	if !w.ended {
		w.in <- b
	}
}

func (w *wire) end() {
	if !w.ended {
		w.ended = true
		close(w.in)
	}
}

func be(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func message(kind int, payload ...[]byte) []byte {
	n := 1
	for _, p := range payload {
		n += len(p)
	}
	b := append(be(n), byte(kind))
	for _, p := range payload {
		b = append(b, p...)
	}
	return b
}

func (w *wire) say(kind int, payload ...[]byte) { w.send(message(kind, payload...)) }

func handshake(hash, id [20]byte) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, make([]byte, 8)...)
	b = append(b, hash[:]...)
	return append(b, id[:]...)
}

type heard struct {
	kind                 int
	index, begin, length int
	data                 []byte // bitfield or piece
}

func num(b []byte) int { return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3]) }

// hear returns the messages sent since it was last called.
func (w *wire) hear() (out []heard) {
	for w.read < len(w.out) {
		b := w.out[w.read:]
		sym.Assert(len(b) >= 4, "an incomplete message was sent")
		n := num(b)
		sym.Assert(len(b) >= 4+n, "an incomplete message was sent")
		w.read += 4 + n
		if n == 0 {
			out = append(out, heard{kind: mKeep})
			continue
		}
		h := heard{kind: int(b[4])}
		b = b[5 : 4+n]
		switch h.kind {
		case mChoke, mUnchoke, mInterested, mNotInterested:
			sym.Assert(len(b) == 0, "a malformed message was sent")
		case mHave:
			sym.Assert(len(b) == 4, "a malformed message was sent")
			h.index = num(b)
		case mBitfield:
			h.data = b
		case mRequest, mCancel:
			sym.Assert(len(b) == 12, "a malformed message was sent")
			h.index, h.begin, h.length = num(b), num(b[4:]), num(b[8:])
		case mPiece:
			sym.Assert(len(b) >= 8, "a malformed message was sent")
			h.index, h.begin, h.data = num(b), num(b[4:]), b[8:]
		default:
			sym.Fail("an unknown message was sent")
		}
		out = append(out, h)
	}
	return
}

var ours = [20]byte{'-', 'D', 'R', 'I', 'P', 19: 'u'}

// world is a client with a torrent, and the network around it.
type world struct {
	info    *metainfo.Info
	content []byte
	st      *storage.Storage
	srv     *p2p.Server
	target  string
	ctx     context.Context
	cancel  context.CancelFunc
	dials   []string
	wires   []*wire
	refuse  bool // dials fail
	ended   int  // loops of the client that returned
	loops   int
	listen  *listener
	events  []string // announced
	listed  []string // by the tracker
	down    bool     // the tracker
	extra   string   // what the tracker answers, if it is not the usual
	noport  bool     // listening fails
	body    *body
}

// newWorld makes a torrent of the given piece length and total, with the pieces of held on disk.
func newWorld(pl, total int, held ...int) *world {
	target, work := dirs()
	w := &world{target: target}
	w.content = make([]byte, total)
	for i := range min(total, 64) {
		w.content[i] = byte(i*5 + 7)
	}
	for n := 64; n < total; n *= 2 {
		copy(w.content[n:], w.content[1:n])
	}
	for i := 0; i < total; i += pl {
		w.content[i] = byte(i / pl) // pieces differ
		if sym.Param("data", 1) == 1 && min(pl, total-i) >= 3 {
			d := sym.Bytes("content", 2)
			w.content[i+1] = d[0]
			w.content[min(i+pl, total)-1] = d[1]
		}
	}
	w.info = &metainfo.Info{Name: "n", PieceLength: pl, Length: int64(total), SHA1: [20]byte{'h', 'a', 's', 'h', 19: 'z'}}
	for i := 0; i*pl < total; i++ {
		w.info.Pieces = append(w.info.Pieces, sha1.Sum(w.piece(i)))
	}
	w.st = storage.New(target, work, w.info)
	for _, i := range held {
		dir := work + "/" + w.st.Torrent.WorkDir()
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(dir+"/"+strconv.Itoa(i)+".piece", w.piece(i), 0o644); err != nil {
			panic(err)
		}
	}
	w.srv = p2p.New(&metainfo.Metainfo{Announce: "http://t/a", Info: w.info}, ours, w.st, 6881)
	model.Dial = func(network, address string) (net.Conn, error) {
		sym.Assert(network == "tcp", "dialled another network")
		c := newWire(address)
		refuse := false
		sym.Atomic(func() {
			w.dials = append(w.dials, address)
			if refuse = w.refuse; !refuse {
				w.wires = append(w.wires, c)
			}
		})
		if refuse {
			return nil, errors.New("connection refused")
		}
		return c, nil
	}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	return w
}

func (w *world) plen(i int) int     { return min(w.info.PieceLength, len(w.content)-i*w.info.PieceLength) }
func (w *world) piece(i int) []byte { o := i * w.info.PieceLength; return w.content[o : o+w.plen(i)] }

// run starts the loops of the client, without a tracker and without listening.
func (w *world) run(loops ...func(context.Context) error) {
	sym.Assert(w.st.Load() == nil, "cannot load")
	for _, f := range loops {
		w.loops++
		go func() {
			f(w.ctx)
			sym.Atomic(func() { w.ended++ })
		}()
	}
	sym.Quiesce()
}

func (w *world) both() { w.run(w.srv.DialPeers, w.srv.RequestPieces) }

func address(i int) (string, int) { return "10.0.1." + strconv.Itoa(1+i), 7000 + i }

func idOf(i int) [20]byte {
	return [20]byte{'-', 'P', 'E', 'E', 'R', 18: byte('0' + i/10), 19: byte('0' + i%10)}
}

// meet makes the client dial peer i and completes the handshakes; it returns the messages that follow.
func (w *world) meet(i int) (*wire, []heard) {
	ip, port := address(i)
	n := len(w.wires)
	sym.Assert(w.srv.AddPeer(&tracker.Peer{IP: ip, Port: port}) == nil, "cannot add a peer")
	sym.Quiesce()
	sym.Assert(len(w.wires) == n+1, "a new peer is not dialled")
	c := w.wires[n]
	c.send(handshake(w.info.SHA1, idOf(i)))
	sym.Quiesce()
	return c, w.greeted(c)
}

// greeted checks the first bytes sent and returns the messages after the bitfield.
func (w *world) greeted(c *wire) []heard {
	sym.Assert(len(c.out) >= 68, "no handshake was sent")
	h := handshake(w.info.SHA1, ours)
	sym.Assert(string(c.out[:20]) == string(h[:20]) && string(c.out[28:68]) == string(h[28:]), "a wrong handshake was sent")
	c.read = 68
	l := c.hear()
	sym.Assert(len(l) > 0 && l[0].kind == mBitfield, "the handshake is not followed by the bitfield")
	sym.Assert(string(l[0].data) == w.field(), "a wrong bitfield was sent")
	sym.Assert(!c.closed, "the connection of a proper peer was closed")
	return l[1:]
}

// bits makes a bitfield.
func (w *world) bits(has func(i int) bool) []byte {
	b := make([]byte, (len(w.info.Pieces)+7)/8)
	for i := range w.info.Pieces {
		if has(i) {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return b
}

func all(int) bool { return true }

// listener hands out incoming connections.
type listener struct {
	c      chan *wire
	down   chan struct{}
	closed bool
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.down:
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() (err error) {
	sym.Atomic(func() {
		if l.closed {
			err = net.ErrClosed
			return
		}
		l.closed = true
		close(l.down)
	})
	return
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: 6881} }

// start runs the whole client: it listens, and its tracker lists the given peers.
func (w *world) start(peers ...string) {
	w.prepare(peers...)
	w.loops++
	go func() {
		w.srv.Start()
		sym.Atomic(func() { w.ended++ })
	}()
	sym.Quiesce()
	sym.Assert(len(w.events) == 1 && w.events[0] == "started", "the start was not announced")
}

// prepare sets up listening and the tracker.
func (w *world) prepare(peers ...string) {
	w.listen = &listener{c: make(chan *wire, 64), down: make(chan struct{})}
	model.Listen = func(network, address string) (net.Listener, error) {
		sym.Assert(network == "tcp" && address == ":6881", "listening on another port")
		if w.noport {
			return nil, errors.New("address in use")
		}
		return w.listen, nil
	}
	model.Fetch = func(method, url string) (*http.Response, error) {
		q, _ := query(url[len("http://t/a?"):])
		down := false
		sym.Atomic(func() {
			w.events = append(w.events, q["event"])
			down = w.down
		})
		if down {
			return nil, errors.New("connection refused")
		}
		var l []byte
		for _, p := range w.listed {
			h, port, _ := net.SplitHostPort(p)
			n, _ := strconv.Atoi(port)
			l = append(append(l, net.ParseIP(h).To4()...), byte(n>>8), byte(n))
		}
		extra := ""
		sym.Atomic(func() { extra = w.extra })
		if extra != "" {
			res, _ := answer([]byte(extra))
			return res, nil
		}
		res, b := answer([]byte("d8:intervali" + strconv.Itoa(sym.Param("interval", 3600)) + "e5:peers" + strconv.Itoa(len(l)) + ":" + string(l) + "e"))
		sym.Atomic(func() { w.body = b })
		return res, nil
	}
	w.listed = peers
}

// arrive makes a connection from the given address to the client.
func (w *world) arrive(from string) *wire {
	c := newWire(from)
	sym.Atomic(func() { w.wires = append(w.wires, c) })
	w.listen.c <- c
	return c
}

// held says whether the client counts piece i as held.
func (w *world) held(i int) (h bool) {
	sym.Atomic(func() { h = w.st.Torrent.Bitfield.Has(i) })
	return
}

func (w *world) field() (f string) {
	sym.Atomic(func() { f = string(w.st.Torrent.Bitfield) })
	return
}
