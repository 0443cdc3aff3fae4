package hp2p

import (
	"context"
	"crypto/sha1"
	"errors"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/pex"
	"github.com/browles/drip/storage"
	"verifharness/model"
	"verifharness/sym"
)

// end is one end of a connection between two clients.
type end struct {
	*wire
	other *end
}

func (e *end) Write(p []byte) (n int, err error) {
	sym.Atomic(func() {
		if e.closed || e.ended {
			err = net.ErrClosed
			return
		}
		select {
		case e.other.in <- append([]byte{}, p...):
			n = len(p)
		default:
			sym.Unsupported("more than 64 messages under way")
		}
	})
	return
}

func (e *end) Close() (err error) {
	sym.Atomic(func() {
		if err = e.wire.Close(); err == nil {
			e.other.end()
		}
	})
	return
}

// hub hands out incoming connections of one client.
type hub struct {
	*listener
	c chan *end
}

func (l *hub) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.down:
		return nil, net.ErrClosed
	}
}

// swarm is a tracker and clients that share one torrent, on one host.
type swarm struct {
	info    *metainfo.Info
	content []byte
	clients []*member
	hubs    map[string]*hub
	tracker *pex.HTTP
	next    int
	links   []*end
	up      bool
}

type member struct {
	target string
	st     *storage.Storage
	srv    *p2p.Server
	held   int // bits
	ended  bool
}

type recorder struct {
	h      http.Header
	status int
	body   []byte
}

func (w *recorder) Header() http.Header         { return w.h }
func (w *recorder) Write(b []byte) (int, error) { w.body = append(w.body, b...); return len(b), nil }
func (w *recorder) WriteHeader(s int)           { w.status = s }

func newSwarm(pl, total int) *swarm {
	s := &swarm{hubs: map[string]*hub{}, content: make([]byte, total), up: true}
	for i := range min(total, 64) {
		s.content[i] = byte(i*5 + 7)
	}
	for n := 64; n < total; n *= 2 {
		copy(s.content[n:], s.content[1:n])
	}
	s.info = &metainfo.Info{Name: "n", PieceLength: pl, Length: int64(total), SHA1: [20]byte{'h', 'a', 's', 'h', 19: 'z'}}
	for i := 0; i < total; i += pl {
		n := min(pl, total-i)
		s.content[i] = byte(i / pl)
		if n > 1 {
			s.content[i+n-1] = sym.Byte("content")
		}
		s.info.Pieces = append(s.info.Pieces, sha1.Sum(s.content[i:i+n]))
	}
	s.tracker = pex.NewHTTP([]*metainfo.Info{s.info})
	model.Listen = func(network, address string) (net.Listener, error) {
		sym.Assert(network == "tcp", "listening on another network")
		l := &hub{&listener{down: make(chan struct{})}, make(chan *end, 16)}
		s.hubs[address] = l
		return l, nil
	}
	model.Dial = func(network, address string) (net.Conn, error) {
		sym.Assert(network == "tcp", "dialled another network")
		_, port, err := net.SplitHostPort(address)
		sym.Assert(err == nil, "dialled an address that is none")
		l := s.hubs[":"+port]
		if l == nil || l.closed {
			return nil, errors.New("connection refused")
		}
		s.next++
		a := &end{wire: newWire(address)}
		b := &end{wire: newWire("127.0.0.1:" + strconv.Itoa(40000+s.next))}
		a.other, b.other = b, a
		s.links = append(s.links, a)
		l.c <- b
		return a, nil
	}
	model.Fetch = func(method, u string) (*http.Response, error) {
		if !s.up {
			return nil, errors.New("connection refused")
		}
		to, err := url.Parse(u)
		sym.Assert(err == nil, "announced to an address that is none")
		s.next++
		w := &recorder{h: http.Header{}}
		s.tracker.ServeHTTP(w, &http.Request{Method: method, URL: to, RemoteAddr: "127.0.0.1:" + strconv.Itoa(40000+s.next)})
		res, _ := answer(w.body)
		if w.status != 0 {
			res.StatusCode = w.status
		}
		return res, nil
	}
	return s
}

func (s *swarm) piece(i int) []byte {
	return s.content[i*s.info.PieceLength : min(len(s.content), (i+1)*s.info.PieceLength)]
}

// join adds a client that holds some pieces, and starts it.
func (s *swarm) join(held int) *member {
	i := len(s.clients)
	base := os.Getenv("VERIF_SCRATCH") + "/c" + strconv.Itoa(i)
	m := &member{target: base + "/target", held: held}
	if err := os.MkdirAll(m.target, 0o755); err != nil {
		panic(err)
	}
	m.st = storage.New(m.target, base+"/work", s.info)
	for p := range s.info.Pieces {
		if held>>p&1 == 1 {
			dir := base + "/work/" + m.st.Torrent.WorkDir()
			if err := os.MkdirAll(dir, 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(dir+"/"+strconv.Itoa(p)+".piece", s.piece(p), 0o644); err != nil {
				panic(err)
			}
		}
	}
	m.srv = p2p.New(&metainfo.Metainfo{Announce: "http://t/a", Info: s.info}, [20]byte{'-', 'D', 'R', 'I', 'P', 19: byte('0' + i)}, m.st, 6881+i)
	s.clients = append(s.clients, m)
	go func() {
		m.srv.Start()
		sym.Atomic(func() { m.ended = true })
	}()
	return m
}

func (s *swarm) complete(m *member) bool { return m.st.Downloaded() == int64(len(s.content)) }

// X03: clients of one tracker find each other and trade until each has everything.
func X03() {
	sym.Explore(0, 0)
	geo := [][2]int{{4, 8}, {4, 10}, {bl + 3, bl + 7}, {4, 4}}[sym.Param("geo", 0)]
	s := newSwarm(geo[0], geo[1])
	n := sym.Param("clients", 2)
	pieces := len(s.info.Pieces)
	union := 0
	var held []int
	for range n {
		h := sym.Choose("held", 1<<pieces)
		held = append(held, h)
		union |= h
	}
	sym.Assume(union == 1<<pieces-1)
	gap := sym.Param("gap", -1) // start together, in turn, or with time between: 30 s is the announce interval
	if gap < 0 {
		gap = sym.Choose("gap", 4)
	}
	for i := range n {
		if i == n-1 || gap == 0 {
			sym.Explore(sym.Param("pre", 0), sym.Param("sw", 0))
		}
		s.join(held[i])
		switch gap {
		case 1:
			sym.Quiesce()
		case 2:
			time.Sleep(7 * time.Second)
			sym.Quiesce()
		case 3:
			time.Sleep(30 * time.Second)
		}
	}
	for range 20 {
		sym.Quiesce()
		all := true
		for _, m := range s.clients {
			sym.Assert(!m.ended, "a client ended")
			all = all && s.complete(m)
		}
		if all {
			break
		}
		time.Sleep(5 * time.Second)
	}
	sym.Quiesce()
	var up, down int64
	for i, m := range s.clients {
		sym.Assert(s.complete(m), "a client never completes the torrent although the others have every piece")
		got, err := os.ReadFile(m.target + "/n")
		sym.Assert(err == nil && string(got) == string(s.content), "the file is not the torrent's")
		up += m.srv.Uploaded()
		down += m.srv.Downloaded()
		var lack int64
		for p := range pieces {
			if held[i]>>p&1 == 0 {
				lack += int64(len(s.piece(p)))
			}
		}
		sym.Assert(m.srv.Downloaded() == lack, "a client downloaded more or less than it lacked")
	}
	sym.Assert(up == down, "more or less was uploaded than downloaded")
	sym.Reach("complete")
	for _, m := range s.clients {
		m.srv.Stop()
	}
	sym.Quiesce()
	for _, m := range s.clients {
		sym.Assert(m.ended, "a stopped client goes on")
	}
	for _, l := range s.links {
		sym.Assert(l.closed && l.other.closed, "a connection stays open after stopping")
	}
	_ = context.Background
}
