// Package hp2p holds the harnesses for the client: trackers, connections and downloads.
package hp2p

import (
	"errors"
	"io"
	"net/http"
	"os"
	"strconv"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
	"verifharness/model"
	"verifharness/sym"
)

// body is the body of a tracker's answer.
type body struct {
	data   []byte
	fail   bool // after the data
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.fail {
			return 0, errors.New("connection reset")
		}
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *body) Close() error { b.closed = true; return nil }

func answer(data []byte) (*http.Response, *body) {
	b := &body{data: data}
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: b}, b
}

func info1() *metainfo.Info {
	return &metainfo.Info{Name: "n", PieceLength: 4, Length: 10, Pieces: metainfo.Pieces{{1}, {2}, {3}}, SHA1: [20]byte{'h', 19: 'z'}}
}

func dirs() (string, string) {
	base := os.Getenv("VERIF_SCRATCH")
	for _, d := range []string{"/target", "/work"} {
		if err := os.MkdirAll(base+d, 0o755); err != nil {
			panic(err)
		}
	}
	return base + "/target", base + "/work"
}

// tiers of trackers, by name
var tierSets = [][][]string{
	{{"http://a/announce", "http://b/announce"}, {"http://c/announce"}},
	{{"http://a/announce", "http://b/announce", "http://c/announce"}},
	{{"http://a/announce"}, {"http://b/announce"}},
	{{}, {"http://a/announce"}},
	{{}},
	nil, // only the announce URL
	{{"http://a/announce", unparsable}, {unparsable, "http://b/announce"}},
}

// unparsable is no URL: such a tracker counts as one that fails.
const unparsable = "http://[::1/announce"

func base(url string) string {
	for i := range len(url) {
		if url[i] == '?' {
			return url[:i]
		}
	}
	return url
}

func urls(mt *p2p.Multitracker) (out [][]string) {
	for _, t := range mt.TrackerTiers {
		var l []string
		for _, x := range t {
			l = append(l, x.URL)
		}
		out = append(out, l)
	}
	return
}

func announce(mt *p2p.Multitracker, k int) (*trackerapi.Response, error) {
	switch k {
	case 0:
		return mt.Start()
	case 1:
		return mt.Announce()
	case 2:
		return mt.Complete()
	}
	return mt.Stop()
}

var events = []string{"started", "", "completed", "stopped"}

// N07: announces with trackers that answer, or do not, in every combination.
func N07() {
	model.ShuffleAny = true
	set := tierSets[sym.Param("tiers", 0)]
	target, work := dirs()
	info := info1()
	mi := &metainfo.Metainfo{Announce: "http://z/announce", AnnounceList: set, Info: info}
	srv := p2p.New(mi, [20]byte{'-'}, storage.New(target, work, info), 6881)
	want := set
	if set == nil {
		want = [][]string{{"http://z/announce"}}
	}
	order := urls(srv.Tracker)
	sym.Assert(len(order) == len(want), "the number of tiers is not the announced one")
	for i := range want {
		sym.Assert(len(order[i]) == len(want[i]), "a tier has lost or gained trackers")
		for _, u := range want[i] {
			n := 0
			for _, v := range order[i] {
				if u == v {
					n++
				}
			}
			sym.Assert(n == 1, "a tier has lost or gained trackers")
		}
	}
	for r := 0; r < sym.Param("rounds", 2); r++ {
		var tried []string
		var last *body
		good := -1
		peer := append([]byte{10, 1, 2, 3}, sym.Bytes("peer", 2)...)
		model.Fetch = func(method, url string) (*http.Response, error) {
			sym.Assert(method == "GET", "announced with another method")
			if last != nil {
				sym.Assert(last.closed, "the body of an answer is left open")
			}
			last = nil
			tried = append(tried, base(url))
			text := "d8:intervali30e5:peers6:" + string(peer) + "e"
			n := 7
			if r > 0 {
				n = sym.Param("later", 3)
			}
			b := sym.Choose("behaviour", n)
			var res *http.Response
			switch b {
			case 0:
				res, last = answer([]byte(text))
			case 1:
				return nil, errors.New("connection refused")
			case 2:
				res, last = answer([]byte("d14:failure reason2:noe"))
			case 3:
				res, last = answer([]byte(text)[:2+len(tried)%3*11])
			case 4:
				res, last = answer([]byte(text)[:5+len(tried)%2*len(text)/2])
				last.fail = true
			case 5:
				res, last = answer([]byte("d8:intervali30ee"))
			case 6:
				res, last = answer([]byte("d14:failure reason2:no8:intervali30e5:peers6:" + string(peer) + "e"))
			}
			if b == 0 || b == 5 {
				good = b
			}
			return res, nil
		}
		res, err := announce(srv.Tracker, r%4)
		// the first tracker that answers ends the search
		n := 0
		for i, t := range order {
			for j, u := range t {
				if n >= len(tried) {
					break
				}
				if u == unparsable {
					continue
				}
				sym.Assert(tried[n] == u, "trackers are not tried in the order of the tiers")
				n++
				if n == len(tried) && good >= 0 {
					next := append([]string{u}, t[:j]...)
					order[i] = append(next, t[j+1:]...)
				}
			}
		}
		sym.Assert(n == len(tried), "trackers are tried again after all have failed")
		if good < 0 {
			all := 0
			for _, t := range order {
				for _, u := range t {
					if u != unparsable {
						all++
					}
				}
			}
			sym.Assert(n == all, "gave up before every tracker was tried")
			sym.Assert(err != nil, "no tracker answered and there is no error")
			sym.Reach("failed")
		} else {
			sym.Assert(err == nil && res != nil && res.Peers != nil && res.Interval == 30, "a tracker answered and the announce failed")
			if good == 0 {
				sym.Assert(len(res.Peers.List) == 1, "not the answer of the tracker")
				p := res.Peers.List[0]
				sym.Assert(p.Port == int(peer[4])<<8|int(peer[5]), "not the answer of the tracker")
			} else {
				sym.Assert(len(res.Peers.List) == 0, "not the answer of the tracker")
			}
			sym.Reach("answered")
		}
		if last != nil {
			sym.Assert(last.closed, "the body of an answer is left open")
		}
		now := urls(srv.Tracker)
		sym.Assert(len(now) == len(order), "a tier was lost")
		for i := range order {
			sym.Assert(len(now[i]) == len(order[i]), "a tier changed size")
			for j := range order[i] {
				sym.Assert(now[i][j] == order[i][j], "the tracker that answered is not first, or others moved")
			}
		}
	}
}

// N07Concurrent: announces at the same time.
func N07Concurrent() {
	sym.Races(true)
	target, work := dirs()
	info := info1()
	mi := &metainfo.Metainfo{AnnounceList: tierSets[1], Info: info}
	srv := p2p.New(mi, [20]byte{'-'}, storage.New(target, work, info), 6881)
	model.Fetch = func(method, url string) (*http.Response, error) {
		if sym.Choose("fails", 2) == 1 {
			return nil, errors.New("no")
		}
		res, _ := answer([]byte("d8:intervali30e5:peers0:e"))
		return res, nil
	}
	done := make(chan bool, 2)
	for range 2 {
		go func() {
			res, err := srv.Tracker.Announce()
			done <- err != nil || res != nil
		}()
	}
	for range 2 {
		sym.Assert(<-done, "no answer and no error")
	}
	now := urls(srv.Tracker)
	sym.Assert(len(now) == 1 && len(now[0]) == 3, "a tier changed size")
	sym.Assert(now[0][0] != now[0][1] && now[0][1] != now[0][2] && now[0][0] != now[0][2], "a tracker was lost")
	sym.Reach("end")
}

// query splits and unescapes a query.
func query(q string) (out map[string]string, n int) {
	out = map[string]string{}
	for len(q) > 0 {
		part := q
		for i := range len(q) {
			if q[i] == '&' {
				part = q[:i]
				break
			}
		}
		q = q[len(part):]
		if len(q) > 0 {
			q = q[1:]
		}
		k := 0
		for k < len(part) && part[k] != '=' {
			k++
		}
		sym.Assert(k < len(part), "a parameter has no value")
		var v []byte
		for i := k + 1; i < len(part); i++ {
			switch {
			case part[i] == '%':
				sym.Assert(i+2 < len(part), "a bad escape")
				v = append(v, hexv(part[i+1])<<4|hexv(part[i+2]))
				i += 2
			case part[i] == '+':
				v = append(v, ' ')
			default:
				v = append(v, part[i])
			}
		}
		_, dup := out[part[:k]]
		sym.Assert(!dup, "a parameter is given twice")
		out[part[:k]] = string(v)
		n++
	}
	return
}

func hexv(c byte) byte {
	switch {
	case '0' <= c && c <= '9':
		return c - '0'
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10
	}
	sym.Fail("a bad escape")
	return 0
}

// N08: what an announce says, for single- and multi-file torrents with some pieces held.
func N08() {
	target, work := dirs()
	info := info1()
	switch sym.Choose("files", 3) {
	case 1:
		info.Length = 0
		info.Files = []*metainfo.File{{Length: 3, Path: []string{"x"}}, {Length: 7, Path: []string{"y"}}}
	case 2:
		info.Length = 0
		info.Files = []*metainfo.File{{Length: 10, Path: []string{"x"}}}
	}
	hash := sym.Bytes("hash", sym.Param("bytes", 1))
	copy(info.SHA1[5:], hash)
	id := [20]byte{'-', 'D', 'R', 18: 'q', 19: 0xff}
	copy(id[7:], sym.Bytes("id", sym.Param("bytes", 1)))
	port := sym.Int("port")
	sym.Assume(sym.InRange(port, 1, 65535))
	if sym.Param("digits", 4) < 5 {
		sym.Assume(port < 1000)
	}
	s := storage.New(target, work, info)
	held := 0
	done := sym.Choose("held", 9)
	if done < 8 {
		dir := work + "/" + s.Torrent.WorkDir()
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		for i := 0; i < 3; i++ {
			if done>>i&1 == 1 {
				n := min(4, 10-4*i)
				if err := os.WriteFile(dir+"/"+strconv.Itoa(i)+".piece", make([]byte, n), 0o644); err != nil {
					panic(err)
				}
				held += n
			}
		}
	} else {
		held = 10
		if info.Files == nil {
			if err := os.WriteFile(target+"/n", make([]byte, 10), 0o644); err != nil {
				panic(err)
			}
		} else {
			os.MkdirAll(target+"/n", 0o755)
		}
	}
	sym.Assert(s.Load() == nil, "cannot load")
	own := []string{"", "?k=v", "?k=v&x=%20"}[sym.Choose("own", 3)]
	mi := &metainfo.Metainfo{Announce: "http://t:80/announce" + own, Info: info}
	srv := p2p.New(mi, id, s, port)
	asked := 0
	event := sym.Choose("event", 4)
	model.Fetch = func(method, url string) (*http.Response, error) {
		asked++
		const at = "http://t:80/announce?"
		sym.Assert(len(url) > len(at) && url[:len(at)] == at, "announced to another address")
		q, n := query(url[len(at):])
		sym.Assert(sym.EqStr(q["info_hash"], string(info.SHA1[:])), "announced another torrent")
		sym.Assert(sym.EqStr(q["peer_id"], string(id[:])), "announced another peer id")
		sym.Assert(sym.EqStr(q["port"], strconv.Itoa(port)), "announced another port")
		sym.Assert(q["uploaded"] == "0" && q["downloaded"] == "0", "announced transfers that did not happen")
		sym.Assert(q["left"] == strconv.Itoa(10-held), "what is left is not what is missing")
		sym.Assert(q["event"] == events[event], "announced another event")
		switch own {
		case "":
			sym.Assert(q["k"] == "", "a parameter out of nowhere")
		case "?k=v":
			sym.Assert(q["k"] == "v", "the query of the announce URL is lost")
		default:
			sym.Assert(q["k"] == "v" && q["x"] == " ", "the query of the announce URL is lost")
		}
		sym.Assert(n >= 6, "parameters are missing")
		res, _ := answer([]byte("d8:intervali30e5:peers0:e"))
		return res, nil
	}
	_, err := announce(srv.Tracker, event)
	sym.Assert(err == nil && asked == 1, "the announce failed")
	sym.Reach("end")
}
