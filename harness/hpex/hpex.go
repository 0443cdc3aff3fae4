// Package hpex holds the harnesses for the tracker endpoint.
package hpex

import (
	"net"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/pex"
	"verifharness/sym"
)

type writer struct {
	h      http.Header
	status int
	body   []byte
}

func (w *writer) Header() http.Header         { return w.h }
func (w *writer) Write(b []byte) (int, error) { w.body = append(w.body, b...); return len(b), nil }
func (w *writer) WriteHeader(s int)           { w.status = s }

// hashes of the torrents served; the third is unknown.
var hashes = [3][20]byte{{'A', 19: 'a'}, {'B', 0xff, 19: 'b'}, {'C'}}

func open() *pex.HTTP {
	return pex.NewHTTP([]*metainfo.Info{{SHA1: hashes[0], Name: "a"}, {SHA1: hashes[1], Name: "b"}})
}

// ask sends one announce and returns the decoded answer.
func ask(t *pex.HTTP, query, remote string) map[string]any {
	w := &writer{h: http.Header{}}
	t.ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: query}, RemoteAddr: remote})
	var v map[string]any
	err := bencode.Unmarshal(w.body, &v)
	sym.Assert(err == nil, "the answer is not a tracker response")
	return v
}

// esc escapes every byte.
func esc(b []byte) string {
	const hex = "0123456789abcdef"
	out := make([]byte, 0, 3*len(b))
	for _, c := range b {
		out = append(out, '%', hex[c>>4], hex[c&15])
	}
	return string(out)
}

func announce(h int, id string, port string, event string, compact bool, ip string) string {
	q := "info_hash=" + esc(hashes[h][:]) + "&peer_id=" + esc([]byte(id)) + "&port=" + port + "&uploaded=0&downloaded=0&left=0"
	if event != "" {
		q += "&event=" + event
	}
	if compact {
		q += "&compact=1"
	}
	if ip != "" {
		q += "&ip=" + ip
	}
	return q
}

type entry struct {
	id   string
	ip   string
	port int
}

// listed reads the peers of a successful answer.
func listed(v map[string]any, compact bool) []entry {
	_, failed := v["failure reason"]
	sym.Assert(!failed, "a proper announce is refused")
	n, ok := v["interval"].(int)
	sym.Assert(ok && n > 0, "the answer has no interval")
	var out []entry
	if compact {
		s, ok := v["peers"].(string)
		sym.Assert(ok && len(s)%6 == 0, "the compact peer list is missing or malformed")
		for ; len(s) > 0; s = s[6:] {
			out = append(out, entry{"", net.IPv4(s[0], s[1], s[2], s[3]).String(), int(s[4])<<8 | int(s[5])})
		}
		return out
	}
	l, ok := v["peers"].([]any)
	sym.Assert(ok, "the peer list is missing or malformed")
	for _, x := range l {
		m, ok := x.(map[string]any)
		sym.Assert(ok, "a listed peer is not a dictionary")
		id, ok1 := m["peer id"].(string)
		ip, ok2 := m["ip"].(string)
		port, ok3 := m["port"].(int)
		sym.Assert(ok1 && ok2 && ok3, "a listed peer is incomplete")
		out = append(out, entry{id, ip, port})
	}
	return out
}

type state struct {
	seen  bool
	at    int64
	event string
	id    string
}

type who struct {
	ip     string // as announced, "" for the remote address
	remote string
	addr   string // what it means
	port   int
}

var people = []who{
	{"", "1.2.3.4:5000", "1.2.3.4", 6881},
	{"", "1.2.3.4:5001", "1.2.3.4", 6882},
	{"::ffff:5.6.7.8", "9.9.9.9:1", "5.6.7.8", 6881},
	{"", "[2001:db8::1]:77", "2001:db8::1", 6881},
	{"2001:DB8:0:0::1", "9.9.9.9:1", "2001:db8::1", 6881}, // the same peer, spelt differently
	{"5.6.7.8", "1.2.3.4:5000", "5.6.7.8", 6881},          // likewise
}

// X01: announce histories.
func X01() {
	t := open()
	steps := sym.Param("steps", 3)
	wide := sym.Param("people", 3)
	kind := sym.Param("kind", 0)
	table := [2]map[string]*state{{}, {}}
	var now int64
	for i := 0; i < steps; i++ {
		last := i == steps-1
		if i > 0 {
			d := []time.Duration{time.Second, 31 * time.Second, 61 * time.Second}[sym.Choose("wait", 3)]
			time.Sleep(d)
			now += int64(d)
		}
		h := 0
		if kind == 0 {
			h = sym.Choose("torrent", 2)
		}
		p := people[(kind+sym.Choose("peer", wide))%len(people)]
		event := ""
		if !last || kind == 2 {
			event = []string{"", "stopped", "started", "completed"}[sym.Choose("event", sym.Param("events", 2))]
		}
		compact := false
		if last {
			compact = sym.Choose("compact", 2) == 1
		}
		id := "peer id " + strconv.Itoa(i)
		v := ask(t, announce(h, id+"           ", strconv.Itoa(p.port), event, compact, p.ip), p.remote)
		got := listed(v, compact)
		me := p.addr + " " + strconv.Itoa(p.port)
		table[h][me] = &state{true, now, event, id}
		// every listed peer is a live other one, once
		hit := map[string]bool{}
		for _, e := range got {
			k := net.ParseIP(e.ip).String() + " " + strconv.Itoa(e.port)
			s := table[h][k]
			sym.Assert(s != nil, "a peer is listed that never announced this torrent")
			sym.Assert(k != me, "the requester is listed")
			sym.Assert(s.event != "stopped", "a stopped peer is listed")
			sym.Assert(now-s.at <= int64(time.Minute), "a peer is listed that was silent for more than a minute")
			sym.Assert(!hit[k], "a peer is listed twice")
			hit[k] = true
			if !compact {
				sym.Assert(len(e.id) == 20 && e.id[:len(s.id)] == s.id, "a peer is listed with another id")
			}
		}
		for k, s := range table[h] {
			if k == me || s.event == "stopped" || now-s.at >= int64(time.Minute) || hit[k] {
				continue
			}
			v6 := len(k) > 4 && k[:4] == "2001"
			sym.Assert(compact && v6, "a live peer is not listed")
		}
		if len(got) > 0 {
			sym.Reach("listed")
		}
	}
	sym.Reach("end")
}

// X01Concurrent: announces at the same time as each other and as the clean-up.
func X01Concurrent() {
	sym.Races(true)
	t := open()
	done := make(chan int, 3)
	time.Sleep(59 * time.Second)
	for i := 0; i < sym.Param("clients", 2); i++ {
		go func() {
			p := people[i]
			done <- len(listed(ask(t, announce(0, "12345678901234567890", strconv.Itoa(p.port), "", i == 1, p.ip), p.remote), i == 1))
		}()
	}
	time.Sleep(2 * time.Second)
	n := 0
	for i := 0; i < sym.Param("clients", 2); i++ {
		n += <-done
	}
	sym.Assert(n == 1, "one of two peers must see the other")
	sym.Reach("end")
}

// X02: any port, address and form, with any small table of registered peers.
func X02() {
	t := open()
	// registered before
	for i := 0; i < sym.Param("before", 2); i++ {
		p := people[sym.Choose("registered", 4)]
		if sym.Choose("stopped", 2) == 1 {
			ask(t, announce(0, "x", strconv.Itoa(p.port), "stopped", false, p.ip), p.remote)
		} else {
			ask(t, announce(0, "x", strconv.Itoa(p.port), "", false, p.ip), p.remote)
		}
	}
	h := 0
	port, ip, remote := "6889", "", "7.7.7.7:1"
	n := sym.Choose("n", sym.Param("n", 4)+1)
	text := sym.Bytes("text", n)
	switch sym.Param("part", 0) {
	case 0:
		port = esc(text)
	case 1: // decimal ports
		for _, c := range text {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		port = []string{"", "-", "65", "+"}[sym.Choose("sign", 4)] + string(text)
	case 2:
		ip = esc(text)
	case 3:
		ip = []string{"1.2.3.", "::", "1.2.3.4%25", "fe80::1"}[sym.Choose("pre", 4)] + esc(text)
	case 4:
		remote = string(text)
	case 5:
		remote = []string{"1.2.3.4", "[::1", "[fe80::1%", "1.2.3.4:"}[sym.Choose("pre", 4)] + string(text)
	case 6:
		h = sym.Choose("hash", 3)
		if sym.Choose("both", 2) == 1 {
			port = []string{"0", "-1", "65536", "99999999999999999999", "65535", "1"}[sym.Choose("ports", 6)]
			ip = []string{"", "localhost", "1.2.3.4", "::1", "1.2.3"}[sym.Choose("ips", 5)]
			remote = []string{"", "x", "[::1]:5", "1.1.1.1:0", "@"}[sym.Choose("remotes", 5)]
		}
	}
	compact := sym.Choose("compact", 2) == 1
	v := ask(t, announce(h, "12345678901234567890", port, "started", compact, ip), remote)
	// what it should be
	raw, _ := url.QueryUnescape(port)
	pn, err := strconv.ParseInt(raw, 10, 64)
	good := err == nil && pn >= 1 && pn <= 65535 && h < 2
	host, err := url.QueryUnescape(ip)
	if host == "" {
		host, _, err = net.SplitHostPort(remote)
	}
	if err != nil || net.ParseIP(host) == nil {
		good = false
	}
	if !good {
		r, ok := v["failure reason"].(string)
		sym.Assert(ok && len(r) > 0, "an announce that cannot be served got no failure reason")
		sym.Reach("refused")
		return
	}
	listed(v, compact)
	sym.Reach("served")
}

// X02Raw: any query.
func X02Raw() {
	t := open()
	n := sym.Param("n", 4)
	pre := []string{"", "port=1&", "info_hash=" + esc(hashes[0][:]) + "&port=1&", "info_hash=" + esc(hashes[0][:]) + "&port=%", "info_hash=" + esc(hashes[0][:]) + "&port=1&compact="}
	q := pre[sym.Choose("pre", len(pre))] + string(sym.Bytes("query", n))
	v := ask(t, q, "1.2.3.4:5")
	if _, failed := v["failure reason"]; failed {
		r, ok := v["failure reason"].(string)
		sym.Assert(ok && len(r) > 0, "an empty failure reason")
		sym.Reach("refused")
		return
	}
	_, c := v["peers"].(string)
	listed(v, c)
	sym.Reach("served")
}

// X01Values: announces whose addresses, ports, ids and events are symbolic.
func X01Values() {
	t := open()
	steps := sym.Param("steps", 2)
	type rec struct {
		ip, port, id byte
		stopped      bool
	}
	var all []rec
	for i := 0; i < steps; i++ {
		last := i == steps-1
		b := sym.Bytes("announce "+strconv.Itoa(i), 3)
		for _, c := range b {
			sym.Assume(sym.And(c >= '1', c <= '9'))
		}
		event := ""
		stopped := false
		if !last && sym.Bool("stopped") {
			event, stopped = "stopped", true
		}
		compact := last && sym.Choose("compact", 2) == 1
		id := "-DR0000-abcdefghijk" + string(b[2:3])
		ip, remote := "", "10.0.0."+string(b[:1])+":99"
		if sym.Choose("given", 2) == 1 {
			ip, remote = "10.0.0."+string(b[:1]), "127.0.0.1:4"
		}
		got := listed(ask(t, announce(0, id, string(b[1:2]), event, compact, ip), remote), compact)
		me := rec{b[0], b[1], b[2], stopped}
		for _, e := range got {
			sym.Assert(len(e.ip) == 8 && e.ip[:7] == "10.0.0.", "a listed peer has another address")
			d := e.ip[7]
			sym.Assert(sym.Not(sym.And(d == me.ip, byte(e.port)+'0' == me.port)), "the requester is listed")
			// the latest announce from that address is the one listed
			ok, open := false, true
			for j := len(all) - 1; j >= 0; j-- {
				same := sym.And(open, sym.And(all[j].ip == d, e.port == int(all[j].port-'0')))
				good := !all[j].stopped
				if !compact {
					good = sym.And(good, e.id == "-DR0000-abcdefghijk"+string([]byte{all[j].id}))
				}
				ok = sym.Or(ok, sym.And(same, good))
				open = sym.And(open, sym.Not(same))
			}
			sym.Assert(ok, "a listed peer is not what it last announced")
		}
		for j, r := range all {
			// r is the latest of its address, and not the requester
			latest := sym.And(!r.stopped, sym.Not(sym.And(r.ip == me.ip, r.port == me.port)))
			for _, s := range all[j+1:] {
				latest = sym.And(latest, sym.Not(sym.And(r.ip == s.ip, r.port == s.port)))
			}
			n := 0
			for _, e := range got {
				if sym.And(e.ip[7] == r.ip, e.port == int(r.port-'0')) {
					n++
				}
			}
			sym.Assert(sym.Or(sym.Not(latest), n == 1), "a live peer is not listed exactly once")
		}
		all = append(all, me)
	}
	sym.Reach("end")
}
