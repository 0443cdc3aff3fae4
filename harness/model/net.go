package model

import (
	"context"
	"errors"
	"net"
	"net/http"
	"time"
)

// The network is what the harness says it is.
var (
	Dial   func(network, address string) (net.Conn, error)
	Listen func(network, address string) (net.Listener, error)
	Fetch  func(method, url string) (*http.Response, error)
)

var errNoNet error = errors.New("no network")

func NetDial(network, address string) (net.Conn, error) {
	if Dial == nil {
		return nil, errNoNet
	}
	return Dial(network, address)
}

func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}

func DialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}

func DialerDialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return NetDial(network, address)
}

func NetListen(network, address string) (net.Listener, error) {
	if Listen == nil {
		return nil, errNoNet
	}
	return Listen(network, address)
}

func HTTPGet(url string) (*http.Response, error) {
	if Fetch == nil {
		return nil, errNoNet
	}
	return Fetch("GET", url)
}

func HTTPClientGet(c *http.Client, url string) (*http.Response, error) { return HTTPGet(url) }

func HTTPClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if Fetch == nil {
		return nil, errNoNet
	}
	return Fetch(req.Method, req.URL.String())
}
