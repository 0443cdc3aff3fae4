// Package model holds Go models of the parts of the standard library that reach
// the operating system, the clock or randomness. The engine executes them in place
// of the library functions; native replays never call them.
package model

import (
	"errors"
	"hash"
	"math"
	"math/rand"
	randv2 "math/rand/v2"
	"strings"
	"time"

	"verifharness/sym"
)

var NetErrClosed error = errors.New("use of closed network connection")
var NetV4InV6Prefix = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}
var HTTPErrAbortHandler = errors.New("net/http: abort Handler")

// ---- fmt.Errorf ----

type fmtError struct {
	format string
	args   []any
	text   string
	done   bool
}

func (e *fmtError) Error() string {
	if !e.done {
		e.text = sym.Text(strings.ReplaceAll(e.format, "%w", "%v"), e.args)
		e.done = true
	}
	return e.text
}

type wrapError struct {
	fmtError
	err error
}

func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	fmtError
	errs []error
}

func (e *wrapErrors) Unwrap() []error { return e.errs }

func Errorf(format string, a ...any) error {
	var errs []error
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == ' ' || format[i] == '-' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(a) {
			if err, ok := a[ai].(error); ok {
				errs = append(errs, err)
			}
		}
		ai++
	}
	f := fmtError{format: format, args: a}
	switch len(errs) {
	case 0:
		return &f
	case 1:
		return &wrapError{f, errs[0]}
	}
	return &wrapErrors{f, errs}
}

// ---- SHA-1 ----

type sha struct{ buf []byte }

func (h *sha) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *sha) Sum(b []byte) []byte {
	s := sym.SHA1(h.buf)
	return append(b, s[:]...)
}
func (h *sha) Reset()         { h.buf = nil }
func (h *sha) Size() int      { return 20 }
func (h *sha) BlockSize() int { return 64 }

func SHA1New() hash.Hash           { return &sha{} }
func SHA1Sum(data []byte) [20]byte { return sym.SHA1(data) }

// ---- clock ----

func TimeNow() time.Time {
	return time.Unix(sym.ClockSec(), 0).Add(time.Duration(sym.Now()))
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeSleep(d time.Duration)           { sym.SleepUntil(sym.Now() + int64(d)) }

type mtimer struct {
	id     int
	active bool
	d      time.Duration
	c      chan time.Time
	f      func()
}

var timers = map[*time.Timer]*mtimer{}
var tickers = map[*time.Ticker]*mtimer{}

func fire(m *mtimer) {
	select {
	case m.c <- TimeNow():
	default:
	}
}

func at(d time.Duration) int64 {
	if d < 0 {
		d = 0
	}
	n := sym.Now()
	if int64(d) > math.MaxInt64-n {
		return math.MaxInt64
	}
	return n + int64(d)
}

func TimeAfter(d time.Duration) <-chan time.Time {
	m := &mtimer{c: make(chan time.Time, 1)}
	sym.StartTimer(at(d), func() { fire(m) })
	return m.c
}

// add and get keep the tables of live timers; they are not part of the program's memory.
func addTimer(t *time.Timer, m *mtimer) { sym.Atomic(func() { timers[t] = m }) }
func getTimer(t *time.Timer) (m *mtimer) {
	sym.Atomic(func() { m = timers[t] })
	if m == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return
}

func TimeNewTimer(d time.Duration) *time.Timer {
	m := &mtimer{c: make(chan time.Time, 1)}
	t := &time.Timer{C: m.c}
	addTimer(t, m)
	m.start(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	m := &mtimer{f: f}
	t := &time.Timer{}
	addTimer(t, m)
	m.start(d)
	return t
}

func (m *mtimer) start(d time.Duration) {
	sym.Atomic(func() {
		m.active = true
		m.id = sym.StartTimer(at(d), func() {
			sym.Atomic(func() { m.active = false })
			if m.f != nil {
				go m.f()
			} else {
				fire(m)
			}
		})
	})
}

func (m *mtimer) stop() (was bool) {
	sym.Atomic(func() {
		was = m.active
		m.active = false
		sym.StopTimer(m.id)
	})
	return
}

// drain drops a value that was not received yet, as timers do since Go 1.23.
func (m *mtimer) drain() {
	if m.c != nil {
		select {
		case <-m.c:
		default:
		}
	}
}

func TimerStop(t *time.Timer) bool {
	m := getTimer(t)
	was := m.stop()
	m.drain()
	return was
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	m := getTimer(t)
	was := m.stop()
	m.drain()
	m.start(d)
	return was
}

func TimeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	m := &mtimer{c: make(chan time.Time, 1), active: true, d: d}
	t := &time.Ticker{C: m.c}
	sym.Atomic(func() { tickers[t] = m })
	m.tick()
	return t
}

func (m *mtimer) tick() {
	sym.Atomic(func() {
		m.active = true
		m.id = sym.StartTimer(at(m.d), func() {
			sym.Atomic(func() {
				fire(m)
				if m.active {
					m.tick()
				}
			})
		})
	})
}

func getTicker(t *time.Ticker) (m *mtimer) {
	sym.Atomic(func() { m = tickers[t] })
	return
}

func TickerStop(t *time.Ticker) {
	if m := getTicker(t); m != nil {
		m.stop()
	}
}

func TickerReset(t *time.Ticker, d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	m := getTicker(t)
	m.stop()
	m.d = d
	m.tick()
}

// ---- randomness: fixed unless the harness asks for more ----

// Random numbers. Where ShuffleAny is set every choice is taken, elsewhere shuffles change nothing.

func RandFloat64() float64 { return 0.5 }
func RandFloat32() float32 { return 0.5 }
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if ShuffleAny {
		return sym.Choose("rand", n)
	}
	return n - 1
}
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }
func RandInt() int             { return 0x1e3779b97f4a7c15 }
func RandUint32() uint32       { return 0x9e3779b9 }
func RandUint64() uint64       { return 0x9e3779b97f4a7c15 }
func RandShuffle(n int, swap func(i, j int)) {
	if !ShuffleAny {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, sym.Choose("shuffle", i+1))
	}
}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// RandNewSource: what it would produce does not matter, see the models of the methods of Rand.
func RandNewSource(int64) rand.Source { return nil }

func RandRFloat64(_ *rand.Rand) float64                       { return RandFloat64() }
func RandVFloat64(_ *randv2.Rand) float64                     { return RandFloat64() }
func RandRFloat32(_ *rand.Rand) float32                       { return RandFloat32() }
func RandVFloat32(_ *randv2.Rand) float32                     { return RandFloat32() }
func RandRIntn(_ *rand.Rand, n int) int                       { return RandIntn(n) }
func RandVIntn(_ *randv2.Rand, n int) int                     { return RandIntn(n) }
func RandRInt31n(_ *rand.Rand, n int32) int32                 { return RandInt31n(n) }
func RandVInt31n(_ *randv2.Rand, n int32) int32               { return RandInt31n(n) }
func RandRInt63n(_ *rand.Rand, n int64) int64                 { return RandInt63n(n) }
func RandVInt63n(_ *randv2.Rand, n int64) int64               { return RandInt63n(n) }
func RandRInt(_ *rand.Rand) int                               { return RandInt() }
func RandVInt(_ *randv2.Rand) int                             { return RandInt() }
func RandRUint32(_ *rand.Rand) uint32                         { return RandUint32() }
func RandVUint32(_ *randv2.Rand) uint32                       { return RandUint32() }
func RandRUint64(_ *rand.Rand) uint64                         { return RandUint64() }
func RandVUint64(_ *randv2.Rand) uint64                       { return RandUint64() }
func RandRPerm(_ *rand.Rand, n int) []int                     { return RandPerm(n) }
func RandVPerm(_ *randv2.Rand, n int) []int                   { return RandPerm(n) }
func RandRShuffle(_ *rand.Rand, n int, swap func(i, j int))   { RandShuffle(n, swap) }
func RandVShuffle(_ *randv2.Rand, n int, swap func(i, j int)) { RandShuffle(n, swap) }

// ShuffleAny makes shuffles produce every permutation.
var ShuffleAny bool

func RandRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i*7 + 1)
	}
	return len(b), nil
}
