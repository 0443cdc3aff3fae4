package model

import (
	"fmt"
	"io"
	"os"
	"sync"
	"time"

	"verifharness/sym"
)

// ---- fmt: what is written to writers ----

func emit(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok && std(f) {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

func FmtFprintf(w io.Writer, format string, a ...any) (int, error) {
	return emit(w, fmt.Sprintf(format, a...))
}
func FmtFprint(w io.Writer, a ...any) (int, error)   { return emit(w, fmt.Sprint(a...)) }
func FmtFprintln(w io.Writer, a ...any) (int, error) { return emit(w, FmtSprintln(a...)) }

func FmtSprintln(a ...any) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprint(x)
	}
	return s + "\n"
}

func FmtAppend(b []byte, a ...any) []byte                  { return append(b, fmt.Sprint(a...)...) }
func FmtAppendf(b []byte, format string, a ...any) []byte { return append(b, fmt.Sprintf(format, a...)...) }
func FmtAppendln(b []byte, a ...any) []byte                { return append(b, FmtSprintln(a...)...) }

// ---- sync.Map: a table under a lock ----

type syncMap struct {
	mu sync.RWMutex
	m  map[any]any
}

var syncMaps = map[*sync.Map]*syncMap{}

func smap(m *sync.Map) (s *syncMap) {
	sym.Atomic(func() {
		s = syncMaps[m]
		if s == nil {
			s = &syncMap{m: map[any]any{}}
			syncMaps[m] = s
		}
	})
	return s
}

func SyncMapLoad(m *sync.Map, key any) (value any, ok bool) {
	s := smap(m)
	s.mu.RLock()
	defer s.mu.RUnlock()
	value, ok = s.m[key]
	return value, ok
}

func SyncMapStore(m *sync.Map, key, value any) { SyncMapSwap(m, key, value) }

func SyncMapSwap(m *sync.Map, key, value any) (previous any, loaded bool) {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	previous, loaded = s.m[key]
	s.m[key] = value
	return previous, loaded
}

func SyncMapLoadOrStore(m *sync.Map, key, value any) (actual any, loaded bool) {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if old, ok := s.m[key]; ok {
		return old, true
	}
	s.m[key] = value
	return value, false
}

func SyncMapLoadAndDelete(m *sync.Map, key any) (value any, loaded bool) {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	value, loaded = s.m[key]
	delete(s.m, key)
	return value, loaded
}

func SyncMapDelete(m *sync.Map, key any) { SyncMapLoadAndDelete(m, key) }

func SyncMapCompareAndSwap(m *sync.Map, key, old, new any) bool {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.m[key]; !ok || v != old {
		return false
	}
	s.m[key] = new
	return true
}

func SyncMapCompareAndDelete(m *sync.Map, key, old any) bool {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.m[key]; !ok || v != old {
		return false
	}
	delete(s.m, key)
	return true
}

func SyncMapRange(m *sync.Map, f func(key, value any) bool) {
	s := smap(m)
	s.mu.RLock()
	var ks []any
	for k := range s.m {
		ks = append(ks, k)
	}
	s.mu.RUnlock()
	for _, k := range ks {
		if v, ok := SyncMapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}

func SyncMapClear(m *sync.Map) {
	s := smap(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	clear(s.m)
}

// ---- sync.Cond: a list of waiters ----

var conds = map[*sync.Cond][]chan struct{}{}

func CondWait(c *sync.Cond) {
	ch := make(chan struct{})
	sym.Atomic(func() { conds[c] = append(conds[c], ch) })
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func CondSignal(c *sync.Cond) {
	var ch chan struct{}
	sym.Atomic(func() {
		if l := conds[c]; len(l) > 0 {
			ch, conds[c] = l[0], l[1:]
		}
	})
	if ch != nil {
		close(ch)
	}
}

func CondBroadcast(c *sync.Cond) {
	var l []chan struct{}
	sym.Atomic(func() {
		l = conds[c]
		delete(conds, c)
	})
	for _, ch := range l {
		close(ch)
	}
}

func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return TimeNewTicker(d).C
}
