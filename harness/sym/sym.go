// Package sym is the interface between the harnesses and the symbolic engine.
//
// The engine replaces every exported function by an intrinsic. The bodies below
// are the concrete semantics, used when a counterexample is replayed natively:
// inputs come from a file, a failed assertion ends the process.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Int   int64  `json:"int"`
	Bytes []byte `json:"bytes"`
}

type replayFile struct {
	Inputs []input        `json:"inputs"`
	Params map[string]int `json:"params"`
}

var (
	mu     sync.Mutex
	vals   = map[string]input{}
	cnt    = map[string]int{}
	params = map[string]int{}
	loaded bool
)

// Load reads the inputs of a replay (native runs only).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	for _, in := range f.Inputs {
		vals[in.Name] = in
	}
	params = f.Params
	loaded = true
	return nil
}

func get(name string) input {
	mu.Lock()
	defer mu.Unlock()
	n := cnt[name]
	cnt[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return vals[name]
}

// Symbolic reports whether the engine is executing the harness.
func Symbolic() bool { return false }

// Param is a bound fixed by the check's specification.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

func Int(name string) int       { return int(get(name).Int) }
func Int64(name string) int64   { return get(name).Int }
func Int32(name string) int32   { return int32(get(name).Int) }
func Int16(name string) int16   { return int16(get(name).Int) }
func Int8(name string) int8     { return int8(get(name).Int) }
func Uint(name string) uint     { return uint(get(name).Int) }
func Uint64(name string) uint64 { return uint64(get(name).Int) }
func Uint32(name string) uint32 { return uint32(get(name).Int) }
func Uint16(name string) uint16 { return uint16(get(name).Int) }
func Byte(name string) byte     { return byte(get(name).Int) }
func Bool(name string) bool     { return get(name).Int != 0 }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(name string, lo, hi int) int {
	v := Int(name)
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Choose forks the path over 0..n-1.
func Choose(name string, n int) int {
	v := int(get(name).Int)
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	copy(b, get(name).Bytes)
	return b
}

// Digits is an arbitrary string of n decimal digits.
func Digits(name string, n int) []byte { return Bytes(name, n) }

// ByteIn is an arbitrary byte in [lo,hi].
func ByteIn(name string, lo, hi byte) byte { return Bytes(name, 1)[0] }

// String is an arbitrary string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

func Assume(c bool) {
	if !c {
		fmt.Println("ASSUMPTION-FAILED")
		os.Exit(0)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Printf("ASSERTION-FAILED: %s\n", msg)
	buf := make([]byte, 1<<14)
	fmt.Printf("%s\n", buf[:runtime.Stack(buf, false)])
	os.Exit(3)
}

// Reach marks a point that some path must reach (vacuity witness).
func Reach(label string) {}

// Concretize forks over the values of x.
func Concretize(x int) int { return x }

// Non-forking connectives.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool   { return bytes.Equal(a, b) }
func EqStr(a, b string) bool     { return a == b }
func InRange(x, lo, hi int) bool { return lo <= x && x <= hi }

// MapOrder makes map iteration order symbolic.
func MapOrder(on bool) {}

// Races turns data-race detection on.
func Races(on bool) {}

// Preempt sets the preemption bound of the running harness.
func Preempt(n int) {}

// Explore allows that many preemptions and choices of the next goroutine from here on.
func Explore(preemptions, switches int) {}

// Live counts the goroutines other than the first that have not ended.
func Live() int { return 0 }

// Atomic runs f without scheduling points.
func Atomic(f func()) { f() }

// Quiesce returns when every other goroutine is blocked.
func Quiesce() { time.Sleep(150 * time.Millisecond) }

// Deadlocked reports whether f cannot finish: true when it is still blocked
// once nothing else can run.
func Blocks(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return false
	case <-time.After(400 * time.Millisecond):
		return true
	}
}

// Panics runs f and reports whether it panicked, with the message.
func Panics(f func()) (p bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			p = true
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return false, ""
}

// Engine-side services for the models; meaningless natively.
func Now() int64                         { return 0 }
func ClockSec() int64                    { return 0 }
func SetClockSec(s int64)                {}
func SleepUntil(ns int64)                {}
func StartTimer(at int64, f func()) int  { return 0 }
func StopTimer(id int) bool              { return false }
func SHA1(b []byte) [20]byte             { panic("native") }
func Text(format string, a []any) string { return fmt.Sprintf(format, a...) }
func Unsupported(msg string)             { panic(msg) }
func Crash()                             {}
func Debug(a ...any) {
	if os.Getenv("SYM_DEBUG") != "" {
		fmt.Println(a...)
	}
}
func SameObj(a, b any) bool              { return false }

// FindAll returns the pointers of the type of like that are reachable from root, in a fixed order.
func FindAll(root, like any) []any { panic("native") }
