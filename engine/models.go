package main

import "strings"

// initModels lists the library functions executed as Go models (package model of the harness module).
func initModels() {
	r := func(from, to string) { redirects[from] = modelPkg + to }
	r("fmt.Errorf", "Errorf")
	for _, f := range []string{"Fprintf", "Fprint", "Fprintln", "Sprintln", "Append", "Appendf", "Appendln"} {
		r("fmt."+f, "Fmt"+f)
	}
	for _, f := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range", "Clear"} {
		r("(*sync.Map)."+f, "SyncMap"+f)
	}
	r("(*sync.Cond).Wait", "CondWait")
	r("(*sync.Cond).Signal", "CondSignal")
	r("(*sync.Cond).Broadcast", "CondBroadcast")
	r("time.Until", "TimeUntil")
	r("time.Tick", "TimeTick")
	r("strconv.Quote", "Quote")
	r("time.Now", "TimeNow")
	r("time.Since", "TimeSince")
	r("time.Sleep", "TimeSleep")
	r("time.After", "TimeAfter")
	r("time.NewTicker", "TimeNewTicker")
	r("(*time.Ticker).Stop", "TickerStop")
	r("(*time.Ticker).Reset", "TickerReset")
	r("time.NewTimer", "TimeNewTimer")
	r("time.AfterFunc", "TimeAfterFunc")
	r("(*time.Timer).Stop", "TimerStop")
	r("(*time.Timer).Reset", "TimerReset")
	r("crypto/sha1.New", "SHA1New")
	r("crypto/sha1.Sum", "SHA1Sum")
	for _, pkg := range []string{"math/rand", "math/rand/v2"} {
		// A generator is as good as the global one, whatever its seed.
		for _, f := range []string{"Float64", "Float32", "Shuffle", "Perm", "Intn", "IntN", "Int31n", "Int32N", "Int63n", "Int64N", "Int", "Uint32", "Uint64"} {
			m := strings.ReplaceAll(f, "N", "n")
			m = strings.NewReplacer("Int32n", "Int31n", "Int64n", "Int63n").Replace(m)
			r(pkg+"."+f, "Rand"+m)
			r("(*"+pkg+".Rand)."+f, "Rand"+map[bool]string{false: "R", true: "V"}[pkg != "math/rand"]+m)
		}
		r(pkg+".runtime_rand", "RandUint64")
	}
	r("math/rand.NewSource", "RandNewSource")
	r("math/rand.Read", "RandRead")
	r("crypto/rand.Read", "RandRead")
	for _, f := range []string{"Open", "Create", "OpenFile", "Rename", "Remove", "RemoveAll", "Mkdir", "MkdirAll", "Stat", "Lstat",
		"ReadDir", "ReadFile", "WriteFile", "MkdirTemp", "CreateTemp", "Truncate", "Getwd", "Link", "Symlink", "Chmod"} {
		r("os."+f, "Os"+f)
	}
	for _, f := range []string{"Read", "Write", "ReadAt", "WriteAt", "Seek", "Close", "Stat", "Sync", "Truncate", "Name", "ReadFrom",
		"WriteTo", "WriteString", "ReadDir", "Readdir", "Readdirnames"} {
		r("(*os.File)."+f, "File"+f)
	}
	r("net.Dial", "NetDial")
	r("net.DialTimeout", "NetDialTimeout")
	r("(*net.Dialer).Dial", "DialerDial")
	r("(*net.Dialer).DialContext", "DialerDialContext")
	r("net.Listen", "NetListen")
	r("net/http.Get", "HTTPGet")
	r("(*net/http.Client).Get", "HTTPClientGet")
	r("(*net/http.Client).Do", "HTTPClientDo")
}
