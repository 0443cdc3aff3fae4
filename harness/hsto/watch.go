package hsto

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verifharness/model"
	"verifharness/sym"
)

var before map[string]bool

var notes int // inotify, natively

// watch starts recording accesses outside the two directories. Natively only changes around the
// directories and in the directory for temporary files can be seen.
func watch(base, target, work string) {
	if sym.Symbolic() {
		model.Roots = []string{target, work}
		return
	}
	tmp := base + "/tmp"
	os.Mkdir(tmp, 0o755)
	os.Setenv("TMPDIR", tmp)
	before = snapshot(base, target, work)
	var err error
	if notes, err = syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC); err != nil {
		notes = -1
		return
	}
	const mask = syscall.IN_CREATE | syscall.IN_DELETE | syscall.IN_MOVED_FROM | syscall.IN_MOVED_TO | syscall.IN_MODIFY
	syscall.InotifyAddWatch(notes, base, mask)
	syscall.InotifyAddWatch(notes, tmp, mask)
}

func snapshot(base, target, work string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(base, func(path string, fi os.FileInfo, err error) error {
		if path != target && path != work && !strings.HasPrefix(path, target+"/") && !strings.HasPrefix(path, work+"/") {
			m[path] = true
		}
		return nil
	})
	return m
}

func outside(base string) []string {
	if sym.Symbolic() {
		return model.Outside
	}
	var out []string
	after := snapshot(base, base+"/target", base+"/work")
	for p := range after {
		if !before[p] {
			out = append(out, "created "+p)
		}
	}
	for p := range before {
		if !after[p] {
			out = append(out, "removed "+p)
		}
	}
	buf := make([]byte, 4096)
	for notes >= 0 {
		n, err := syscall.Read(notes, buf)
		if err != nil || n < syscall.SizeofInotifyEvent {
			syscall.Close(notes)
			break
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			k := syscall.SizeofInotifyEvent + int(binary.NativeEndian.Uint32(b[12:]))
			name := strings.TrimRight(string(b[syscall.SizeofInotifyEvent:k]), "\x00")
			out = append(out, "changed "+name)
			b = b[k:]
		}
	}
	return out
}
