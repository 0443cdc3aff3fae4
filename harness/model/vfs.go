package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"slices"
	"strconv"
	"syscall"
	"time"

	"verifharness/sym"
)

// ---- file system: a tree in memory, without links, permissions or lost writes ----

type node struct {
	dir   bool
	mode  fs.FileMode
	names []string // of a directory, ascending
	kids  []*node
	data  []byte // of a file
}

var root = &node{dir: true, mode: fs.ModeDir | 0o755}

type handle struct {
	n      *node
	name   string
	pos    int
	app    bool
	rd, wr bool
	closed bool
	listed int
}

var handles = map[*os.File]*handle{}
var tempCount int

// Roots, when not empty, are the only directories that may be touched; other accesses are
// recorded in Outside.
var Roots []string
var Outside []string

// Crashes makes every change of the file system a possible place to die. Dead processes change
// nothing any more, until Reboot.
var Crashes bool
var dead bool

// Died is the value a crash panics with.
type Died struct{}

func Reboot() {
	dead = false
	Crashes = false
	handles = map[*os.File]*handle{}
}

// IsDead reports whether the process crashed.
func IsDead() bool { return dead }

// Open handles, for leak checks.
func OpenHandles() int {
	n := 0
	for _, h := range handles {
		if !h.closed {
			n++
		}
	}
	return n
}

var errDead = errors.New("model: the process has crashed")

// Faults is the number of operations that may still fail with an input/output error.
var Faults int

// Failed counts the operations that did.
var Failed int

func fault() error {
	if Faults > 0 && sym.Choose("fault", 2) == 1 {
		Faults--
		Failed++
		return syscall.EIO
	}
	return nil
}

// change is called before every change of the file system.
func change() error {
	if dead {
		return errDead
	}
	if err := fault(); err != nil {
		return err
	}
	if Crashes && sym.Choose("crash", 2) == 1 {
		dead = true
		panic(Died{})
	}
	return nil
}

// parts splits a path; the current directory is /cwd.
func parts(path string) []string {
	if len(path) == 0 || path[0] != '/' {
		path = "/cwd/" + path
	}
	var out []string
	for i := 0; i < len(path); {
		for i < len(path) && path[i] == '/' {
			i++
		}
		j := i
		for j < len(path) && path[j] != '/' {
			j++
		}
		if j > i {
			out = append(out, path[i:j])
		}
		i = j
	}
	return out
}

func clean(ps []string) string {
	var st []string
	for _, p := range ps {
		switch p {
		case ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, p)
		}
	}
	s := ""
	for _, p := range st {
		s += "/" + p
	}
	if s == "" {
		return "/"
	}
	return s
}

func touch(op, path string) {
	if len(Roots) == 0 {
		return
	}
	c := clean(parts(path))
	for _, r := range Roots {
		if c == r || len(c) > len(r) && c[:len(r)] == r && c[len(r)] == '/' {
			return
		}
	}
	Outside = append(Outside, op+" "+c)
}

func (n *node) find(name string) (int, bool) { return slices.BinarySearch(n.names, name) }

func (n *node) kid(name string) *node {
	if i, ok := n.find(name); ok {
		return n.kids[i]
	}
	return nil
}

func (n *node) put(name string, k *node) {
	i, ok := n.find(name)
	if ok {
		n.kids[i] = k
		return
	}
	names := append([]string{}, n.names[:i]...)
	kids := append([]*node{}, n.kids[:i]...)
	n.names = append(append(names, name), n.names[i:]...)
	n.kids = append(append(kids, k), n.kids[i:]...)
}

func (n *node) drop(name string) {
	if i, ok := n.find(name); ok {
		n.names = append(append([]string{}, n.names[:i]...), n.names[i+1:]...)
		n.kids = append(append([]*node{}, n.kids[:i]...), n.kids[i+1:]...)
	}
}

// walk finds the directory holding the last component of path, and that component; the
// component is "" when the path denotes the directory itself.
func walk(path string) (dir *node, last string, err error) {
	if path == "" {
		return nil, "", syscall.ENOENT
	}
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return nil, "", syscall.EINVAL
		}
	}
	ps := parts(path)
	st := []*node{root}
	for i, p := range ps {
		cur := st[len(st)-1]
		if !cur.dir {
			return nil, "", syscall.ENOTDIR
		}
		switch p {
		case ".":
			continue
		case "..":
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
			continue
		}
		if len(p) > 255 {
			return nil, "", syscall.ENAMETOOLONG
		}
		if i == len(ps)-1 {
			k := cur.kid(p)
			if path[len(path)-1] == '/' && k != nil && !k.dir {
				return nil, "", syscall.ENOTDIR
			}
			return cur, p, nil
		}
		k := cur.kid(p)
		if k == nil {
			return nil, "", syscall.ENOENT
		}
		st = append(st, k)
	}
	cur := st[len(st)-1]
	if !cur.dir {
		return nil, "", syscall.ENOTDIR
	}
	return cur, "", nil
}

func lookup(path string) (*node, error) {
	d, last, err := walk(path)
	if err != nil {
		return nil, err
	}
	if last == "" {
		return d, nil
	}
	if k := d.kid(last); k != nil {
		return k, nil
	}
	return nil, syscall.ENOENT
}

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func openFile(name string, flag int, perm fs.FileMode) (f *os.File, err error) {
	sym.Atomic(func() {
		touch("open", name)
		d, last, e := walk(name)
		if e != nil {
			err = perr("open", name, e)
			return
		}
		n := d
		if last != "" {
			n = d.kid(last)
		}
		wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
		switch {
		case n == nil && flag&os.O_CREATE == 0:
			err = perr("open", name, syscall.ENOENT)
			return
		case n == nil:
			if name[len(name)-1] == '/' {
				err = perr("open", name, syscall.EISDIR)
				return
			}
			if e := change(); e != nil {
				err = perr("open", name, e)
				return
			}
			n = &node{mode: perm & 0o777}
			d.put(last, n)
		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			err = perr("open", name, syscall.EEXIST)
			return
		case n.dir && (wr || flag&os.O_CREATE != 0):
			err = perr("open", name, syscall.EISDIR)
			return
		case flag&os.O_TRUNC != 0 && wr:
			if e := change(); e != nil {
				err = perr("open", name, e)
				return
			}
			n.data = nil
		default:
			if e := fault(); e != nil {
				err = perr("open", name, e)
				return
			}
		}
		f = new(os.File)
		handles[f] = &handle{n: n, name: name, app: flag&os.O_APPEND != 0, rd: flag&os.O_WRONLY == 0, wr: wr}
	})
	return
}

func OsOpen(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func OsOpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	return openFile(name, flag, perm)
}

func OsMkdir(name string, perm fs.FileMode) (err error) {
	sym.Atomic(func() {
		touch("mkdir", name)
		d, last, e := walk(name)
		if e == nil && (last == "" || d.kid(last) != nil) {
			e = syscall.EEXIST
		}
		if e == nil {
			e = change()
		}
		if e == nil {
			d.put(last, &node{dir: true, mode: fs.ModeDir | perm&0o777})
		}
		err = perr("mkdir", name, e)
	})
	return
}

func OsMkdirAll(path string, perm fs.FileMode) (err error) {
	sym.Atomic(func() {
		touch("mkdir", path)
		if path == "" {
			err = perr("mkdir", path, syscall.ENOENT)
			return
		}
		pre := ""
		if path[0] == '/' {
			pre = "/"
		}
		st := pre
		for _, p := range partsOf(path) {
			if st != "" && st[len(st)-1] != '/' {
				st += "/"
			}
			st += p
			n, e := lookup(st)
			if e == nil && n.dir {
				continue
			}
			if e == nil {
				err = perr("mkdir", st, syscall.ENOTDIR)
				return
			}
			d, last, e := walk(st)
			if e == nil {
				e = change()
			}
			if e != nil {
				err = perr("mkdir", st, e)
				return
			}
			d.put(last, &node{dir: true, mode: fs.ModeDir | perm&0o777})
		}
	})
	return
}

// partsOf splits a path without resolving it.
func partsOf(path string) []string {
	if path != "" && path[0] != '/' {
		return parts(path)[1:]
	}
	return parts(path)
}

type info struct {
	name string
	n    *node
	size int64
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return i.n.mode }
func (i *info) ModTime() time.Time         { return time.Unix(0, 0) }
func (i *info) IsDir() bool                { return i.n.dir }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.n.mode & fs.ModeType }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }

func infoOf(path string, n *node) *info {
	b := "/"
	if ps := partsOf(path); len(ps) > 0 {
		b = ps[len(ps)-1]
	}
	return &info{b, n, int64(len(n.data))}
}

func OsStat(name string) (fi fs.FileInfo, err error) {
	sym.Atomic(func() {
		touch("stat", name)
		n, e := lookup(name)
		if e == nil {
			e = fault()
		}
		if e != nil {
			err = perr("stat", name, e)
			return
		}
		fi = infoOf(name, n)
	})
	return
}

func OsLstat(name string) (fs.FileInfo, error) { return OsStat(name) }

func entries(d *node) []fs.DirEntry {
	var out []fs.DirEntry
	for i, k := range d.kids {
		out = append(out, &info{d.names[i], k, int64(len(k.data))})
	}
	return out
}

func OsReadDir(name string) (es []fs.DirEntry, err error) {
	sym.Atomic(func() {
		touch("readdir", name)
		n, e := lookup(name)
		if e == nil {
			e = fault()
		}
		if e != nil {
			err = perr("open", name, e)
			return
		}
		if !n.dir {
			err = perr("readdirent", name, syscall.ENOTDIR)
			return
		}
		es = entries(n)
	})
	return
}

func OsReadFile(name string) (b []byte, err error) {
	sym.Atomic(func() {
		touch("read", name)
		n, e := lookup(name)
		if e == nil {
			e = fault()
		}
		if e == nil && n.dir {
			err = perr("read", name, syscall.EISDIR)
			return
		}
		if e != nil {
			err = perr("open", name, e)
			return
		}
		b = append([]byte{}, n.data...)
	})
	return
}

func OsWriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	if e := FileClose(f); e != nil && err == nil {
		err = e
	}
	return err
}

func OsRemove(name string) (err error) {
	sym.Atomic(func() {
		touch("remove", name)
		d, last, e := walk(name)
		switch {
		case e != nil:
		case last == "":
			e = syscall.EINVAL
		case d.kid(last) == nil:
			e = syscall.ENOENT
		case len(d.kid(last).kids) > 0:
			e = syscall.ENOTEMPTY
		default:
			if e = change(); e == nil {
				d.drop(last)
			}
		}
		err = perr("remove", name, e)
	})
	return
}

func removeTree(d *node, name string) error {
	k := d.kid(name)
	for k.dir && len(k.kids) > 0 {
		if err := removeTree(k, k.names[0]); err != nil {
			return err
		}
	}
	if err := change(); err != nil {
		return err
	}
	d.drop(name)
	return nil
}

func OsRemoveAll(path string) (err error) {
	sym.Atomic(func() {
		if path == "" {
			return
		}
		touch("remove", path)
		if path[len(path)-1] == '.' && (len(path) == 1 || path[len(path)-2] == '/') {
			err = perr("RemoveAll", path, syscall.EINVAL)
			return
		}
		d, last, e := walk(path)
		if e == syscall.ENOENT {
			return
		}
		if e == nil && last != "" && d.kid(last) == nil {
			return
		}
		if e == nil && last == "" {
			for e == nil && len(d.kids) > 0 {
				e = removeTree(d, d.names[0])
			}
			if e == nil {
				e = syscall.EINVAL
			}
		} else if e == nil {
			e = removeTree(d, last)
		}
		err = perr("RemoveAll", path, e)
	})
	return
}

func within(n, m *node) bool {
	if n == m {
		return true
	}
	for _, k := range n.kids {
		if within(k, m) {
			return true
		}
	}
	return false
}

func OsRename(from, to string) (err error) {
	sym.Atomic(func() {
		touch("rename", from)
		touch("rename", to)
		fd, fl, e := walk(from)
		var td *node
		var tl string
		var src, dst *node
		if e == nil {
			src = fd
			if fl != "" {
				src = fd.kid(fl)
			}
		}
		var te error
		td, tl, te = walk(to)
		if te == nil {
			dst = td
			if tl != "" {
				dst = td.kid(tl)
			}
		}
		switch {
		case te == nil && dst != nil && dst.dir && e != nil:
		case te == nil && dst != nil && dst.dir && src == nil:
			e = syscall.ENOENT
		case te == nil && dst != nil && dst.dir && (src != dst || from == to):
			e = syscall.EEXIST
		case e != nil:
		case src == nil:
			e = syscall.ENOENT
		case te != nil:
			e = te
		case fl == "" || tl == "":
			e = syscall.EBUSY
		case src == dst:
		case src.dir && dst != nil:
			e = syscall.ENOTDIR
		case src.dir && within(src, td):
			e = syscall.EINVAL
		case !src.dir && to[len(to)-1] == '/':
			e = syscall.ENOTDIR
		default:
			if e = change(); e == nil {
				fd.drop(fl)
				td.put(tl, src)
			}
		}
		if e != nil {
			err = &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
		}
	})
	return
}

func tempName(op, dir, pattern string) (prefix, suffix string, err error) {
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '/' {
			return "", "", perr(op, pattern, errors.New("pattern contains path separator"))
		}
	}
	prefix = pattern
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			prefix, suffix = pattern[:i], pattern[i+1:]
			break
		}
	}
	if dir != "" && dir[len(dir)-1] == '/' {
		return dir + prefix, suffix, nil
	}
	return dir + "/" + prefix, suffix, nil
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix, err := tempName("createtemp", dir, pattern)
	if err != nil {
		return nil, err
	}
	for {
		name := prefix + strconv.Itoa(nextTemp()) + suffix
		f, err := openFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func nextTemp() (n int) {
	sym.Atomic(func() { tempCount++; n = 1000 + tempCount })
	return
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix, err := tempName("mkdirtemp", dir, pattern)
	if err != nil {
		return "", err
	}
	for {
		name := prefix + strconv.Itoa(nextTemp()) + suffix
		err := OsMkdir(name, 0o700)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		if err != nil {
			return "", err
		}
		return name, nil
	}
}

func OsTruncate(name string, size int64) error {
	f, err := openFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = FileTruncate(f, size)
	FileClose(f)
	return err
}

func OsGetwd() (string, error)                    { return "/cwd", nil }
func OsChmod(name string, mode fs.FileMode) error { _, err := OsStat(name); return err }
func OsLink(from, to string) error                { sym.Unsupported("os.Link"); return nil }
func OsSymlink(from, to string) error             { sym.Unsupported("os.Symlink"); return nil }

// ---- files ----

// on runs f on an open handle.
func on(op string, file *os.File, f func(h *handle) error) (err error) {
	if file == nil {
		return os.ErrInvalid
	}
	sym.Atomic(func() {
		h := handles[file]
		switch {
		case h == nil && dead: // of a process that died
			err = errDead
		case h == nil:
			err = os.ErrInvalid
		case h.closed:
			err = perr(op, h.name, fs.ErrClosed)
		default:
			if err = f(h); err != nil && err != io.EOF {
				err = perr(op, h.name, err)
			}
		}
	})
	return
}

func FileRead(f *os.File, p []byte) (n int, err error) {
	var got []byte
	err = on("read", f, func(h *handle) error {
		if h.n.dir {
			return syscall.EISDIR
		}
		if !h.rd {
			return syscall.EBADF
		}
		if len(p) == 0 {
			return nil
		}
		if h.pos >= len(h.n.data) {
			return io.EOF
		}
		if err := fault(); err != nil {
			return err
		}
		got = h.n.data[h.pos:min(h.pos+len(p), len(h.n.data))]
		h.pos += len(got)
		return nil
	})
	return copy(p, got), err
}

func FileReadAt(f *os.File, p []byte, off int64) (n int, err error) {
	var got []byte
	err = on("read", f, func(h *handle) error {
		if off < 0 {
			return errors.New("negative offset")
		}
		if h.n.dir && len(p) > 0 {
			return syscall.EISDIR
		}
		if !h.rd {
			return syscall.EBADF
		}
		if err := fault(); err != nil {
			return err
		}
		size := int64(len(h.n.data))
		if off < size {
			got = h.n.data[off:min(off+int64(len(p)), size)]
		}
		if len(got) < len(p) {
			return io.EOF
		}
		return nil
	})
	return copy(p, got), err
}

// write stores p at off; a crash may happen after any part of it that matters. A failing write may
// have stored a part.
func write(h *handle, p []byte, off int) (n int, err error) {
	if dead {
		return 0, errDead
	}
	if Faults > 0 {
		if k := sym.Choose("fault", 3); k > 0 {
			Faults--
			Failed++
			if k == 2 {
				n = len(p) / 2
				place(h, p[:n], off)
			}
			return n, syscall.ENOSPC
		}
	}
	if Crashes {
		if k := sym.Choose("crash", 3); k > 0 {
			if k == 2 { // part of the data was written
				place(h, p[:len(p)/2], off)
			}
			dead = true
			panic(Died{})
		}
	}
	place(h, p, off)
	return len(p), nil
}

func place(h *handle, p []byte, off int) {
	d := h.n.data
	if off == len(d) {
		// not in place: slices handed out earlier keep their contents
		h.n.data = append(d[:len(d):len(d)], p...)
		return
	}
	nd := make([]byte, max(len(d), off+len(p)))
	copy(nd, d)
	copy(nd[off:], p)
	h.n.data = nd
}

// the standard streams: what is written there is dropped
var OsStdin, OsStdout, OsStderr = new(os.File), new(os.File), new(os.File)

func std(f *os.File) bool { return f != nil && (f == OsStdin || f == OsStdout || f == OsStderr) }

func FileWrite(f *os.File, p []byte) (n int, err error) {
	if std(f) {
		return len(p), nil
	}
	buf := append([]byte(nil), p...)
	err = on("write", f, func(h *handle) error {
		if !h.wr {
			return syscall.EBADF
		}
		if len(buf) == 0 {
			return nil
		}
		if h.app {
			h.pos = len(h.n.data)
		}
		var err error
		n, err = write(h, buf, h.pos)
		h.pos += n
		return err
	})
	return
}

func FileWriteAt(f *os.File, p []byte, off int64) (n int, err error) {
	buf := append([]byte(nil), p...)
	err = on("write", f, func(h *handle) error {
		if !h.wr {
			return syscall.EBADF
		}
		if off < 0 {
			return errors.New("negative offset")
		}
		if off+int64(len(p)) > 1<<24 {
			sym.Unsupported("write far beyond the end of a file")
		}
		var err error
		n, err = write(h, buf, int(off))
		return err
	})
	return
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileSeek(f *os.File, off int64, whence int) (pos int64, err error) {
	err = on("seek", f, func(h *handle) error {
		switch whence {
		case io.SeekCurrent:
			off += int64(h.pos)
		case io.SeekEnd:
			off += int64(len(h.n.data))
		}
		if off < 0 {
			return syscall.EINVAL
		}
		h.pos = int(off)
		pos = off
		return nil
	})
	return
}

func FileClose(f *os.File) error {
	return on("close", f, func(h *handle) error { h.closed = true; return nil })
}

func FileSync(f *os.File) error { return on("sync", f, func(h *handle) error { return nil }) }

func FileTruncate(f *os.File, size int64) error {
	return on("truncate", f, func(h *handle) error {
		if size < 0 || !h.wr {
			return syscall.EINVAL
		}
		if size > 1<<24 {
			sym.Unsupported("truncation to a large size")
		}
		if err := change(); err != nil {
			return err
		}
		nd := make([]byte, size)
		copy(nd, h.n.data)
		h.n.data = nd
		return nil
	})
}

func FileStat(f *os.File) (fi fs.FileInfo, err error) {
	err = on("stat", f, func(h *handle) error { fi = infoOf(h.name, h.n); return nil })
	return
}

func FileName(f *os.File) (name string) {
	sym.Atomic(func() {
		if h := handles[f]; h != nil {
			name = h.name
		}
	})
	return
}

func FileReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	if err := on("write", f, func(h *handle) error { return nil }); err != nil {
		return 0, err
	}
	buf := make([]byte, 32<<10)
	for {
		m, rerr := r.Read(buf)
		if m > 0 {
			k, werr := FileWrite(f, buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func FileWriteTo(f *os.File, w io.Writer) (n int64, err error) {
	if err := on("read", f, func(h *handle) error { return nil }); err != nil {
		return 0, err
	}
	buf := make([]byte, 32<<10)
	for {
		m, rerr := FileRead(f, buf)
		if m > 0 {
			k, werr := w.Write(buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
			if k != m {
				return n, io.ErrShortWrite
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func FileReadDir(f *os.File, n int) (es []fs.DirEntry, err error) {
	err = on("readdir", f, func(h *handle) error {
		if !h.n.dir {
			return syscall.ENOTDIR
		}
		all := entries(h.n)[h.listed:]
		if n > 0 && len(all) == 0 {
			return io.EOF
		}
		if n > 0 && len(all) > n {
			all = all[:n]
		}
		h.listed += len(all)
		es = all
		return nil
	})
	return
}

func FileReaddir(f *os.File, n int) (fis []fs.FileInfo, err error) {
	es, err := FileReadDir(f, n)
	for _, e := range es {
		fi, _ := e.Info()
		fis = append(fis, fi)
	}
	return fis, err
}

func FileReaddirnames(f *os.File, n int) (names []string, err error) {
	es, err := FileReadDir(f, n)
	for _, e := range es {
		names = append(names, e.Name())
	}
	return names, err
}
