// Package hsto holds the harnesses for the storage.
package hsto

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
	"verifharness/sym"
)

const bl = storage.BLOCK_LENGTH

// world is a torrent with its contents.
type world struct {
	pl      int // piece length
	total   int
	content []byte
	info    *metainfo.Info
	target  string
	work    string
}

// geometries: piece length, total length.
var geometries = [][2]int{
	{4, 10},              // three pieces of one block, the last shorter
	{bl + 4, bl + 7},     // [full, 4] [3]
	{2 * bl, 3 * bl},     // [full, full] [full]
	{bl, bl},             // one piece of one full block
	{bl + 1, 2 * bl},     // [full, 1] [full - 1]
	{3, 6},               // two pieces of equal length
	{2*bl + 2, 2*bl + 2}, // [full, full, 2]
	{5, 3},               // one piece shorter than the piece length
}

func mkdir(path string) {
	if err := os.MkdirAll(path, 0o755); err != nil {
		panic(err)
	}
}

// newWorld makes a torrent with arbitrary bytes at the ends of all blocks (elsewhere the content is
// fixed), split into files at the given offsets when there are any.
func newWorld(geo int, cuts []int) *world {
	base := os.Getenv("VERIF_SCRATCH")
	w := &world{pl: geometries[geo][0], total: geometries[geo][1], target: base + "/target", work: base + "/work"}
	mkdir(w.target)
	mkdir(w.work)
	w.content = make([]byte, w.total)
	for i := range min(w.total, 256) {
		w.content[i] = byte(i*7 + 3)
	}
	for n := 256; n < w.total; n *= 2 {
		copy(w.content[n:], w.content[1:n])
	}
	for p := 0; p*w.pl < w.total; p++ {
		for b := 0; b < w.blocks(p); b++ {
			o, n := w.off(p, b), w.size(p, b)
			s := sym.Bytes("content", 2)
			w.content[o] = s[0]
			w.content[o+n-1] = s[1]
		}
	}
	w.info = &metainfo.Info{PieceLength: w.pl, Name: "name"}
	w.info.SHA1[0] = 0xab
	for p := 0; p*w.pl < w.total; p++ {
		w.info.Pieces = append(w.info.Pieces, sha1.Sum(w.piece(p)))
	}
	if cuts == nil {
		w.info.Length = int64(w.total)
		return w
	}
	at := 0
	for i, c := range append(append([]int{}, cuts...), w.total) {
		path := []string{fmt.Sprint("f", i)}
		if i%2 == 1 {
			path = []string{"d", fmt.Sprint("f", i)}
		}
		w.info.Files = append(w.info.Files, &metainfo.File{Length: int64(c - at), Path: path})
		at = c
	}
	return w
}

func (w *world) pieces() int    { return (w.total + w.pl - 1) / w.pl }
func (w *world) plen(p int) int { return min(w.pl, w.total-p*w.pl) }
func (w *world) piece(p int) []byte {
	return w.content[p*w.pl : p*w.pl+w.plen(p)]
}
func (w *world) blocks(p int) int { return (w.plen(p) + bl - 1) / bl }
func (w *world) off(p, b int) int { return p*w.pl + b*bl }
func (w *world) size(p, b int) int {
	return min(bl, w.plen(p)-b*bl)
}
func (w *world) block(p, b int) []byte {
	o := w.off(p, b)
	return append([]byte{}, w.content[o:o+w.size(p, b)]...)
}

// all lists the blocks of the torrent.
func (w *world) all() (out [][2]int) {
	for p := 0; p < w.pieces(); p++ {
		for b := 0; b < w.blocks(p); b++ {
			out = append(out, [2]int{p, b})
		}
	}
	return
}

func (w *world) open() *storage.Storage {
	s := storage.New(w.target, w.work, w.info)
	err := s.Load()
	sym.Assert(err == nil, "opening the storage failed")
	return s
}

// cutsOf chooses a split into files; nil is a single file.
func cutsOf(geo int, max int) []int {
	total := geometries[geo][1]
	k := sym.Choose("files", max+1)
	if k == 0 {
		return nil
	}
	cand := []int{}
	if total < 16 {
		for i := 0; i <= total; i++ {
			cand = append(cand, i)
		}
	} else {
		pl := geometries[geo][0]
		for _, c := range []int{0, 1, bl - 1, bl, bl + 1, pl, pl + 1, total - 1, total} {
			if c <= total && (len(cand) == 0 || c > cand[len(cand)-1]) {
				cand = append(cand, c)
			}
		}
	}
	var cuts []int
	lo := 0
	for i := 0; i < k-1; i++ {
		c := lo + sym.Choose("cut", len(cand)-lo)
		cuts = append(cuts, cand[c])
		lo = c
	}
	if cuts == nil {
		cuts = []int{}
	}
	return cuts
}

// checkRange reads one arbitrary range of a complete piece.
func (w *world) checkRange(s *storage.Storage, p int) {
	n := w.plen(p)
	begin, length := 0, n
	if n <= 16 {
		begin = sym.IntRange("begin", 0, n)
		length = sym.IntRange("length", 0, n)
		sym.Assume(length <= n-begin)
		length = sym.Concretize(length)
		begin = sym.Concretize(begin)
	} else {
		var at []int
		for _, c := range []int{0, 1, bl - 1, bl, bl + 1, n - 1, n} {
			if c <= n && (len(at) == 0 || c > at[len(at)-1]) {
				at = append(at, c)
			}
		}
		i := sym.Choose("from", len(at))
		begin = at[i]
		length = at[i+sym.Choose("to", len(at)-i)] - begin
	}
	got, err := s.GetBlock(p, begin, length)
	sym.Assert(err == nil, "a range of a complete piece cannot be read")
	sym.Assert(len(got) == length, "a read returned another number of bytes")
	sym.Assert(sym.EqBytes(got, w.content[p*w.pl+begin:p*w.pl+begin+length]), "a read returned other bytes")
}

// checkPiece reads a whole complete piece.
func (w *world) checkPiece(s *storage.Storage, p int) {
	got, err := s.GetBlock(p, 0, w.plen(p))
	sym.Assert(err == nil, "a complete piece cannot be read")
	sym.Assert(len(got) == w.plen(p) && sym.EqBytes(got, w.piece(p)), "a complete piece reads back differently")
}

// checkTarget compares the finished files.
func (w *world) checkTarget() {
	if w.info.Files == nil {
		got, err := os.ReadFile(filepath.Join(w.target, "name"))
		sym.Assert(err == nil, "the finished file is missing")
		sym.Assert(len(got) == w.total && sym.EqBytes(got, w.content), "the finished file has other contents")
	} else {
		at := 0
		for _, f := range w.info.Files {
			got, err := os.ReadFile(filepath.Join(append([]string{w.target, "name"}, f.Path...)...))
			sym.Assert(err == nil, "a finished file is missing")
			sym.Assert(len(got) == int(f.Length) && sym.EqBytes(got, w.content[at:at+int(f.Length)]), "a finished file has other contents")
			at += int(f.Length)
		}
	}
}

func (w *world) checkClean(s *storage.Storage) {
	es, err := os.ReadDir(filepath.Join(w.work, s.Torrent.WorkDir()))
	sym.Assert(err != nil || len(es) == 0, "piece files remain after the torrent was finished")
	es, err = os.ReadDir(filepath.Join(w.work, "temp"))
	sym.Assert(err != nil || len(es) == 0, "temporary files remain after the torrent was finished")
	es, err = os.ReadDir(w.target)
	sym.Assert(err == nil && len(es) == 1, "the target directory holds something else")
}

// S01: every order of arrival, every split into files.
func S01() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, sym.Param("files", 3)))
	s := w.open()
	left := w.all()
	stored := map[int]int{}
	ask := sym.Choose("ask", len(left)+1) // when to read: after so many blocks, or at the end
	for n := 0; len(left) > 0; n++ {
		k := sym.Choose("next", len(left))
		p, b := left[k][0], left[k][1]
		left = append(append([][2]int{}, left[:k]...), left[k+1:]...)
		err := s.PutBlock(p, b*bl, w.block(p, b))
		sym.Assert(err == nil, "a block was refused")
		stored[p]++
		if n == ask {
			if stored[p] == w.blocks(p) {
				w.checkRange(s, p)
			} else {
				sym.Assume(false)
			}
		}
	}
	sym.Assert(!sym.Blocks(func() { sym.Assert(s.Torrent.Wait() == nil, "the torrent failed") }), "the torrent is not finished")
	w.checkTarget()
	w.checkClean(s)
	if ask == len(w.all()) {
		w.checkRange(s, sym.Choose("piece", w.pieces()))
	} else {
		for p := 0; p < w.pieces(); p++ {
			w.checkPiece(s, p)
		}
	}
	sym.Reach("finished")
}

// S01Bad: nothing remains of refused pieces and abandoned attempts.
func S01Bad() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, 2))
	s := w.open()
	p := sym.Choose("piece", w.pieces())
	for range sym.Param("tries", 2) {
		k := sym.Choose("blocks", w.blocks(p)+1)
		for b := range k {
			d := w.block(p, b)
			d[len(d)-1] ^= 0x55
			err := s.PutBlock(p, b*bl, d)
			sym.Assert((err != nil) == (b == w.blocks(p)-1), "a corrupt piece was accepted, or an incomplete one refused")
		}
		s.ResetPiece(p)
	}
	for _, x := range w.all() {
		sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "a block was refused")
	}
	w.checkTarget()
	w.checkClean(s)
	for p := 0; p < w.pieces(); p++ {
		w.checkPiece(s, p)
	}
	sym.Reach("finished")
}

// S01Again: what the caller may reuse nothing it handed over, but what it read stays intact, and opening again
// finds the finished torrent.
func S01Again() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, 2))
	s := w.open()
	// some pieces, then reopen, then the rest
	all := w.all()
	k := sym.Choose("before", len(all)+1)
	done := map[[2]int]bool{}
	count := map[int]int{}
	for _, x := range all[:k] {
		sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "a block was refused")
		done[x] = true
		count[x[0]]++
	}
	s = w.open()
	for _, x := range all {
		if count[x[0]] == w.blocks(x[0]) {
			w.checkPiece(s, x[0])
			sym.Assert(s.Torrent.Bitfield.Has(x[0]), "a stored piece is lost by reopening")
			sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == storage.ErrBlockExists, "a stored block was accepted again")
			continue
		}
		sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "a block was refused after reopening")
	}
	w.checkTarget()
	w.checkClean(s)
	s = w.open()
	for p := 0; p < w.pieces(); p++ {
		sym.Assert(s.Torrent.Bitfield.Has(p), "a finished torrent lacks a piece when reopened")
		w.checkPiece(s, p)
		sym.Assert(!sym.Blocks(func() { sym.Assert(s.GetPiece(p).Wait() == nil, "a finished piece failed") }), "a finished piece is waited for")
	}
	sym.Assert(!sym.Blocks(func() { sym.Assert(s.Torrent.Wait() == nil, "the torrent failed") }), "the torrent is not finished when reopened")
	sym.Reach("reopened")
}
