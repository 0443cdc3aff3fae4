package hsto

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
	"verifharness/sym"
)

// S02: a piece is assembled from arbitrary bytes, several times, and finally from the right ones.
func S02() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, nil)
	s := w.open()
	target := sym.Choose("piece", w.pieces())
	piece := s.GetPiece(target)
	// before or after the other pieces
	others := func() {
		for _, x := range w.all() {
			if x[0] != target {
				sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "a block was refused")
			}
		}
	}
	first := sym.Choose("others", 2) == 0
	if first {
		others()
	}
	for try := 0; try < sym.Param("tries", 2); try++ {
		// arbitrary bytes at the ends of every block
		attempt := make([][]byte, w.blocks(target))
		good := true
		for b := range attempt {
			attempt[b] = w.block(target, b)
			n := len(attempt[b])
			c := sym.Bytes("attempt", 2)
			attempt[b][0] = c[0]
			attempt[b][n-1] = c[1]
			good = sym.And(good, sym.EqBytes(attempt[b], w.block(target, b)))
		}
		// a waiter from before
		waited := make(chan error, 1)
		go func() { waited <- piece.Wait() }()
		back := sym.Choose("order", 2) == 1
		var err error
		stop := 0 // abandoned after so many blocks
		if len(attempt) > 1 {
			stop = sym.Choose("stop", len(attempt))
		}
		for i := range attempt {
			if stop > 0 && i == stop {
				break
			}
			b := i
			if back {
				b = len(attempt) - 1 - i
			}
			sym.Assert(err == nil, "an incomplete piece failed")
			_, e := s.GetBlock(target, 0, 1)
			sym.Assert(e != nil, "an incomplete piece is served")
			sym.Assert(!s.Torrent.Bitfield.Has(target), "an incomplete piece is listed as held")
			err = s.PutBlock(target, b*bl, attempt[b])
		}
		if stop > 0 {
			sym.Assert(err == nil, "an incomplete piece failed")
			w.checkAbsent(s, target)
			told := make(chan error, 1)
			sym.Assert(sym.Blocks(func() { told <- <-waited }), "a waiter on an incomplete piece returned")
			s.ResetPiece(target)
			var werr error
			sym.Assert(!sym.Blocks(func() { werr = <-told }), "a waiter on a piece that was reset hangs")
			sym.Assert(werr != nil, "a waiter on a piece that was reset is told it is complete")
			w.checkAbsent(s, target)
			sym.Reach("abandoned")
			continue
		}
		if err == nil {
			sym.Assert(good, "a piece with a wrong hash was accepted")
			sym.Assert(s.Torrent.Bitfield.Has(target), "a complete piece is not listed as held")
			w.checkPiece(s, target)
			var werr error
			sym.Assert(!sym.Blocks(func() { werr = <-waited }), "a waiter on a complete piece hangs")
			sym.Assert(werr == nil, "a waiter on a complete piece got an error")
			if !first {
				others()
			}
			w.checkTarget()
			sym.Reach("accepted")
			return
		}
		sym.Assert(!good, "a piece with the right hash was refused")
		var ce *storage.ChecksumError
		sym.Assert(errors.As(err, &ce), "a mismatch is not reported as a checksum error")
		sym.Assert(ce.Index == target && ce.Want == w.info.Pieces[target] && ce.Got != ce.Want, "the checksum error describes something else")
		var werr error
		sym.Assert(!sym.Blocks(func() { werr = <-waited }), "a waiter on a corrupt piece hangs")
		sym.Assert(errors.As(werr, &ce), "a waiter on a corrupt piece got no checksum error")
		w.checkAbsent(s, target)
		sym.Assert(s.ResetPiece(target) == piece, "reset returned another piece")
		w.checkAbsent(s, target)
		sym.Reach("mismatch")
	}
	for b := 0; b < w.blocks(target); b++ {
		sym.Assert(s.PutBlock(target, b*bl, w.block(target, b)) == nil, "after a reset, a block was refused")
	}
	if !first {
		others()
	}
	sym.Assert(!sym.Blocks(func() { sym.Assert(piece.Wait() == nil, "a completed piece still fails") }), "a waiter on a complete piece hangs")
	w.checkTarget()
	w.checkClean(s)
	sym.Reach("recovered")
}

// checkAbsent: nothing of a piece is visible.
func (w *world) checkAbsent(s *storage.Storage, p int) {
	sym.Assert(!s.Torrent.Bitfield.Has(p), "a corrupt piece is listed as held")
	_, err := s.GetBlock(p, 0, 1)
	sym.Assert(err != nil, "a corrupt piece is served")
	_, err = os.Stat(filepath.Join(w.work, s.Torrent.WorkDir(), fmt.Sprintf("%d.piece", p)))
	sym.Assert(err != nil, "a corrupt piece was written under its final name")
	_, err = os.Stat(filepath.Join(w.target, "name"))
	sym.Assert(err != nil, "a torrent with a corrupt piece was finished")
}

// fill brings a fresh storage into one of several states and tells which blocks are stored.
func (w *world) fill(s *storage.Storage, state int) map[[2]int]bool {
	have := map[[2]int]bool{}
	put := func(x [2]int) {
		sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "a block was refused")
		have[x] = true
	}
	all := w.all()
	switch state {
	case 0:
	case 1: // one block
		put(all[0])
	case 2: // all but the first
		for _, x := range all[1:] {
			put(x)
		}
	case 3: // all but the last
		for _, x := range all[:len(all)-1] {
			put(x)
		}
	case 4: // everything
		for _, x := range all {
			put(x)
		}
	}
	return have
}

// complete tells whether all blocks of a piece are stored.
func (w *world) complete(have map[[2]int]bool, p int) bool {
	for b := 0; b < w.blocks(p); b++ {
		if !have[[2]int{p, b}] {
			return false
		}
	}
	return true
}

// S03: any index, offset and length, in every state.
func S03() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, nil)
	s := w.open()
	have := w.fill(s, sym.Choose("state", 5))
	index, begin := sym.Int("index"), sym.Int("begin")
	lens := []int{0, 1, 2, 3, 4, 5, 6}
	if w.pl > 16 {
		lens = []int{0, 1, 3, 4, bl - 1, bl, bl + 1, bl + 3, bl + 4, 2 * bl, 3 * bl}
	}
	n := lens[sym.Choose("len", len(lens))]
	// like some block, but for arbitrary bytes at the ends
	data := make([]byte, n)
	if n > 0 {
		like := w.all()[sym.Choose("like", len(w.all()))]
		copy(data, w.block(like[0], like[1]))
		c := sym.Bytes("data", 2)
		data[0], data[n-1] = c[0], c[1]
	}
	// the torrent's blocks that are not stored
	fits := false
	right := false // ... with the right contents
	at := [2]int{-1, 0}
	for _, x := range w.all() {
		m := w.size(x[0], x[1])
		if m != n || have[x] {
			continue
		}
		here := sym.And(index == x[0], begin == x[1]*bl)
		fits = sym.Or(fits, here)
		if here {
			at = x
			right = sym.EqBytes(data, w.block(x[0], x[1]))
		}
	}
	err := s.PutBlock(index, begin, data)
	if !fits {
		sym.Assert(err != nil, "a block outside the torrent, or present, was accepted")
		for p := 0; p < w.pieces(); p++ {
			sym.Assert(s.Torrent.Bitfield.Has(p) == w.complete(have, p), "a refused block changed the bitfield")
		}
		for _, x := range w.all() {
			if !have[x] {
				sym.Assert(s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1])) == nil, "after a refused block, a block was refused")
			}
		}
		w.checkTarget()
		sym.Reach("refused")
		return
	}
	have[at] = true
	if err == nil && !w.complete(have, at[0]) {
		sym.Reach("stored")
		return
	}
	if err == nil {
		sym.Assert(w.complete(have, at[0]) == s.Torrent.Bitfield.Has(at[0]), "the bitfield differs")
		sym.Assert(right, "wrong contents were accepted")
		sym.Reach("completed")
		return
	}
	var ce *storage.ChecksumError
	sym.Assert(errors.As(err, &ce), "a fitting block was refused")
	sym.Assert(!right, "a fitting block with right contents was refused")
}

// S04: reads of any range, in every state.
func S04() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, sym.Param("files", 2)))
	s := w.open()
	have := w.fill(s, sym.Choose("state", 5))
	if sym.Choose("reopen", 2) == 1 {
		s = w.open()
		for x := range have {
			if !w.complete(have, x[0]) {
				delete(have, x)
			}
		}
	}
	index, begin, length := sym.Int("index"), sym.Int("begin"), sym.Int("length")
	if w.pl > 16 {
		// keep the number of lengths small
		ok := false
		for _, c := range []int{0, 1, 3, 4, 5, bl - 1, bl, bl + 1, bl + 3, bl + 4, bl + 5, 2 * bl, 1 << 40} {
			ok = sym.Or(ok, length == c)
			ok = sym.Or(ok, length == -c)
		}
		sym.Assume(ok)
		ok = false
		for _, c := range []int{-1, 0, 1, 3, 4, 5, bl - 1, bl, bl + 1, bl + 3, bl + 4, bl + 5, 2 * bl, 1 << 62} {
			ok = sym.Or(ok, begin == c)
		}
		sym.Assume(ok)
	}
	inside := false
	at := 0
	for p := 0; p < w.pieces(); p++ {
		if !w.complete(have, p) {
			continue
		}
		n := w.plen(p)
		here := sym.And(index == p, sym.And(sym.And(begin >= 0, begin <= n), sym.And(length >= 0, length <= n-begin)))
		inside = sym.Or(inside, here)
		if here {
			at = p
		}
	}
	got, err := s.GetBlock(index, begin, length)
	if !inside {
		sym.Assert(err != nil, "a range outside the complete pieces was served")
		sym.Reach("refused")
	} else {
		if length > 0 {
			sym.Assert(err == nil, "a range of a complete piece cannot be read")
		}
		if err == nil {
			sym.Assert(len(got) == length, "a read returned another number of bytes")
			o := at*w.pl + begin
			sym.Assert(sym.EqBytes(got, w.content[o:o+length]), "a read returned other bytes")
			sym.Reach("served")
		}
	}
	// nothing broke
	for p := 0; p < w.pieces(); p++ {
		if w.complete(have, p) {
			w.checkPiece(s, p)
		}
	}
}

// S07: the counter, after every operation.
func S07() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, 2))
	s := w.open()
	have := map[[2]int]bool{}
	bad := map[int]bool{} // pieces that hold a corrupt block
	check := func() {
		sum := 0
		for p := 0; p < w.pieces(); p++ {
			if s.Torrent.Bitfield.Has(p) {
				sum += w.plen(p)
			}
			sym.Assert(s.Torrent.Bitfield.Has(p) == w.complete(have, p) || bad[p], "the bitfield differs from the pieces stored")
		}
		sym.Assert(s.Downloaded() == int64(sum), "the downloaded counter differs from the verified bytes")
	}
	drop := func(p int) {
		for b := 0; b < w.blocks(p); b++ {
			delete(have, [2]int{p, b})
		}
		delete(bad, p)
	}
	check()
	for i := 0; i < sym.Param("steps", 4); i++ {
		all := w.all()
		x := all[sym.Choose("block", len(all))]
		switch sym.Choose("op", 4) {
		case 0: // the right bytes
			fresh := !have[x]
			err := s.PutBlock(x[0], x[1]*bl, w.block(x[0], x[1]))
			if fresh {
				have[x] = true
			} else {
				sym.Assert(err != nil, "a block was stored twice")
			}
			if bad[x[0]] && fresh && w.complete(have, x[0]) {
				sym.Assert(err != nil, "a corrupt piece was accepted")
				check()
				s.ResetPiece(x[0])
				drop(x[0])
			}
		case 1: // other bytes
			d := w.block(x[0], x[1])
			d[0] ^= 0x55
			fresh := !have[x]
			err := s.PutBlock(x[0], x[1]*bl, d)
			if fresh {
				have[x] = true
				bad[x[0]] = true
				if w.complete(have, x[0]) {
					sym.Assert(err != nil, "a corrupt piece was accepted")
					check()
					s.ResetPiece(x[0])
					drop(x[0])
				}
			}
		case 2:
			done := w.complete(have, x[0])
			s.ResetPiece(x[0])
			if !done {
				drop(x[0])
			}
		case 3:
			s = w.open()
			for p := 0; p < w.pieces(); p++ {
				if !w.complete(have, p) || bad[p] {
					drop(p)
				}
			}
		}
		check()
	}
	sym.Reach("counted")
}

// S08: any names.
func S08() {
	w := newWorld(7, nil)
	n := sym.Choose("name", sym.Param("n", 3)+1)
	name := sym.String("name", n)
	for i := 0; i < n; i++ {
		// the interesting bytes, and one ordinary one
		c := name[i]
		sym.Assume(sym.Or(sym.Or(c == '/', c == '.'), sym.Or(c == 0, sym.Or(c == 'a', c == '\\'))))
	}
	other := sym.Param("part", 0) // which part is arbitrary: the name, or a path
	w.info.Name = "name"
	plain := n > 0
	for i := 0; i < n; i++ {
		plain = sym.And(plain, sym.And(name[i] != '/', name[i] != 0))
	}
	plain = sym.And(plain, sym.And(sym.Not(sym.EqStr(name, ".")), sym.Not(sym.EqStr(name, ".."))))
	switch other {
	case 0:
		w.info.Name = name
		if sym.Choose("multi", 2) == 1 {
			w.info.Length = 0
			w.info.Files = []*metainfo.File{{Length: 3, Path: []string{"f"}}}
		}
	case 1:
		w.info.Length = 0
		path := [][]string{{name}, {name, "f"}, {"d", name}, {"d", name, "f"}}[sym.Choose("path", 4)]
		w.info.Files = []*metainfo.File{{Length: 3, Path: path}}
		if sym.Choose("second", 2) == 1 {
			w.info.Files = []*metainfo.File{{Length: 2, Path: []string{"g"}}, {Length: 1, Path: path}}
		}
	case 2:
		w.info.Length = 0
		m := sym.Choose("more", 3)
		second := sym.String("second", m)
		for i := 0; i < m; i++ {
			c := second[i]
			sym.Assume(sym.Or(sym.Or(c == '/', c == '.'), c == 'a'))
			plain = sym.And(plain, c != '/')
		}
		plain = sym.And(plain, sym.And(m > 0, sym.And(sym.Not(sym.EqStr(second, ".")), sym.Not(sym.EqStr(second, "..")))))
		w.info.Files = []*metainfo.File{{Length: 3, Path: []string{name, second}}}
	case 3:
		w.info.Length = 0
		w.info.Files = []*metainfo.File{{Length: 3}}
		plain = false
	}
	base := os.Getenv("VERIF_SCRATCH")
	watch(base, w.target, w.work)
	s := storage.New(w.target, w.work, w.info)
	err := s.Load()
	if err == nil {
		err = s.PutBlock(0, 0, w.content)
		if err == nil {
			_, err = s.GetBlock(0, 0, 3)
		}
		s = storage.New(w.target, w.work, w.info)
		if e := s.Load(); err == nil {
			err = e
		}
	} else {
		// refused by opening; using it all the same must not help
		s.PutBlock(0, 0, w.content)
		s.GetBlock(0, 0, 3)
	}
	for _, o := range outside(base) {
		sym.Fail("touched " + o)
	}
	if plain {
		sym.Assert(err == nil, "a plain name is refused")
		sym.Reach("plain")
	} else {
		sym.Assert(err != nil, "an unsafe name was not refused")
		sym.Reach("refused")
	}
}

// S09: arbitrary entries in the work directory.
func S09() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, nil)
	dir := filepath.Join(w.work, storage.New(w.target, w.work, w.info).Torrent.WorkDir())
	mkdir(dir)
	truth := map[int]bool{}
	// a real piece
	if sym.Choose("real", 2) == 1 {
		sym.Assert(os.WriteFile(filepath.Join(dir, "1.piece"), w.piece(1), 0o600) == nil, "setup")
		truth[1] = true
	}
	// an entry of any name
	n := sym.Param("n", 7)
	name := sym.String("entry", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(name[i] != '/', name[i] != 0))
	}
	if at := sym.Param("at", n-6); at >= 0 {
		sym.Assume(sym.EqStr(name[at:at+6], ".piece"))
	}
	sym.Assume(sym.Not(sym.EqStr(name, "1.piece")))
	size := []int{0, 1, 2, 3, 4, 5}[sym.Choose("bytes", 6)]
	kind := sym.Choose("kind", 2)
	if kind == 1 {
		mkdir(filepath.Join(dir, name))
	} else {
		data := make([]byte, size)
		copy(data, w.content)
		if err := os.WriteFile(filepath.Join(dir, name), data, 0o600); err != nil {
			sym.Assume(false)
		}
	}
	hit := -1
	for p := 0; p < w.pieces(); p++ {
		is := sym.And(kind == 0 && size == w.plen(p), sym.EqStr(name, fmt.Sprintf("%d.piece", p)))
		if is {
			hit = p
		}
	}
	if hit >= 0 {
		truth[hit] = true
	}
	s := storage.New(w.target, w.work, w.info)
	err := s.Load()
	sym.Assert(err == nil, "opening failed")
	sum := 0
	for p := 0; p < w.pieces(); p++ {
		sym.Assert(s.Torrent.Bitfield.Has(p) == truth[p], "the pieces taken as complete are others")
		if truth[p] {
			sum += w.plen(p)
		}
	}
	sym.Assert(s.Downloaded() == int64(sum), "the counter differs from the pieces held")
	if truth[1] {
		w.checkPiece(s, 1)
	}
	if hit >= 0 {
		sym.Reach("piece")
	} else {
		sym.Reach("ignored")
	}
}

// S04Cut: reads after a file was cut, extended or removed by somebody else give the right bytes or an error.
func S04Cut() {
	geo := sym.Param("geo", 0)
	w := newWorld(geo, cutsOf(geo, sym.Param("files", 2)))
	s := w.open()
	whole := sym.Choose("whole", 2) == 1
	have := w.fill(s, 3+sym.Ite(whole, 1, 0))
	var names []string
	if !whole {
		for p := 0; p < w.pieces(); p++ {
			if w.complete(have, p) {
				names = append(names, filepath.Join(w.work, s.Torrent.WorkDir(), fmt.Sprintf("%d.piece", p)))
			}
		}
	} else if w.info.Files == nil {
		names = append(names, filepath.Join(w.target, "name"))
	} else {
		for _, f := range w.info.Files {
			names = append(names, filepath.Join(append([]string{w.target, "name"}, f.Path...)...))
		}
	}
	if len(names) == 0 {
		return
	}
	name := names[sym.Choose("file", len(names))]
	old, err := os.ReadFile(name)
	sym.Assert(err == nil, "a file is missing")
	n := sym.Choose("size", len(old)+3) - 1
	if n < 0 {
		sym.Assert(os.Remove(name) == nil, "a file cannot be removed")
	} else {
		b := append(append([]byte{}, old...), sym.Bytes("more", 2)...)[:n]
		sym.Assert(os.WriteFile(name, b, 0o644) == nil, "a file cannot be written")
	}
	for p := 0; p < w.pieces(); p++ {
		if !w.complete(have, p) {
			continue
		}
		for begin := 0; begin <= w.plen(p); begin++ {
			for length := 0; begin+length <= w.plen(p); length++ {
				got, err := s.GetBlock(p, begin, length)
				if err != nil {
					sym.Assert(n < len(old), "a range of a complete piece cannot be read")
					sym.Reach("refused")
					continue
				}
				o := p*w.pl + begin
				sym.Assert(len(got) == length, "a read returned another number of bytes")
				sym.Assert(sym.EqBytes(got, w.content[o:o+length]), "a read returned other bytes")
				sym.Reach("served")
			}
		}
	}
}

// S11: descriptions with arbitrary lengths. Exactly those that make sense are opened: the others could
// not be downloaded, or exhaust the memory.
func S11() {
	base := os.Getenv("VERIF_SCRATCH")
	target, work := base+"/target", base+"/work"
	mkdir(target)
	mkdir(work)
	info := &metainfo.Info{Name: "name", PieceLength: sym.Int("piece length")}
	info.Pieces = make([][20]byte, sym.Choose("pieces", sym.Param("pieces", 3)+1))
	var total int64
	ok := true
	if nf := sym.Choose("files", sym.Param("files", 2)+1); nf == 0 {
		total = sym.Int64("length")
		info.Length = total
		ok = total >= 0
	} else {
		info.Length = []int64{0, 7}[sym.Choose("both", 2)]
		for i := 0; i < nf; i++ {
			l := sym.Int64(fmt.Sprintf("length%d", i))
			info.Files = append(info.Files, &metainfo.File{Length: l, Path: []string{fmt.Sprintf("f%d", i)}})
			ok = sym.And(ok, l >= 0)
			total += l
			ok = sym.And(ok, total >= 0) // two non-negative numbers: the sum wraps to a negative one
		}
	}
	pl := int64(info.PieceLength)
	ok = sym.And(ok, sym.And(pl > 0, pl < 1<<32))
	// what is left for the last piece is more than nothing, and no more than a piece
	rest := total
	for i := 0; i < len(info.Pieces); i++ {
		ok = sym.And(ok, rest > 0)
		rest -= pl
	}
	ok = sym.And(ok, rest <= 0)
	var err error
	s := storage.New(target, work, info)
	switch sym.Choose("state", 3) {
	case 1: // a finished torrent
		mkdir(filepath.Join(target, "name"))
	case 2: // a download begun
		mkdir(filepath.Join(work, s.Torrent.WorkDir()))
	}
	err = s.Load()
	sym.Assert((err == nil) == ok, "a description is refused that makes sense, or the other way round")
	if err != nil {
		sym.Assert(s.Downloaded() == 0, "bytes of a refused torrent are counted")
		for p := range info.Pieces {
			sym.Assert(!s.Torrent.Bitfield.Has(p), "a piece of a refused torrent is reported")
		}
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	// the first block is awaited at its size, whatever that is
	if len(info.Pieces) == 0 {
		return
	}
	if e := s.PutBlock(0, 0, make([]byte, 3)); sym.And(len(info.Pieces) == 1, total == 3) {
		_, bad := e.(*storage.ChecksumError)
		sym.Assert(bad || errors.Is(e, storage.ErrBlockExists), "the block is not judged by its content")
		sym.Reach("stored")
	} else {
		sym.Assert(e != nil, "a block of another size is stored")
	}
}
