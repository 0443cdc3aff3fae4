package hsto

import (
	"os"
	"path/filepath"

	"github.com/browles/drip/storage"
	"verifharness/model"
	"verifharness/sym"
)

// S10: operations on files fail, anywhere in a download.
func S10() {
	geo := sym.Param("geo", 0)
	var cuts []int
	total := geometries[geo][1]
	if sym.Choose("files", 2) == 1 {
		cuts = []int{1, total / 2}
	}
	w := newWorld(geo, cuts)
	all := w.all()
	if sym.Choose("order", 2) == 1 {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	again := sym.Choose("again", 2) == 1           // after a failure, open the same storage again, or a new one
	reopen := sym.Choose("reopen", len(all)+1) - 1 // reopen after this block
	left := sym.Param("faults", 1)
	// try runs f while operations may fail, and reports whether one did.
	try := func(f func()) bool {
		model.Faults = left
		before := model.Failed
		f()
		left = model.Faults
		model.Faults = 0
		return model.Failed > before
	}
	done := map[int]bool{}
	var s *storage.Storage
	// look: everything reported complete can be read, nothing else, and nothing incomplete is exposed.
	look := func() {
		w.exposed()
		for p := 0; p < w.pieces(); p++ {
			has := s.Torrent.Bitfield.Has(p)
			sym.Assert(!done[p] || has, "a completed piece is lost by a failed operation")
			var got []byte
			var err error
			failed := try(func() { got, err = s.GetBlock(p, 0, w.plen(p)) })
			if failed && err != nil {
				sym.Reach("reading failed")
				got, err = s.GetBlock(p, 0, w.plen(p))
			}
			if !has {
				sym.Assert(err != nil, "a piece that is not complete can be read")
				continue
			}
			done[p] = true
			sym.Assert(err == nil, "a complete piece cannot be read after a failed operation")
			sym.Assert(len(got) == w.plen(p) && sym.EqBytes(got, w.piece(p)), "a complete piece reads back differently after a failed operation")
		}
	}
	have := map[[2]int]bool{}
	open := func() {
		s = storage.New(w.target, w.work, w.info)
		for {
			var err error
			failed := try(func() { err = s.Load() })
			if err == nil {
				break
			}
			sym.Assert(failed, "opening the storage failed")
			sym.Reach("opening failed")
			if !again {
				s = storage.New(w.target, w.work, w.info)
			}
		}
		have = map[[2]int]bool{}
		look()
	}
	finished := func() bool {
		_, err := os.Stat(filepath.Join(w.target, "name"))
		return err == nil && !sym.Blocks(func() { sym.Assert(s.Torrent.Wait() == nil, "the torrent failed") })
	}
	open()
	n := 0
	for more := true; more; {
		more = false
		for _, x := range all {
			p, b := x[0], x[1]
			if have[x] || s.Torrent.Bitfield.Has(p) {
				continue
			}
			var err error
			failed := try(func() { err = s.PutBlock(p, b*bl, w.block(p, b)) })
			sym.Assert(err == nil || failed, "a block was refused")
			have[x] = true
			if err == nil {
				whole, every := true, true
				for b := range w.blocks(p) {
					whole = whole && have[[2]int{p, b}]
				}
				for p := range w.pieces() {
					every = every && s.Torrent.Bitfield.Has(p)
				}
				sym.Assert(!whole || s.Torrent.Bitfield.Has(p), "storing the last block of a piece succeeded without the piece")
				sym.Assert(!every || finished(), "storing the last piece succeeded without finishing the torrent")
			}
			if err != nil && !s.Torrent.Bitfield.Has(p) {
				sym.Reach("storing failed")
				sym.Assert(!sym.Blocks(func() {
					sym.Assert(s.GetPiece(p).Wait() != nil, "a piece that could not be stored is reported complete")
				}), "those waiting for a piece are not told that it could not be stored")
				s.ResetPiece(p)
				for b := range w.blocks(p) {
					delete(have, [2]int{p, b})
				}
				more = true
			}
			look()
			if n == reopen {
				open()
				more = true
			}
			n++
		}
	}
	for p := 0; p < w.pieces(); p++ {
		sym.Assert(s.Torrent.Bitfield.Has(p), "a piece could not be stored again")
	}
	if !finished() {
		sym.Assert(model.Failed > 0, "the torrent is not finished")
		sym.Reach("assembling failed")
		open()
		sym.Assert(finished(), "the torrent cannot be finished after a failed operation")
	}
	sym.Assert(s.Downloaded() == int64(w.total), "the downloaded counter differs from the verified bytes")
	w.checkTarget()
	open()
	sym.Assert(finished(), "the torrent is not finished when reopened")
	sym.Reach("finished")
}
