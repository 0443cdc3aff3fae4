package hsto

import (
	"os"
	"path/filepath"

	"github.com/browles/drip/storage"
	"verifharness/model"
	"verifharness/sym"
)

// life runs f until it ends or the process dies at some change of the file system.
func life(f func()) (died bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(model.Died); !ok {
				panic(r)
			}
			died = true
		}
	}()
	model.Crashes = true
	f()
	return
}

// S05: death at every change of the file system, twice.
func S05() {
	geo := sym.Param("geo", 0)
	var cuts []int
	total := geometries[geo][1]
	switch sym.Choose("files", 3) {
	case 1:
		cuts = []int{}
	case 2:
		cuts = []int{1, total / 2}
	}
	w := newWorld(geo, cuts)
	all := w.all()
	back := sym.Choose("order", 2) == 1
	if back {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	bad := sym.Choose("corrupt", len(all)+1) // at first, this block comes corrupt
	done := map[int]bool{}                   // pieces reported complete
	run := func(first bool) {
		s := w.open()
		w.reopened(s, done)
		count := map[int]int{}
		for i, x := range all {
			if s.Torrent.Bitfield.Has(x[0]) {
				continue
			}
			d := w.block(x[0], x[1])
			if first && i == bad {
				d[0] ^= 1
			}
			if s.PutBlock(x[0], x[1]*bl, d) == nil {
				if count[x[0]]++; count[x[0]] == w.blocks(x[0]) {
					sym.Assert(s.Torrent.Bitfield.Has(x[0]), "a stored piece is not listed as held")
					done[x[0]] = true
				}
			}
		}
	}
	if life(func() { run(true) }) {
		sym.Reach("died")
	}
	model.Reboot()
	for i := 1; i < sym.Param("lives", 2); i++ {
		w.exposed()
		if life(func() { run(false) }) {
			sym.Reach("died again")
		}
		model.Reboot()
	}
	w.exposed()
	run(false)
	s := w.open()
	for p := 0; p < w.pieces(); p++ {
		sym.Assert(s.Torrent.Bitfield.Has(p), "the torrent cannot be finished after a crash")
		w.checkPiece(s, p)
	}
	w.checkTarget()
	sym.Reach("finished")
}

// exposed: what lies at the target path is the complete torrent.
func (w *world) exposed() {
	if _, err := os.Stat(filepath.Join(w.target, "name")); err == nil {
		w.checkTarget()
		sym.Reach("exposed")
	}
	es, err := os.ReadDir(w.target)
	sym.Assert(err == nil, "the target directory is gone")
	for _, e := range es {
		sym.Assert(e.Name() == "name", "partial files appear in the target directory")
	}
}

// reopened: everything reported complete is, and what is reported complete is right.
func (w *world) reopened(s *storage.Storage, done map[int]bool) {
	for p := 0; p < w.pieces(); p++ {
		if done[p] {
			sym.Assert(s.Torrent.Bitfield.Has(p), "a completed piece is lost by a crash")
		}
		if s.Torrent.Bitfield.Has(p) {
			w.checkPiece(s, p)
		}
	}
}

// S06: concurrent calls.
func S06() {
	sc := sym.Param("sc", 0)
	geo := []int{7, 5, 1, 7, 5, 0}[sc]
	var cuts []int
	if sym.Param("multi", 0) == 1 {
		cuts = []int{1}
	}
	w := newWorld(geo, cuts)
	s := w.open()
	sym.Races(true)
	n := 0
	done := make(chan bool, 8)
	run := func(f func()) {
		n++
		go func() {
			f()
			done <- true
		}()
	}
	put := func(p, b int) error { return s.PutBlock(p, b*bl, w.block(p, b)) }
	read := func(p int) {
		got, err := s.GetBlock(p, 0, w.plen(p))
		if err == nil {
			sym.Assert(len(got) == w.plen(p) && sym.EqBytes(got, w.piece(p)), "a concurrent read returned other bytes")
		}
	}
	switch sc {
	case 0: // the same block twice
		ok := make(chan int, 2)
		for i := 0; i < 2; i++ {
			run(func() {
				if put(0, 0) == nil {
					ok <- 1
				} else {
					ok <- 0
				}
			})
		}
		run(func() { read(0) })
		sym.Assert(<-ok+<-ok == 1, "a block was not accepted exactly once")
	case 1: // different pieces, readers and waiters
		for p := 0; p < 2; p++ {
			run(func() {
				sym.Assert(put(p, 0) == nil, "a block was refused")
				read(p)
			})
		}
	case 2: // two blocks of the same piece
		sym.Assert(put(1, 0) == nil, "a block was refused")
		for b := 0; b < 2; b++ {
			run(func() { sym.Assert(put(0, b) == nil, "a block was refused") })
		}
		run(func() { sym.Assert(s.GetPiece(0).Wait() == nil, "a piece failed"); w.checkPiece(s, 0) })
	case 3: // a corrupt block, reset and right one, against readers and waiters
		run(func() {
			d := w.block(0, 0)
			d[0] ^= 1
			sym.Assert(s.PutBlock(0, 0, d) != nil, "a corrupt piece was accepted")
			s.ResetPiece(0)
			sym.Assert(put(0, 0) == nil, "a block was refused")
		})
		run(func() {
			s.GetPiece(0).Wait()
			read(0)
		})
	case 4: // a reset while blocks arrive
		run(func() { put(0, 0) })
		run(func() { s.ResetPiece(0) })
		run(func() { s.GetPiece(0).Wait() })
		for ; n > 0; n-- {
			<-done
		}
		put(0, 0)
		put(1, 0)
	case 5: // readers of a complete piece while another completes the torrent
		sym.Assert(put(0, 0) == nil && put(1, 0) == nil, "a block was refused")
		run(func() { sym.Assert(put(2, 0) == nil, "a block was refused") })
		run(func() {
			for p := 0; p < 2; p++ {
				got, err := s.GetBlock(p, 1, 2)
				sym.Assert(err == nil, "a complete piece cannot be read")
				sym.Assert(sym.EqBytes(got, w.piece(p)[1:3]), "a concurrent read returned other bytes")
			}
		})
	}
	if sc == 0 || sc == 5 {
		run(func() { sym.Assert(s.Torrent.Wait() == nil, "the torrent failed") })
	}
	for ; n > 0; n-- {
		<-done
	}
	for p := 0; p < w.pieces(); p++ {
		w.checkPiece(s, p)
		sym.Assert(s.GetPiece(p).Wait() == nil, "a complete piece failed")
	}
	sym.Assert(s.Downloaded() == int64(w.total), "the downloaded counter differs from the verified bytes")
	w.checkTarget()
	w.checkClean(s)
	sym.Reach("finished")
}
