package main

import (
	"os"

	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	noFast       bool
	concLimit    int
	maxDepth     int
	maxSteps     int64
	maxAlloc     int
	maxTimeSteps int
	maxG         int
	debug        bool
	preempt      int
	switches     int
	params       map[string]int
}

type timerRec struct {
	at   int64
	fire func()
	dead bool
	seq  int
}

type Worker struct {
	id       int
	p        *Program
	ex       *Explorer
	tb       *TB
	sol      *Solver
	pcset    map[*Term]bool
	digitsOf map[*Term]digitStr
	groups   map[*Term]*group
	cfg      *Config
	globals  []*Object
	nobj     int
	pathNo   uint32
	undo     []undoRec

	pc        []*Term
	prefix    []*dnode
	pos       int
	trail     *dnode
	model     []NV
	dom       map[*Term]domain
	entangled map[*Term]bool
	varMemo   map[*Term][]*Term
	inputs    []inputRec
	nameCnt   map[string]int
	steps     int64

	cur          *Frame
	gs           []*G
	curG         *G
	races        bool
	mapOrder     bool
	quietOrder   bool
	everMultiG   bool
	aborting     bool
	abortWith    string
	preempts     int
	preemptBound int
	switches     int
	switchBound  int
	timeSteps    int
	clockNs      int64
	clockSec     Val
	noPreempt    int
	schedLog     []string
	timers       []*timerRec

	inPath        bool
	initDone      bool
	replaying     bool
	userState     any
	stackOverride []string
	implCache     map[[2]types.Type]bool
	methCache     map[methKey]*Code
	typeKeys      map[types.Type]string
	main          *ssa.Function

	pin     map[string]InputVal
	pinVars []NV
	shas    []shaRec
	uniq    []uniqRec
	nuniq   int
	opaqueN int
	atomVC  map[atomKey][]int
	digits  map[*Term][]*Term // decimal digits of a non-negative 64-bit term
}

func newWorker(id int, p *Program, ex *Explorer, cfg *Config, z3 string, timeoutMs int) *Worker {
	w := &Worker{id: id, p: p, ex: ex, cfg: cfg, tb: NewTB(), dom: map[*Term]domain{}, entangled: map[*Term]bool{},
		varMemo: map[*Term][]*Term{}, nameCnt: map[string]int{}, implCache: map[[2]types.Type]bool{}, methCache: map[methKey]*Code{},
		typeKeys: map[types.Type]string{}, digits: map[*Term][]*Term{}}
	w.sol = NewSolver(w.tb, z3, timeoutMs)
	if f := os.Getenv("GOSYM_LOG"); f != "" && id == 0 {
		w.sol.log, _ = os.Create(f)
	}
	return w
}

// runInit executes the package initialisers and freezes the resulting heap.
func (w *Worker) runInit() (err error) {
	w.gs = []*G{{id: 0, name: "init", wake: make(chan struct{}), vc: []int{1}}}
	w.curG = w.gs[0]
	w.pathNo = 1
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				err = fmt.Errorf("init: unsupported: %s at %v", e.msg, head(w.stackTrace(), 8))
			case *targetPanic:
				err = fmt.Errorf("init: panic: %s at %v", e.msg, head(e.stack, 8))
			default:
				if w.cfg.debug {
					panic(r)
				}
				err = fmt.Errorf("init: %v at %v", r, head(w.stackTrace(), 8))
			}
		}
	}()
	save := w.cfg.maxSteps
	c := *w.cfg
	c.maxSteps = 1 << 40
	w.cfg = &c
	w.nameCnt = map[string]int{}
	w.preemptBound = 0
	w.call(nil, w.p.code(w.p.pkgs["verifharness/model"].Func("init")), nil, nil)
	w.call(nil, w.p.code(w.p.harness.Func("init")), nil, nil)
	for _, cp := range w.p.globalCopies {
		w.put(w.global(w.p.globalIndex(cp[0])), 0, w.global(w.p.globalIndex(cp[1])).get(0))
	}
	c.maxSteps = save
	w.undo = w.undo[:0]
	w.freeze()
	w.initDone = true
	w.nuniq = len(w.uniq)
	w.gs = nil
	return nil
}

// resetPath clears per-path engine state.
func (w *Worker) resetPath() {
	w.shas = w.shas[:0]
	w.uniq = w.uniq[:w.nuniq]
	w.timers = w.timers[:0]
	w.opaqueN = 0
	clear(w.digits)
	w.digitsOf = map[*Term]digitStr{}
	w.atomVC = nil
}
