package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	kind byte  // 'b' branch, 'f' forced branch, 'c' choice, 'v' concretised value
	v    int64 // branch: 0/1; choice: index; value
	n    int
}

type item struct {
	prefix []decision
	model  map[string]mval
	hasM   bool
}

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endSteps
	endUnsupported
	endViolation
	endQuiescent
	endExit
)

type pathEnd struct {
	kind endKind
	msg  string
}

type inputVar struct {
	name string
	kind string // int,bool,byte,f64,f32,choice
	t    *Term
	val  any // concrete value (choices)
	k    kind
}

type Violation struct {
	Msg     string         `json:"msg"`
	Where   string         `json:"where"`
	Inputs  []InputVal     `json:"inputs"`
	Trace   []string       `json:"schedule,omitempty"`
	Decis   []decision     `json:"-"`
	Kind    string         `json:"kind"`
	Observe []string       `json:"observe,omitempty"`
	Repro   string         `json:"reproduced,omitempty"`
}

type InputVal struct {
	Name string `json:"name"`
	V    string `json:"v"`
}

// HCfg is the configuration of one harness.
type HCfg struct {
	Name     string
	intMode  bool
	realMode bool
	eps      bool
	merge    int
	mapFork  int
	iteMax   int
	preempt  int
	timers   int
	incMS    int
	oneMS    int
	maxSteps int64
	budget   time.Duration
	params   map[string]int64
	conc     bool
	noRace   bool
	term     bool // exceeding the step limit is a violation candidate
	maxViol  int
	nativeTries int
	nativeMS int
	clock    string
	noNative bool
	chooseSched bool
}

type Result struct {
	Paths, Infeasible, Incomplete int64
	Decisions                     int64
	Obligations, Discharged       int64
	Inconclusive                  int64
	Unexplored                    int64
	Reach                         map[string]int64
	Notes                         map[string]int64
	Violations                    []*Violation
	Samples                       []*PathSample
	Racy                          []string
	Steps                         int64
	TimedOut                      bool
	Merges                        int64
	MaxDepth                      int
	Schedules                     int64
}

type PathSample struct {
	Inputs  []InputVal
	Observe []string
	Exact   bool
}

type Explorer struct {
	eng     *Engine
	cfg     *HCfg
	fn      *ssa.Function
	mu      sync.Mutex
	cond    *sync.Cond
	queues  [][]item
	idle    int
	nwork   int
	stop    atomic.Bool
	res     Result
	seen    map[string]bool
	deadline time.Time
	racy    map[ssa.Instruction]bool
	newRacy map[ssa.Instruction]bool
	rng     uint64
}

type Worker struct {
	id     int
	eng    *Engine
	ex     *Explorer
	tt     *TT
	solver *Solver
	cfg    *HCfg

	// path state
	prefix  []decision
	pos     int
	trail   []decision
	pc      []*Term
	numerals map[*Term]numeral // the texts of numbers on the current path by their first digit
	pcSet   map[*Term]bool
	implied map[*Term]bool // decided by the path condition, without being part of it
	model   map[string]mval
	modelOK bool
	modelStale bool
	vars    []*Term
	nocc    map[string]int
	inputs  []*inputVar
	globals map[*ssa.Global]*value
	initing map[*ssa.Package]int
	observe []value
	obsTxt  []string
	noFork  int
	regionDepth int
	mlog    []logEnt
	regFail map[regKey]int
	merges  int64
	approx  bool // path took an over-approximated step
	fresh   int

	sharedGlobals map[*ssa.Global]*value
	sharedInit    map[*ssa.Package]int

	steps     int64
	stepLimit int64
	cur       *frame
	localQ    int

	sched
	side map[any]any // intrinsic side state per path
	notes map[string]int64
	reach map[string]int64
	nobl, ndis, ninc int64
	viols []*Violation
}

func NewExplorer(e *Engine, cfg *HCfg, fn *ssa.Function, nwork int) *Explorer {
	ex := &Explorer{eng: e, cfg: cfg, fn: fn, nwork: nwork, seen: map[string]bool{}, racy: map[ssa.Instruction]bool{}, newRacy: map[ssa.Instruction]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.rng = 88172645463325252
	return ex
}

func (ex *Explorer) note(s string) {
	if ex.res.Notes == nil {
		ex.res.Notes = map[string]int64{}
	}
	ex.res.Notes[s]++
}

func (ex *Explorer) Run() *Result {
	ex.deadline = time.Now().Add(ex.cfg.budget)
	for round := 0; ; round++ {
		ex.res = Result{Reach: map[string]int64{}, Notes: map[string]int64{}}
		ex.queues = make([][]item, ex.nwork)
		ex.queues[0] = []item{{model: map[string]mval{}, hasM: true}}
		ex.idle = 0
		ex.stop.Store(false)
		ex.newRacy = map[ssa.Instruction]bool{}
		var wg sync.WaitGroup
		for i := 0; i < ex.nwork; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				w := ex.newWorker(i)
				w.loop()
				w.solver.stop()
			}(i)
		}
		wg.Wait()
		added := 0
		for in := range ex.newRacy {
			if !ex.racy[in] {
				ex.racy[in] = true
				added++
			}
		}
		if added == 0 || len(ex.res.Violations) > 0 || time.Now().After(ex.deadline) || round > 6 {
			break
		}
		debugf("round %d: %d new racy instructions, %d paths\n", round, added, ex.res.Paths)
	}
	for in := range ex.racy {
		p := ex.eng.prog.Fset.Position(in.Pos())
		ex.res.Racy = append(ex.res.Racy, fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line))
	}
	sort.Strings(ex.res.Racy)
	for _, q := range ex.queues {
		ex.res.Unexplored += int64(len(q))
	}
	return &ex.res
}

func (ex *Explorer) newWorker(i int) *Worker {
	w := &Worker{id: i, eng: ex.eng, ex: ex, cfg: ex.cfg}
	w.tt = NewTT()
	w.solver = NewSolver(w.tt, ex.cfg.incMS, ex.cfg.oneMS)
	w.sharedGlobals = map[*ssa.Global]*value{}
	w.sharedInit = map[*ssa.Package]int{}
	return w
}

// next pops a work item: own newest first, otherwise steals the oldest of another worker.
func (ex *Explorer) next(id int) (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	waited := false
	for {
		if ex.stop.Load() {
			return item{}, false
		}
		if q := ex.queues[id]; len(q) > 0 {
			it := q[len(q)-1]
			q[len(q)-1] = item{}
			ex.queues[id] = q[:len(q)-1]
			if waited {
				ex.idle--
			}
			return it, true
		}
		best := -1
		for j, q := range ex.queues {
			if len(q) > 0 && (best < 0 || len(q[0].prefix) < len(ex.queues[best][0].prefix)) {
				best = j
			}
		}
		if best >= 0 {
			it := ex.queues[best][0]
			ex.queues[best] = ex.queues[best][1:]
			if waited {
				ex.idle--
			}
			return it, true
		}
		if !waited {
			waited = true
			ex.idle++
		}
		if ex.idle == ex.nwork {
			ex.stop.Store(true)
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) push(id int, it item) {
	ex.mu.Lock()
	ex.queues[id] = append(ex.queues[id], it)
	if ex.idle > 0 {
		ex.cond.Signal()
	}
	ex.mu.Unlock()
}

func (w *Worker) loop() {
	for {
		it, ok := w.ex.next(w.id)
		if !ok {
			return
		}
		if time.Now().After(w.ex.deadline) {
			w.ex.mu.Lock()
			w.ex.res.TimedOut = true
			w.ex.queues[w.id] = append(w.ex.queues[w.id], it)
			w.ex.mu.Unlock()
			w.ex.stop.Store(true)
			w.ex.cond.Broadcast()
			return
		}
		w.runPath(it)
	}
}

func (w *Worker) runPath(it item) {
	if len(w.tt.m) > 2000000 { // bound memory
		w.solver.stop()
		w.tt = NewTT()
		w.solver = NewSolver(w.tt, w.cfg.incMS, w.cfg.oneMS)
		w.sharedGlobals = map[*ssa.Global]*value{}
		w.sharedInit = map[*ssa.Package]int{}
	}
	w.prefix, w.pos = it.prefix, 0
	w.trail = append(make([]decision, 0, len(it.prefix)+32), it.prefix...)[:0]
	w.pc = w.pc[:0]
	w.numerals = nil
	w.pcSet = map[*Term]bool{}
	w.implied = map[*Term]bool{}
	w.model, w.modelOK = it.model, it.hasM
	w.modelStale = false
	if w.model == nil {
		w.model = map[string]mval{}
	}
	w.tt.setModel(w.model)
	w.vars = w.vars[:0]
	w.nocc = map[string]int{}
	w.inputs = nil
	w.globals = map[*ssa.Global]*value{}
	w.initing = map[*ssa.Package]int{}
	w.observe, w.obsTxt = nil, nil
	w.noFork, w.merges, w.fresh = 0, 0, 0
	w.regionDepth, w.mlog, w.regFail = 0, nil, map[regKey]int{}
	w.approx = false
	w.steps = 0
	w.stepLimit = w.cfg.maxSteps
	w.cur = nil
	w.side = map[any]any{}
	w.notes = map[string]int64{}
	w.reach = map[string]int64{}
	w.nobl, w.ndis, w.ninc = 0, 0, 0
	w.viols = nil

	end := w.runSched()
	if end.kind == endInfeasible && w.pos < len(w.prefix) {
		w.note("prefix became infeasible")
	}
	w.finish(end)
}

func (w *Worker) finish(end pathEnd) {
	var sample *PathSample
	var more []*PathSample
	ex := w.ex
	if end.kind == endOK || end.kind == endQuiescent {
		if ex.wantSample(w) {
			sample = w.makeSample()
			if sample != nil && !w.cfg.conc && !w.cfg.noNative {
				more = w.diversify()
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := &ex.res
	switch end.kind {
	case endInfeasible:
		r.Infeasible++
	case endOK, endQuiescent, endViolation, endExit:
		r.Paths++
	default:
		r.Incomplete++
		r.Notes[end.msg]++
	}
	if w.nsched > 0 {
		r.Schedules++
	}
	r.Decisions += int64(len(w.trail))
	if len(w.trail) > r.MaxDepth {
		r.MaxDepth = len(w.trail)
	}
	r.Steps += w.steps
	r.Merges += w.merges
	r.Obligations += w.nobl
	r.Discharged += w.ndis
	r.Inconclusive += w.ninc
	for k, n := range w.reach {
		r.Reach[k] += n
	}
	for k, n := range w.notes {
		r.Notes[k] += n
	}
	if sample != nil {
		r.Samples = append(r.Samples, sample)
		r.Samples = append(r.Samples, more...)
	}
	for _, v := range w.viols {
		if !ex.seen[v.Msg] {
			ex.seen[v.Msg] = true
			r.Violations = append(r.Violations, v)
			if len(r.Violations) >= ex.cfg.maxViol {
				ex.stop.Store(true)
				ex.cond.Broadcast()
			}
		}
	}
	for in := range w.foundRaces {
		ex.newRacy[in] = true
	}
}

// wantSample picks a deterministic, sparse subset of the paths for native validation.
func (ex *Explorer) wantSample(w *Worker) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := ex.res.Paths
	if len(ex.res.Samples) >= 40 {
		return false
	}
	return n < 8 || n < 100 && n%10 == 0 || n%97 == 0
}

func (w *Worker) makeSample() *PathSample {
	if w.approx {
		return nil
	}
	if !w.ensureModel() {
		if w.solver.approxM == nil {
			return nil
		}
		save := w.model
		w.model = w.solver.approxM
		s := &PathSample{Inputs: w.inputVals()}
		w.model = save
		w.tt.setModel(save)
		return s
	}
	s := &PathSample{Inputs: w.inputVals(), Exact: !w.modelStale && !w.tt.inexact}
	for i, o := range w.observe {
		s.Observe = append(s.Observe, w.obsTxt[i]+"="+w.render(o))
	}
	return s
}

// diversify produces further models of the same path by pinning inputs to random values.
func (w *Worker) diversify() (r []*PathSample) {
	w.ex.mu.Lock()
	n := w.ex.res.Paths
	w.ex.mu.Unlock()
	want := 1
	if n < 3 {
		want = 6
	}
	if n > 12 {
		return nil
	}
	save := w.model
	rng := rand.New(rand.NewSource(int64(seed())*1000 + n))
	for k := 0; k < want; k++ {
		pc := append([]*Term(nil), w.pc...)
		t0 := time.Now()
		var ins []*inputVar
		for _, in := range w.inputs {
			if in.t != nil {
				ins = append(ins, in)
			}
		}
		rng.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
		if len(ins) > 24 {
			ins = ins[:24]
		}
		ok := false
		for _, in := range ins {
			if time.Since(t0) > 2*time.Second {
				break
			}
			var c *Term
			switch {
			case in.t.sort == SBool:
				c = in.t
				if rng.Intn(2) == 0 {
					c = w.tt.Not(c)
				}
			case in.t.sort.isBV():
				v := rng.Uint64()
				if rng.Intn(2) == 0 {
					v = uint64(rng.Intn(16))
				}
				c = w.tt.Eq(in.t, w.tt.BVc(v, in.t.sort.width()))
			case in.t.sort == SInt:
				c = w.tt.Eq(in.t, w.tt.Intc(int64(rng.Intn(64))))
			default:
				continue
			}
			if res, m := w.solver.check(pc, c, w.vars); res == rSat && m != nil {
				pc = append(pc, c)
				w.setModel(m)
				ok = true
			}
		}
		if ok {
			if s := w.makeSample(); s != nil {
				r = append(r, s)
			}
		}
	}
	w.setModel(save)
	return r
}

func (w *Worker) note(s string) { w.notes[s]++ }

// ensureModel makes sure w.model satisfies the path condition.
func (w *Worker) ensureModel() bool {
	if w.modelOK {
		w.tt.setModel(w.model)
		ok := true
		for _, t := range w.pc {
			if !w.tt.evalBool(t) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	r, m := w.solver.check(w.pc, nil, w.vars)
	if r == rSat && m != nil {
		w.setModel(m)
		return true
	}
	return false
}

func (w *Worker) setModel(m map[string]mval) {
	if m == nil {
		w.modelOK = false
		return
	}
	w.model = m
	w.modelOK = true
	w.modelStale = false
	w.tt.setModel(m)
}

func (w *Worker) addPC(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(pathEnd{kind: endInfeasible})
		}
		return
	}
	if t.op == OAnd {
		w.addPC(t.args[0])
		w.addPC(t.args[1])
		return
	}
	if w.pcSet[t] {
		return
	}
	w.pcSet[t] = true
	w.pc = append(w.pc, t)
}

func (w *Worker) cond(v value) bool {
	switch c := v.(type) {
	case bool:
		return c
	case *Term:
		return w.branch(c)
	}
	panic(unsupported(fmt.Sprintf("condition %T", v)))
}

// useModel reports whether the current model may be used to evaluate terms.
func (w *Worker) useModel() bool {
	if w.modelStale { // fresh variables with definitional constraints were added
		if w.ensureModelQuick() {
			return true
		}
		return false
	}
	return w.modelOK
}

func (w *Worker) ensureModelQuick() bool {
	r, m := w.solver.check(w.pc, nil, w.vars)
	if r == rSat && m != nil {
		w.setModel(m)
		return true
	}
	w.modelOK = false
	w.modelStale = false
	return false
}

// imply records that the path condition decides c, so that it need not be asked again.
func (w *Worker) imply(c, nc *Term, b bool) bool {
	if w.regionDepth == 0 { // the path condition of a region is taken back
		if b {
			w.implied[c] = true
		} else {
			w.implied[nc] = true
		}
	}
	return b
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	nc := w.tt.Not(c)
	if w.pcSet[c] {
		return true
	}
	if w.pcSet[nc] {
		return false
	}
	if w.implied[c] {
		return true
	}
	if w.implied[nc] {
		return false
	}
	if w.noFork > 0 {
		if w.regionDepth > 0 {
			if w.mustHold(c) {
				return true
			}
			if w.mustHold(nc) {
				return false
			}
		}
		panic(mergeFail{})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		switch d.kind {
		case 'b':
			if d.v == 1 {
				w.addPC(c)
				return true
			}
			w.addPC(nc)
			return false
		case 'f':
			return w.imply(c, nc, d.v == 1)
		}
		panic(hostPanic{fmt.Sprintf("replay mismatch: %c at %d in %s", d.kind, w.pos-1, w.stackTrace(w.cur)), ""})
	}
	if w.ex.stop.Load() {
		panic(pathEnd{kind: endSteps, msg: "stopped"})
	}
	if time.Now().After(w.ex.deadline) {
		panic(pathEnd{kind: endSteps, msg: "time budget exhausted"})
	}
	if w.useModel() {
		b := w.tt.evalBool(c)
		taken, other := c, nc
		if !b {
			taken, other = nc, c
		}
		r, m := w.solver.check(w.pc, other, w.vars)
		if r == rUnsat {
			w.trail = append(w.trail, decision{kind: 'f', v: int64(b2u(b))})
			return w.imply(c, nc, b)
		}
		if r == rUnknown {
			w.note("solver gave no verdict on a branch: both sides explored")
		}
		w.profFork()
		alt := append(append(make([]decision, 0, len(w.trail)+1), w.trail...), decision{kind: 'b', v: int64(b2u(!b))})
		w.ex.push(w.id, item{prefix: alt, model: m, hasM: m != nil})
		w.trail = append(w.trail, decision{kind: 'b', v: int64(b2u(b))})
		w.addPC(taken)
		return b
	}
	r1, m1 := w.solver.check(w.pc, c, w.vars)
	if r1 == rUnsat {
		w.trail = append(w.trail, decision{kind: 'f', v: 0})
		return w.imply(c, nc, false)
	}
	r2, m2 := w.solver.check(w.pc, nc, w.vars)
	if r2 == rUnsat {
		w.trail = append(w.trail, decision{kind: 'f', v: 1})
		if m1 != nil {
			w.setModel(m1)
		}
		return w.imply(c, nc, true)
	}
	w.profFork()
	alt := append(append(make([]decision, 0, len(w.trail)+1), w.trail...), decision{kind: 'b', v: 0})
	w.ex.push(w.id, item{prefix: alt, model: m2, hasM: m2 != nil})
	w.trail = append(w.trail, decision{kind: 'b', v: 1})
	w.addPC(c)
	w.setModel(m1)
	return true
}

// mustHold asks whether c is implied by the path condition (not logged; deterministic).
func (w *Worker) mustHold(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if w.pcSet[c] {
		return true
	}
	// must be deterministic under replay: use the solver verdict through a logged decision
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		if d.kind != 'm' {
			panic(hostPanic{fmt.Sprintf("replay mismatch m/%c", d.kind), ""})
		}
		return d.v == 1
	}
	r := rUnknown
	if w.useModel() && !w.tt.evalBool(c) {
		r = rSat
	} else {
		r, _ = w.solver.check(w.pc, w.tt.Not(c), nil)
	}
	v := int64(0)
	if r == rUnsat {
		v = 1
	}
	w.trail = append(w.trail, decision{kind: 'm', v: v})
	return v == 1
}

// choose forks n ways without involving the solver.
func (w *Worker) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if w.noFork > 0 {
		panic(mergeFail{})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.trail = append(w.trail, d)
		if d.kind != 'c' || d.n != n {
			panic(hostPanic{fmt.Sprintf("replay mismatch: choice %s: %c %d/%d in %s", label, d.kind, d.n, n, w.stackTrace(w.cur)), ""})
		}
		return int(d.v)
	}
	if w.ex.stop.Load() {
		panic(pathEnd{kind: endSteps, msg: "stopped"})
	}
	if time.Now().After(w.ex.deadline) {
		panic(pathEnd{kind: endSteps, msg: "time budget exhausted"})
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append(make([]decision, 0, len(w.trail)+1), w.trail...), decision{kind: 'c', v: int64(i), n: n})
		w.ex.push(w.id, item{prefix: alt, model: w.model, hasM: w.modelOK})
	}
	w.trail = append(w.trail, decision{kind: 'c', v: 0, n: n})
	return 0
}

var forkProfile map[string]int
var forkMu sync.Mutex

func init() {
	if os.Getenv("SYMGO_FORKS") != "" {
		forkProfile = map[string]int{}
	}
}

// profFork counts the places where paths are forked (SYMGO_FORKS=1).
func (w *Worker) profFork() {
	if forkProfile == nil {
		return
	}
	s := w.stackTrace(w.cur)
	forkMu.Lock()
	forkProfile[s]++
	forkMu.Unlock()
}

func printForks() {
	type e struct {
		s string
		n int
	}
	var l []e
	for s, n := range forkProfile {
		l = append(l, e{s, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 20; i++ {
		fmt.Fprintf(os.Stderr, "FORK %d %s\n", l[i].n, l[i].s)
	}
}

// concretize enumerates the feasible values of t by forking.
func (w *Worker) concretize(t *Term, k kind) value {
	if t.isConst() {
		return w.normInt(t, k)
	}
	if w.noFork > 0 {
		panic(mergeFail{})
	}
	for n := 0; ; n++ {
		var v int64
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			w.pos++
			w.trail = append(w.trail, d)
			if d.kind != 'v' {
				panic(hostPanic{fmt.Sprintf("replay mismatch: value vs %c", d.kind), ""})
			}
			v = d.v
		} else {
			if !w.useModel() && !w.ensureModel() {
				panic(unsupported("no model to concretise a value"))
			}
			w.tt.eval(t)
			v = w.termInt(t, k)
			w.trail = append(w.trail, decision{kind: 'v', v: v})
		}
		eq := w.tt.Eq(t, w.constLike(v, t.sort))
		if w.branch(eq) {
			return v
		}
		if n > 4096 {
			panic(unsupported("concretisation of more than 4096 values"))
		}
	}
}

func (w *Worker) termInt(t *Term, k kind) int64 {
	if t.sort == SInt {
		return t.er.Num().Int64()
	}
	if k.signed {
		return sext(t.eu, t.sort.width())
	}
	return int64(t.eu)
}

func (w *Worker) assume(v value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{kind: endInfeasible})
		}
	case *Term:
		if w.pcSet[c] {
			return
		}
		if w.pcSet[w.tt.Not(c)] {
			panic(pathEnd{kind: endInfeasible})
		}
		if w.pos < len(w.prefix) {
			w.addPC(c)
			return
		}
		if w.useModel() && w.tt.evalBool(c) {
			w.addPC(c)
			return
		}
		r, m := w.solver.check(w.pc, c, w.vars)
		if r == rUnsat {
			panic(pathEnd{kind: endInfeasible})
		}
		w.addPC(c)
		w.setModel(m)
	}
}

func (w *Worker) assert(fr *frame, v value, msg string) {
	replay := w.pos < len(w.prefix)
	switch c := v.(type) {
	case bool:
		if replay && c {
			return
		}
		w.nobl++
		if !c {
			w.violation(fr, "assert", msg)
			panic(pathEnd{kind: endViolation})
		}
		w.ndis++
	case *Term:
		if w.pcSet[c] {
			return
		}
		if replay {
			w.addPC(c)
			return
		}
		w.nobl++
		nc := w.tt.Not(c)
		if w.useModel() && !w.tt.evalBool(c) && !w.tt.inexact {
			w.violation(fr, "assert", msg)
		} else {
			r, m := w.solver.check(w.pc, nc, w.vars)
			switch r {
			case rUnsat:
				w.ndis++
			case rSat:
				if m == nil && w.solver.approxM == nil {
					w.ninc++
					w.note("counterexample without a rational model: " + msg)
				} else if m == nil { // irrational values: the replay decides with the nearest numbers
					save, sok, st := w.model, w.modelOK, w.modelStale
					w.model, w.modelOK, w.modelStale = w.solver.approxM, true, false
					w.violation(fr, "assert", msg)
					w.model, w.modelOK, w.modelStale = save, sok, st
					w.tt.setModel(save)
				} else {
					save, sok := w.model, w.modelOK
					w.setModel(m)
					w.violation(fr, "assert", msg)
					w.model, w.modelOK = save, sok
					w.tt.setModel(save)
				}
			default:
				w.ninc++
				w.note("solver gave no verdict: " + msg)
			}
		}
		// continue under the asserted condition
		w.pcSetAssume(c)
	}
}

func (w *Worker) pcSetAssume(c *Term) {
	if w.modelOK && !w.modelStale && w.tt.evalBool(c) {
		w.addPC(c)
		return
	}
	r, m := w.solver.check(w.pc, c, w.vars)
	if r == rUnsat {
		panic(pathEnd{kind: endViolation})
	}
	w.addPC(c)
	w.setModel(m)
}

func (w *Worker) violation(fr *frame, kind, msg string) {
	if !w.ensureModelFor() {
		w.ninc++
		w.note("violation without model: " + msg)
		return
	}
	v := &Violation{Msg: msg, Kind: kind, Where: w.stackTrace(fr), Inputs: w.inputVals()}
	v.Trace = append(v.Trace, w.schedLog...)
	for i, o := range w.observe {
		v.Observe = append(v.Observe, w.obsTxt[i]+"="+w.render(o))
	}
	v.Decis = append([]decision(nil), w.trail...)
	w.viols = append(w.viols, v)
}

// ensureModelFor: the current model is valid for the pc (it may deliberately violate later asserts).
func (w *Worker) ensureModelFor() bool {
	if w.modelOK && !w.modelStale {
		return true
	}
	return w.ensureModel()
}

// ---- inputs

func (w *Worker) freshVar(name string, s Sort) *Term {
	if w.regionDepth > 0 {
		panic(mergeFail{})
	}
	w.fresh++
	t := w.tt.Var(fmt.Sprintf("%s!%d", name, w.fresh), s)
	w.vars = append(w.vars, t)
	return t
}

func (w *Worker) inputName(name string) string {
	n := w.nocc[name]
	w.nocc[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (w *Worker) newInput(name, kindName string, s Sort, k kind) *Term {
	return w.newInputB(name, kindName, s, k, nil, nil)
}

// newInputB creates a bounded input. Terms are shared between paths, so the bounds are part of
// the variable's identity.
func (w *Worker) newInputB(name, kindName string, s Sort, k kind, lo, hi *big.Rat) *Term {
	nm := w.inputName(name)
	vn := nm
	if lo != nil || hi != nil {
		vn = fmt.Sprintf("%s[%v,%v]", nm, lo, hi)
	}
	t := w.tt.Var(vn, s)
	if lo != nil || hi != nil {
		t.lo, t.hi = lo, hi
	}
	w.vars = append(w.vars, t)
	w.inputs = append(w.inputs, &inputVar{name: nm, kind: kindName, t: t, k: k})
	return t
}

// defaultVal extends the current model for a variable it does not mention yet.
func (w *Worker) defaultVal(t *Term, v mval) {
	if !w.modelOK {
		return
	}
	if _, ok := w.model[t.name]; ok {
		return
	}
	m := make(map[string]mval, len(w.model)+1)
	for k, x := range w.model {
		m[k] = x
	}
	m[t.name] = v
	w.model = m
	w.tt.setModel(m)
}

func (w *Worker) inputVals() []InputVal {
	var r []InputVal
	w.tt.setModel(w.model)
	for _, in := range w.inputs {
		if in.t == nil {
			r = append(r, InputVal{in.name, fmt.Sprint(in.val)})
			continue
		}
		w.tt.eval(in.t)
		r = append(r, InputVal{in.name, w.inputText(in)})
	}
	return r
}

func (w *Worker) inputText(in *inputVar) string {
	t := in.t
	switch {
	case t.sort == SBool:
		return fmt.Sprint(t.eu)
	case t.sort == SReal:
		f, _ := t.er.Float64()
		return fmt.Sprintf("f%x", f64bits(f))
	case t.sort == SInt:
		return t.er.Num().String()
	case in.kind == "f64":
		return fmt.Sprintf("f%x", t.eu)
	case in.kind == "f32":
		return fmt.Sprintf("f%x", f64bits(float64(f32frombits(uint32(t.eu)))))
	}
	if in.k.signed {
		return fmt.Sprint(sext(t.eu, t.sort.width()))
	}
	return fmt.Sprint(t.eu)
}

// render evaluates a value under the current model to text.
func (w *Worker) render(v value) string {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "nil"
		}
		return w.renderT(x.v, kindOf(x.t))
	}
	return w.renderT(v, kind{})
}

func (w *Worker) renderT(v value, k kind) string {
	switch x := v.(type) {
	case int64:
		if k.c == kInt && !k.signed {
			return fmt.Sprint(uint64(x))
		}
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprintf("%v", x)
	case float32:
		return fmt.Sprintf("%v", float64(x))
	case string:
		return fmt.Sprintf("%q", x)
	case *symStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch y := c.(type) {
			case int64:
				b[i] = byte(y)
			case *Term:
				w.tt.eval(y)
				b[i] = byte(w.termInt(y, kind{kInt, 8, false}))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		w.tt.eval(x)
		switch {
		case x.sort == SBool:
			return fmt.Sprint(x.eu == 1)
		case x.sort == SReal:
			f, _ := x.er.Float64()
			return fmt.Sprintf("%v", f)
		case x.sort == SF64:
			return fmt.Sprintf("%v", f64frombits(x.eu))
		case x.sort == SF32:
			return fmt.Sprintf("%v", float64(f32frombits(uint32(x.eu))))
		case x.sort == SInt:
			return x.er.Num().String()
		}
		if k.c == kInt && !k.signed {
			return fmt.Sprint(x.eu)
		}
		return fmt.Sprint(sext(x.eu, x.sort.width()))
	}
	return fmt.Sprintf("<%T>", v)
}

// ---- globals

func (w *Worker) sharedPkg(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if strings.HasPrefix(path, "github.com/ftl/") {
		return false
	}
	if !strings.Contains(path, ".") {
		return true // standard library
	}
	return true
}

func (w *Worker) globalAddr(g *ssa.Global) *value {
	p := g.Pkg
	shared := w.sharedPkg(p)
	m, init := w.globals, w.initing
	if shared {
		m, init = w.sharedGlobals, w.sharedInit
	}
	if init[p] == 0 {
		init[p] = 1
		w.initPkg(p, shared)
		init[p] = 2
	}
	a := m[g]
	if a == nil {
		a = new(value)
		et := g.Type().Underlying().(*types.Pointer).Elem()
		*a = zero(et)
		if skipInit[p.Pkg.Path()] && types.Identical(et, types.Universe.Lookup("error").Type()) {
			*a = w.mkError(p.Pkg.Path() + "." + g.Name())
		}
		m[g] = a
	}
	return a
}

// initPkg runs the variable initialisers of a package on demand.
func (w *Worker) initPkg(p *ssa.Package, shared bool) {
	f := p.Func("init")
	if f == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	if f.Blocks == nil {
		p.Build()
	}
	saveSteps, saveLim, saveRace, saveCur := w.steps, w.stepLimit, w.raceOn, w.cur
	saveNF, saveRD, saveML := w.noFork, w.regionDepth, w.mlog
	w.noFork, w.regionDepth, w.mlog = 0, 0, nil
	w.stepLimit = w.steps + 50000000
	w.raceOn = false
	w.inInit++
	defer func() {
		w.inInit--
		w.steps, w.stepLimit, w.raceOn, w.cur = saveSteps, saveLim, saveRace, saveCur
		w.noFork, w.regionDepth, w.mlog = saveNF, saveRD, saveML
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				w.ex.mu.Lock()
				w.ex.note("package init of " + p.Pkg.Path() + " stopped: " + x.msg)
				w.ex.mu.Unlock()
				return
			case targetPanic:
				w.ex.mu.Lock()
				w.ex.note("package init of " + p.Pkg.Path() + " panicked: " + w.panicText(x.v))
				w.ex.mu.Unlock()
				return
			}
			panic(r)
		}
	}()
	w.execInit(f)
}

// execInit interprets the synthetic init function, tolerating unsupported initialisers.
func (w *Worker) execInit(f *ssa.Function) {
	code := w.eng.code(f)
	fr := &frame{w: w, code: code, g: w.curG()}
	fr.regs = make([]value, code.nslots)
	for {
		b := &code.blocks[fr.block]
		for i, ins := range b.ins {
			fr.pc = i
			if c, ok := b.instrs[i].(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && sc.Name() == "init" && sc.Pkg != f.Pkg {
					continue // dependencies are initialised lazily
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						msg := ""
						switch x := r.(type) {
						case unsupportedErr:
							msg = x.msg
						case targetPanic:
							msg = "panic " + w.panicText(x.v)
						default:
							panic(r)
						}
						if v, ok := b.instrs[i].(ssa.Value); ok {
							func() {
								defer func() { recover() }()
								fr.regs[w.slotOf(code, v)] = zero(v.Type())
							}()
						}
						if os.Getenv("SYMGO_DEBUG") != "" {
							fmt.Fprintf(os.Stderr, "init %s: skipped %v: %s\n", f.Pkg.Pkg.Path(), b.instrs[i], msg)
						}
						w.ex.mu.Lock()
						w.ex.initSkips(f.Pkg.Pkg.Path() + ": " + msg)
						w.ex.mu.Unlock()
					}
				}()
				ins(fr)
			}()
		}
		// init guard: always take the initialising branch
		if _, ok := b.instrs[len(b.instrs)-1].(*ssa.If); ok && fr.block == 0 {
			sb := f.Blocks[0].Succs
			fr.prev, fr.block = 0, sb[1].Index
			if len(sb[1].Instrs) == 1 {
				fr.block = sb[0].Index
			}
			continue
		}
		nx := b.term(fr)
		if nx < 0 {
			return
		}
		fr.prev, fr.block = fr.block, nx
	}
}

func (w *Worker) slotOf(c *fnCode, v ssa.Value) int {
	n := len(c.fn.Params) + len(c.fn.FreeVars)
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.Value); ok {
				if x == v {
					return n
				}
				n++
			}
		}
	}
	return -1
}

func (ex *Explorer) initSkips(s string) {}
