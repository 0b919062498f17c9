package main

// Deterministic scheduler for interpreted goroutines, channels, locks, timers, races.

import (
	"fmt"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id     int
	w      *Worker
	resume chan struct{}
	exited chan struct{}
	done   bool
	ready  func() bool
	what   string
	vc     []int
	settle bool
	top    *frame
}

type timerObj struct {
	id     int
	fire   func()
	left   int // remaining fires in budget
	active bool
	repeat bool
	fired  int
	ch     *chanObj
	dur    value
}

type sched struct {
	gors     []*gor
	curg     *gor
	timersL  []*timerObj
	killed   bool
	endCh    chan pathEnd
	preempts int
	quiet    bool // set up phase: one schedule only
	schedLog []string
	nsched   int
	raceOn   bool
	shadow   map[*value]*shadowCell
	foundRaces map[ssa.Instruction]bool
	inInit   int
	nchan    int
	now      int64
	syncVC   map[any][]int
	extraFire int
	ending   bool
}

type killG struct{}

func (w *Worker) curG() *gor { return w.curg }

func (w *Worker) runSched() pathEnd {
	w.sched = sched{endCh: make(chan pathEnd, 1), syncVC: map[any][]int{}, foundRaces: map[ssa.Instruction]bool{}, shadow: map[*value]*shadowCell{}}
	main := w.newGor()
	w.curg = main
	go w.gorBody(main, func() {
		w.callFn(&frame{w: w, g: main, code: &fnCode{name: "harness"}}, w.ex.fn, nil, nil)
	})
	main.resume <- struct{}{}
	end := <-w.endCh
	// unwind everything that is still parked
	w.killed = true
	for _, g := range w.gors {
		select {
		case <-g.exited:
		default:
			select {
			case g.resume <- struct{}{}:
			default:
			}
			<-g.exited
		}
	}
	return end
}

func (w *Worker) newGor() *gor {
	g := &gor{id: len(w.gors), w: w, resume: make(chan struct{}, 1), exited: make(chan struct{})}
	w.gors = append(w.gors, g)
	for _, o := range w.gors {
		for len(o.vc) < len(w.gors) {
			o.vc = append(o.vc, 0)
		}
	}
	g.vc[g.id] = 1
	return g
}

func (w *Worker) endPath(e pathEnd) {
	if w.ending {
		return
	}
	w.ending = true
	w.endCh <- e
}

func (w *Worker) gorBody(g *gor, f func()) {
	defer close(g.exited)
	<-g.resume
	if w.killed {
		return
	}
	var end *pathEnd
	killed := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case killG:
				killed = true
			case pathEnd:
				if x.kind == endSteps && w.cfg.term && x.msg != "stopped" && x.msg != "time budget exhausted" {
					w.violationSafe(w.cur, "nontermination", "does not terminate within the step bound")
				}
				end = &x
			case targetPanic:
				if w.killed {
					killed = true
					return
				}
				w.violationSafe(w.cur, "panic", "panic: "+w.panicText(x.v))
				end = &pathEnd{kind: endViolation}
			case unsupportedErr:
				end = &pathEnd{kind: endUnsupported, msg: "unsupported: " + x.msg + w.stackTrace(w.cur)}
			case hostPanic:
				end = &pathEnd{kind: endUnsupported, msg: fmt.Sprintf("ENGINE: %v %s\n%s", x.r, w.stackTrace(w.cur), x.stack)}
			case fatalErr:
				end = &pathEnd{kind: endUnsupported, msg: "FATAL " + x.msg}
			default:
				end = &pathEnd{kind: endUnsupported, msg: fmt.Sprintf("ENGINE: %v %s\n%s", r, w.stackTrace(w.cur), debug.Stack())}
			}
		}()
		f()
	}()
	g.done = true
	if killed || w.killed {
		return
	}
	if end != nil {
		w.endPath(*end)
		return
	}
	if g.id == 0 {
		w.endPath(pathEnd{kind: endOK})
		return
	}
	// goroutine finished: hand over to somebody else
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					w.endPath(x)
				case killG:
				default:
					w.endPath(pathEnd{kind: endUnsupported, msg: fmt.Sprintf("ENGINE: sched %v", r)})
				}
			}
		}()
		w.pickNext(nil, false)
	}()
}

func (w *Worker) violationSafe(fr *frame, kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			w.note(fmt.Sprintf("could not report violation %s: %v", msg, r))
		}
	}()
	w.violation(fr, kind, msg)
}

func (w *Worker) park(g *gor) {
	<-g.resume
	if w.killed {
		panic(killG{})
	}
	w.curg = g
}

func (w *Worker) log(format string, a ...any) {
	w.schedLog = append(w.schedLog, fmt.Sprintf(format, a...))
}

func (w *Worker) spawn(fr *frame, f value, args []value) {
	if w.inInit > 0 {
		panic(unsupported("goroutine started during package init"))
	}
	g := w.newGor()
	if fr.g != nil {
		copy(g.vc, fr.g.vc)
		g.vc[g.id] = 1
		fr.g.vc[fr.g.id]++
	}
	name := "go"
	switch x := f.(type) {
	case *ssa.Function:
		name = w.eng.fnName(x)
	case *closure:
		name = w.eng.fnName(x.fn)
	}
	w.log("g%d starts g%d: %s", fr.g.id, g.id, name)
	g.what = name
	if w.cfg.conc && !w.cfg.noRace {
		w.raceOn = true
	}
	go w.gorBody(g, func() {
		w.call(&frame{w: w, g: g, code: &fnCode{name: "go"}}, f, args, nil)
	})
}

func (g *gor) enabled() bool {
	if g.done {
		return false
	}
	return g.ready == nil || g.ready()
}

func (w *Worker) othersEnabled(me *gor) []*gor {
	var r []*gor
	for _, g := range w.gors {
		if g != me && g.enabled() {
			r = append(r, g)
		}
	}
	return r
}

func (w *Worker) armed() []*timerObj {
	var r []*timerObj
	for _, t := range w.timersL {
		if t.active && t.left > 0 {
			r = append(r, t)
		}
	}
	return r
}

func (w *Worker) fireTimer(t *timerObj) {
	w.log("timer %d fires", t.id)
	t.left--
	t.fired++
	if !t.repeat {
		t.active = false
	}
	t.fire()
}

// yield is a potential preemption point before a visible operation.
func (w *Worker) yield(fr *frame, what string) {
	if w.inInit > 0 || w.quiet || w.killed || len(w.gors) == 1 && len(w.timersL) == 0 || w.noFork > 0 {
		return
	}
	me := w.curg
	for {
		if w.preempts >= w.cfg.preempt {
			return
		}
		others := w.othersEnabled(me)
		var ts []*timerObj
		ts = w.armed()
		n := 1 + len(others) + len(ts)
		if n == 1 {
			return
		}
		c := w.choose(n, "sched")
		w.nsched++
		if c == 0 {
			return
		}
		w.preempts++
		if c <= len(others) {
			w.log("preempt g%d at %s %s -> g%d", me.id, what, w.posOf(fr), others[c-1].id)
			w.switchTo(me, others[c-1])
			return
		}
		w.fireTimer(ts[c-1-len(others)])
	}
}

func (w *Worker) posOf(fr *frame) string {
	for fr != nil && (fr.code == nil || !fr.code.repo) {
		fr = fr.caller
	}
	if fr == nil {
		return ""
	}
	p := w.eng.prog.Fset.Position(fr.pos())
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func (w *Worker) switchTo(me, to *gor) {
	save := w.cur
	to.ready = nil
	to.settle = false
	w.curg = to
	to.resume <- struct{}{}
	w.park(me)
	w.cur = save
}

// block suspends the current goroutine until ready() holds.
func (w *Worker) block(fr *frame, what string, ready func() bool) {
	me := w.curg
	if ready() {
		return
	}
	if w.inInit > 0 {
		panic(unsupported("blocking during package init"))
	}
	w.log("g%d blocks: %s %s", me.id, what, w.posOf(fr))
	me.ready = ready
	me.what = what + " " + w.posOf(fr)
	save := w.cur
	w.pickNext(me, false)
	w.cur = save
	me.ready = nil
}

// pickNext hands control to some enabled goroutine; me == nil when the caller has finished.
func (w *Worker) pickNext(me *gor, _ bool) {
	for {
		var cands []*gor
		for _, g := range w.gors {
			if g.settle {
				continue
			}
			if g.enabled() {
				cands = append(cands, g)
			}
		}
		if len(cands) == 0 { // settle goroutines run when nobody else can
			for _, g := range w.gors {
				if g.settle && !g.done {
					cands = append(cands, g)
				}
			}
		}
		ts := w.armed()
		if w.quiet && len(cands) > 0 { // one schedule: first what can run, then the timers, then who waits for quiescence
			if cands[0].settle && len(ts) > 0 {
				cands, ts = nil, ts[:1]
			} else {
				cands, ts = cands[:1], nil
			}
		}
		n := len(cands) + len(ts)
		if n == 0 {
			// fire exhausted periodic timers a little more before giving up
			var rep []*timerObj
			for _, t := range w.timersL {
				if t.active && t.repeat {
					rep = append(rep, t)
				}
			}
			if len(rep) > 0 && w.extraFire < 3*len(rep) {
				t := rep[w.extraFire%len(rep)]
				w.extraFire++
				t.left++
				w.fireTimer(t)
				continue
			}
			w.deadlock()
		}
		c := 0
		if n > 1 {
			c = w.choose(n, "next")
			w.nsched++
		}
		if c >= len(cands) {
			w.fireTimer(ts[c-len(cands)])
			continue
		}
		g := cands[c]
		g.settle = false
		if g == me {
			return
		}
		g.ready = nil
		w.curg = g
		if n > 1 {
			w.log("-> g%d", g.id)
		}
		g.resume <- struct{}{}
		if me == nil {
			return
		}
		w.park(me)
		return
	}
}

func (w *Worker) deadlock() {
	txt := "deadlock: "
	for _, g := range w.gors {
		if !g.done {
			txt += fmt.Sprintf("[g%d %s] ", g.id, g.what)
		}
	}
	w.log("%s", txt)
	if side, ok := w.side["mayblock"]; ok && side.(bool) {
		panic(pathEnd{kind: endQuiescent})
	}
	w.violationSafe(w.cur, "deadlock", "the call never returns (all goroutines are blocked)")
	if len(w.viols) > 0 {
		w.viols[len(w.viols)-1].Where = txt
	}
	panic(pathEnd{kind: endViolation})
}

// ---- vector clocks

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (w *Worker) acquire(key any) {
	if !w.cfg.conc || w.curg == nil {
		return
	}
	w.curg.vc = joinVC(w.curg.vc, w.syncVC[key])
}

func (w *Worker) release(key any) {
	if !w.cfg.conc || w.curg == nil {
		return
	}
	w.syncVC[key] = joinVC(append([]int(nil), w.syncVC[key]...), w.curg.vc)
	w.curg.vc[w.curg.id]++
}

func (w *Worker) snapVC() []int {
	if !w.cfg.conc || w.curg == nil {
		return nil
	}
	r := append([]int(nil), w.curg.vc...)
	w.curg.vc[w.curg.id]++
	return r
}

type epoch struct {
	g, c int
	in   ssa.Instruction
}

type shadowCell struct {
	w     epoch
	hasW  bool
	reads []epoch
}

func (w *Worker) raceAccess(fr *frame, p *value, write bool) {
	if w.inInit > 0 || !fr.code.repo || fr.code.fake || fr.g == nil {
		return
	}
	b := &fr.code.blocks[fr.block]
	if fr.pc >= len(b.instrs) {
		return
	}
	in := b.instrs[fr.pc]
	if w.ex.racy[in] {
		w.yield(fr, "shared access")
	}
	g := fr.g
	s := w.shadow[p]
	if s == nil {
		s = &shadowCell{}
		w.shadow[p] = s
	}
	hb := func(e epoch) bool { return e.g == g.id || e.g < len(g.vc) && e.c <= g.vc[e.g] }
	if s.hasW && !hb(s.w) {
		w.race(s.w.in, in, fr)
	}
	if write {
		for _, r := range s.reads {
			if !hb(r) {
				w.race(r.in, in, fr)
			}
		}
		s.reads = s.reads[:0]
		s.w = epoch{g.id, g.vc[g.id], in}
		s.hasW = true
	} else {
		for i := range s.reads {
			if s.reads[i].g == g.id {
				s.reads[i] = epoch{g.id, g.vc[g.id], in}
				return
			}
		}
		s.reads = append(s.reads, epoch{g.id, g.vc[g.id], in})
	}
}

func (w *Worker) raceSlice(fr *frame, s []value, write bool) {
	for i := range s {
		w.raceAccess(fr, &s[i], write)
	}
}

func (w *Worker) race(a, b ssa.Instruction, fr *frame) {
	w.foundRaces[a] = true
	w.foundRaces[b] = true
}

// ---- channels

type chanItem struct {
	v  value
	vc []int
}

type chanObj struct {
	id     int
	buf    []chanItem
	cap    int
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	closeVC []int
	recvVC  []int
}

type waiter struct {
	g      *gor
	val    value
	vc     []int
	ok     bool
	done   bool
	closed bool
	sel    *selState
	idx    int
}

type selState struct {
	fired bool
	w     *waiter
}

func (wt *waiter) live() bool { return wt.sel == nil || !wt.sel.fired }

func (wt *waiter) complete() {
	wt.done = true
	if wt.sel != nil {
		wt.sel.fired = true
		wt.sel.w = wt
	}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.live() && !x.done {
			return x
		}
	}
	return nil
}

func peekWaiter(q []*waiter) bool {
	for _, x := range q {
		if x.live() && !x.done {
			return true
		}
	}
	return false
}

func (w *Worker) newChan(n int) *chanObj {
	w.nchan++
	return &chanObj{id: w.nchan, cap: n}
}

func (w *Worker) trySend(c *chanObj, v value) bool {
	if c.closed {
		panic(targetPanic{w.rtErrorT("plainError", "send on closed channel")})
	}
	if r := popWaiter(&c.recvq); r != nil {
		r.val, r.ok = v, true
		r.vc = w.snapVC()
		if w.cfg.conc && w.curg != nil { // unbuffered: receive happens before send completes
			w.curg.vc = joinVC(w.curg.vc, r.g.vc)
		}
		r.complete()
		return true
	}
	if len(c.buf) < c.cap {
		if w.cfg.conc && w.curg != nil {
			w.curg.vc = joinVC(w.curg.vc, c.recvVC)
		}
		c.buf = append(c.buf, chanItem{v, w.snapVC()})
		return true
	}
	return false
}

func (w *Worker) chanSend(fr *frame, c *chanObj, v value) {
	w.noMerge()
	w.yield(fr, "send")
	if c == nil {
		w.block(fr, "send on nil channel", func() bool { return false })
	}
	if w.trySend(c, v) {
		return
	}
	wt := &waiter{g: w.curg, val: v, vc: w.snapVC()}
	c.sendq = append(c.sendq, wt)
	w.block(fr, "send", func() bool { return wt.done })
	if wt.closed {
		panic(targetPanic{w.rtErrorT("plainError", "send on closed channel")})
	}
}

func (w *Worker) tryRecv(c *chanObj, et types.Type) (value, bool, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem(nil), c.buf[1:]...)
		if w.cfg.conc && w.curg != nil {
			w.curg.vc = joinVC(w.curg.vc, it.vc)
			c.recvVC = joinVC(append([]int(nil), c.recvVC...), w.curg.vc)
			w.curg.vc[w.curg.id]++
		}
		if s := popWaiter(&c.sendq); s != nil {
			c.buf = append(c.buf, chanItem{s.val, s.vc})
			s.complete()
		}
		return it.v, true, true
	}
	if s := popWaiter(&c.sendq); s != nil {
		if w.cfg.conc && w.curg != nil {
			w.curg.vc = joinVC(w.curg.vc, s.vc)
			s.g.vc = joinVC(s.g.vc, w.snapVC())
		}
		s.complete()
		return s.val, true, true
	}
	if c.closed {
		if w.cfg.conc && w.curg != nil {
			w.curg.vc = joinVC(w.curg.vc, c.closeVC)
		}
		return zero(et), false, true
	}
	return nil, false, false
}

func (w *Worker) chanRecv(fr *frame, c *chanObj, et types.Type) (value, bool) {
	w.noMerge()
	w.yield(fr, "receive")
	if c == nil {
		w.block(fr, "receive from nil channel", func() bool { return false })
	}
	if v, ok, done := w.tryRecv(c, et); done {
		return v, ok
	}
	wt := &waiter{g: w.curg}
	c.recvq = append(c.recvq, wt)
	w.block(fr, "receive", func() bool { return wt.done })
	if w.cfg.conc && w.curg != nil {
		w.curg.vc = joinVC(w.curg.vc, wt.vc)
	}
	if wt.closed {
		return zero(et), false
	}
	return wt.val, wt.ok
}

func (w *Worker) chanClose(fr *frame, c *chanObj) {
	w.noMerge()
	w.yield(fr, "close")
	if c == nil {
		panic(targetPanic{w.rtErrorT("plainError", "close of nil channel")})
	}
	if c.closed {
		panic(targetPanic{w.rtErrorT("plainError", "close of closed channel")})
	}
	c.closed = true
	c.closeVC = w.snapVC()
	for {
		r := popWaiter(&c.recvq)
		if r == nil {
			break
		}
		r.closed = true
		r.vc = c.closeVC
		r.complete()
	}
	for {
		s := popWaiter(&c.sendq)
		if s == nil {
			break
		}
		s.closed = true
		s.complete()
	}
}

func (cc *compiler) selectIns(x *ssa.Select, d int) insFn {
	type st struct {
		send bool
		c, v opnd
		et   types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		o := st{send: s.Dir == types.SendOnly, c: cc.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if o.send {
			o.v = cc.op(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, o)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		w := fr.w
		w.noMerge()
		chans := make([]*chanObj, len(sts))
		vals := make([]value, len(sts))
		for i := range sts {
			chans[i], _ = sts[i].c.get(fr).(*chanObj)
			if sts[i].send {
				vals[i] = copyVal(sts[i].v.get(fr))
			}
		}
		w.yield(fr, "select")
		result := func(idx int, v value, ok bool) {
			t := make(tuple, 2+nrecv)
			t[0], t[1] = int64(idx), ok
			j := 2
			for i := range sts {
				if sts[i].send {
					continue
				}
				if i == idx {
					t[j] = v
					if v == nil {
						t[j] = zero(sts[i].et)
					}
				} else {
					t[j] = zero(sts[i].et)
				}
				j++
			}
			fr.regs[d] = t
		}
		var ready []int
		for i, c := range chans {
			if c == nil {
				continue
			}
			if sts[i].send {
				if c.closed || peekWaiter(c.recvq) || len(c.buf) < c.cap {
					ready = append(ready, i)
				}
			} else if len(c.buf) > 0 || peekWaiter(c.sendq) || c.closed {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			if w.quiet {
				ready = ready[:1]
			}
			i := ready[w.choose(len(ready), "select")]
			if sts[i].send {
				if !w.trySend(chans[i], vals[i]) {
					panic(unsupported("select send"))
				}
				result(i, nil, false)
			} else {
				v, ok, _ := w.tryRecv(chans[i], sts[i].et)
				result(i, v, ok)
			}
			return
		}
		if !blocking {
			t := make(tuple, 2+nrecv)
			t[0], t[1] = int64(-1), false
			j := 2
			for i := range sts {
				if !sts[i].send {
					t[j] = zero(sts[i].et)
					j++
				}
			}
			fr.regs[d] = t
			return
		}
		sel := &selState{}
		snap := w.snapVC()
		for i, c := range chans {
			if c == nil {
				continue
			}
			wt := &waiter{g: w.curg, sel: sel, idx: i}
			if sts[i].send {
				wt.val = vals[i]
				wt.vc = snap
				c.sendq = append(c.sendq, wt)
			} else {
				c.recvq = append(c.recvq, wt)
			}
		}
		w.block(fr, "select", func() bool { return sel.fired })
		wt := sel.w
		if sts[wt.idx].send {
			if wt.closed {
				panic(targetPanic{w.rtErrorT("plainError", "send on closed channel")})
			}
			result(wt.idx, nil, false)
			return
		}
		if w.cfg.conc && w.curg != nil {
			w.curg.vc = joinVC(w.curg.vc, wt.vc)
		}
		if wt.closed {
			result(wt.idx, nil, false)
		} else {
			result(wt.idx, wt.val, wt.ok)
		}
	}
}

// ---- locks

type mutexSt struct {
	locked  bool
	readers int
	waitW   int
}

func (w *Worker) mutex(p *value) *mutexSt {
	m, _ := w.side[p].(*mutexSt)
	if m == nil {
		m = &mutexSt{}
		w.side[p] = m
	}
	return m
}

func (w *Worker) lock(fr *frame, p *value) {
	if w.inInit > 0 {
		return
	}
	w.yield(fr, "lock")
	m := w.mutex(p)
	w.block(fr, "lock", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	w.acquire(p)
}

func (w *Worker) unlock(fr *frame, p *value) {
	if w.inInit > 0 {
		return
	}
	m := w.mutex(p)
	if !m.locked {
		panic(targetPanic{iface{types.Typ[types.String], "fatal error: sync: unlock of unlocked mutex"}})
	}
	w.release(p)
	m.locked = false
	w.yield(fr, "unlock")
}
