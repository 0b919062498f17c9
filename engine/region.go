package main

// Region merging: both sides of a symbolic branch are executed up to their join and the states
// are merged with if-then-else terms, instead of forking the path (cfg.merge >= 2).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type logEnt struct {
	p   *value
	old value
	t   types.Type
}

type regionInfo struct {
	ok   bool
	join int // -1: function exit
	loop bool
	// loop regions run their own blocks again: the registers that are live at the join must be merged
	live []liveReg
}

type liveReg struct {
	slot int
	typ  types.Type
}

// liveAt returns the registers that are live on entry of a block (its phis excluded).
func (c *fnCode) liveAt(join int) []liveReg {
	if join < 0 {
		return nil
	}
	n := len(c.fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := c.fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					cur[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && isReg(ph.Edges[k]) {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			var rands [8]*ssa.Value
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, o := range ins.Operands(rands[:0]) {
					if o != nil && *o != nil && isReg(*o) {
						cur[*o] = true
					}
				}
			}
			for v := range cur {
				if !in[i][v] {
					in[i][v] = true
					changed = true
				}
			}
		}
	}
	var res []liveReg
	slot := len(c.fn.Params) + len(c.fn.FreeVars)
	for _, b := range c.fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if in[join][v] {
					res = append(res, liveReg{slot, v.Type()})
				}
				slot++
			}
		}
	}
	return res
}

// regionsOf computes the immediate postdominators (panic exits ignored).
func (c *fnCode) regionsOf() []regionInfo {
	n := len(c.fn.Blocks)
	// postdominator sets over blocks; index n is the virtual exit
	full := func() []bool {
		r := make([]bool, n+1)
		for i := range r {
			r[i] = true
		}
		return r
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = full()
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	succs := make([][]int, n)
	for i, b := range c.fn.Blocks {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			succs[i] = []int{n}
		case *ssa.Panic:
		default:
			for _, s := range b.Succs {
				succs[i] = append(succs[i], s.Index)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			r := full()
			if len(succs[i]) > 0 {
				for _, s := range succs[i] {
					for k := range r {
						r[k] = r[k] && pd[s][k]
					}
				}
			}
			r[i] = true
			for k := range r {
				if r[k] != pd[i][k] {
					pd[i] = r
					changed = true
					break
				}
			}
		}
	}
	res := make([]regionInfo, n)
	for i, b := range c.fn.Blocks {
		if len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		// the immediate postdominator is the strict postdominator with the largest set
		best, cnt := -2, -1
		for k := 0; k <= n; k++ {
			if k == i || !pd[i][k] {
				continue
			}
			m := 0
			for _, x := range pd[k] {
				if x {
					m++
				}
			}
			if m > cnt {
				best, cnt = k, m
			}
		}
		if best == -2 {
			continue
		}
		ri := regionInfo{ok: true, join: best}
		if best == n {
			ri.join = -1
			if c.hasDefer {
				ri.ok = false
			}
		}
		for _, s := range b.Succs {
			seen := map[*ssa.BasicBlock]bool{}
			if ri.join >= 0 {
				seen[c.fn.Blocks[ri.join]] = true
			}
			if b.Index != ri.join && reaches(s, b, seen) {
				ri.loop = true
			}
		}
		if ri.loop {
			ri.live = c.liveAt(ri.join)
		}
		res[i] = ri
	}
	return res
}

func reaches(a, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for _, s := range a.Succs {
		if reaches(s, b, seen) {
			return true
		}
	}
	return false
}

const maxRegionDepth = 24
const regionSteps = 20000

type regKey struct {
	c *fnCode
	b int
}

// logStore records a store made while a region side runs.
func (w *Worker) logStore(p *value, v value, t types.Type) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			st := t.Underlying().(*types.Struct)
			for i := range x {
				w.logStore(&d[i], x[i], st.Field(i).Type())
			}
			return
		}
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(x) {
			et := t.Underlying().(*types.Array).Elem()
			for i := range x {
				w.logStore(&d[i], x[i], et)
			}
			return
		}
	}
	w.mlog = append(w.mlog, logEnt{p, *p, t})
	*p = copyVal(v)
}

func (w *Worker) noMerge() {
	if w.noFork > 0 {
		panic(mergeFail{})
	}
}

// sideRun executes one side of a region; it returns false when the side cannot be merged.
func (w *Worker) sideRun(fr *frame, from, to, join int, cond *Term, phis *[]value, res *value, log *[]logEnt) (ok bool) {
	nPC := len(w.pc)
	saveLog, saveModelOK, saveStale := w.mlog, w.modelOK, w.modelStale
	saveLim := w.stepLimit
	saveCur := w.cur
	w.mlog = nil
	w.noFork++
	w.regionDepth++
	w.modelOK = false
	w.modelStale = false
	if l := w.steps + regionSteps; l < w.stepLimit {
		w.stepLimit = l
	}
	defer func() {
		w.noFork--
		w.regionDepth--
		*log = w.mlog
		w.mlog = saveLog
		w.modelOK, w.modelStale = saveModelOK, saveStale
		w.stepLimit = saveLim
		w.cur = saveCur
		for _, t := range w.pc[nPC:] {
			delete(w.pcSet, t)
		}
		w.pc = w.pc[:nPC]
		if r := recover(); r != nil {
			switch x := r.(type) {
			case mergeFail, targetPanic, unsupportedErr:
				ok = false
				return
			case pathEnd:
				if x.kind == endInfeasible || x.kind == endSteps && x.msg != "stopped" && x.msg != "time budget exhausted" {
					ok = false
					return
				}
			}
			panic(r)
		}
	}()
	w.addPC(cond)
	fr.prev, fr.block = from, to
	fr.skipPhi = false
	code := fr.code
	for {
		if fr.block == join {
			b := &code.blocks[join]
			e := b.preds[fr.prev]
			vals := make([]value, len(b.phis))
			if fr.skipPhi { // an inner region already joined here
				fr.skipPhi = false
				for i := range b.phis {
					vals[i] = fr.regs[b.phis[i].dst]
				}
			} else {
				for i := range b.phis {
					vals[i] = b.phis[i].edges[e].get(fr)
				}
			}
			*phis = vals
			return true
		}
		if !w.execBlock(fr) {
			*res = fr.result
			return join == -1
		}
	}
}

func (w *Worker) tryRegion(fr *frame, c *Term) (next int, ok bool) {
	if w.raceOn || w.regionDepth >= maxRegionDepth {
		return 0, false
	}
	if w.pcSet[c] || w.pcSet[w.tt.Not(c)] {
		return 0, false
	}
	code := fr.code
	code.regOnce.Do(func() { code.regions = code.regionsOf() })
	ri := code.regions[fr.block]
	if !ri.ok {
		return 0, false
	}
	key := regKey{code, fr.block}
	if w.regFail[key] >= 3 {
		return 0, false
	}
	if ri.loop && w.regionDepth > 0 {
		if w.mustHold(c) {
			return code.fn.Blocks[fr.block].Succs[0].Index, true
		}
		if w.mustHold(w.tt.Not(c)) {
			return code.fn.Blocks[fr.block].Succs[1].Index, true
		}
	}
	from, prev, pc, result, cur := fr.block, fr.prev, fr.pc, fr.result, w.cur
	ndef := len(fr.defers)
	var phis [2][]value
	var res [2]value
	var logs [2][]logEnt
	var finals [2]map[*value]value
	var regs0 []value
	var regs [2][]value
	if ri.loop {
		regs0 = append(regs0, fr.regs...)
	}
	succ := code.fn.Blocks[from].Succs
	conds := [2]*Term{c, w.tt.Not(c)}
	fail := func() (int, bool) {
		if ri.loop {
			copy(fr.regs, regs0)
		}
		fr.block, fr.prev, fr.pc, fr.result, w.cur = from, prev, pc, result, cur
		fr.skipPhi = false
		fr.defers = fr.defers[:ndef]
		w.regFail[key]++
		return 0, false
	}
	var order []logEnt
	seen := map[*value]bool{}
	for s := 0; s < 2; s++ {
		good := w.sideRun(fr, from, succ[s].Index, ri.join, conds[s], &phis[s], &res[s], &logs[s])
		if ri.loop {
			regs[s] = append([]value(nil), fr.regs...)
			copy(fr.regs, regs0)
		}
		finals[s] = map[*value]value{}
		for _, l := range logs[s] {
			finals[s][l.p] = *l.p
		}
		for i := len(logs[s]) - 1; i >= 0; i-- {
			*logs[s][i].p = logs[s][i].old
		}
		for _, l := range logs[s] {
			if !seen[l.p] {
				seen[l.p] = true
				order = append(order, logEnt{l.p, *l.p, l.t})
			}
		}
		if !good {
			return fail()
		}
	}
	// merge
	merged := make([]value, len(order))
	for i, l := range order {
		x, y := l.old, l.old
		if v, ok := finals[0][l.p]; ok {
			x = v
		}
		if v, ok := finals[1][l.p]; ok {
			y = v
		}
		v, mok := w.iteDeep(c, x, y, l.t)
		if !mok {
			return fail()
		}
		merged[i] = v
	}
	live := make([]value, len(ri.live))
	for i, l := range ri.live {
		v, mok := w.iteReg(c, regs[0][l.slot], regs[1][l.slot], l.typ)
		if !mok {
			return fail()
		}
		live[i] = v
	}
	if ri.join == -1 {
		rt := code.fn.Signature.Results()
		switch rt.Len() {
		case 0:
			fr.result = nil
		case 1:
			v, mok := w.iteDeep(c, res[0], res[1], rt.At(0).Type())
			if !mok {
				return fail()
			}
			fr.result = v
		default:
			x, y := res[0].(tuple), res[1].(tuple)
			t := make(tuple, len(x))
			for i := range t {
				v, mok := w.iteDeep(c, x[i], y[i], rt.At(i).Type())
				if !mok {
					return fail()
				}
				t[i] = v
			}
			fr.result = t
		}
	} else {
		b := &code.blocks[ri.join]
		vals := make([]value, len(b.phis))
		for i := range b.phis {
			v, mok := w.iteDeep(c, phis[0][i], phis[1][i], code.phiType(ri.join, i))
			if !mok {
				return fail()
			}
			vals[i] = v
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = vals[i]
		}
		fr.skipPhi = true
	}
	for i, l := range ri.live {
		fr.regs[l.slot] = live[i]
	}
	for i, l := range order {
		if w.regionDepth > 0 {
			w.mlog = append(w.mlog, logEnt{l.p, *l.p, l.t})
		}
		*l.p = merged[i]
	}
	fr.block, fr.prev, fr.pc, w.cur = from, prev, pc, cur
	w.merges++
	return ri.join, true
}

// iteReg merges two contents of a register.
func (w *Worker) iteReg(c *Term, a, b value, t types.Type) (v value, ok bool) {
	defer func() {
		switch r := recover(); r.(type) {
		case nil:
		case mergeFail, unsupportedErr:
			v, ok = nil, false
		default:
			panic(r)
		}
	}()
	switch x := a.(type) {
	case *Term:
		if y, same := b.(*Term); same && x == y {
			return a, true
		}
	case *value:
		y, same := b.(*value)
		return a, same && x == y
	case nil:
		return nil, b == nil
	case tuple:
		return nil, false
	}
	return w.iteDeep(c, a, b, t)
}

// iteDeep merges two values of a known type.
func (w *Worker) iteDeep(c *Term, a, b value, t types.Type) (value, bool) {
	switch x := a.(type) {
	case structure:
		y, ok := b.(structure)
		st, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 || len(x) != len(y) {
			return nil, false
		}
		r := make(structure, len(x))
		for i := range x {
			v, ok := w.iteDeep(c, x[i], y[i], st.Field(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case arrayV:
		y, ok := b.(arrayV)
		at, ok2 := t.Underlying().(*types.Array)
		if !ok || !ok2 || len(x) != len(y) {
			return nil, false
		}
		r := make(arrayV, len(x))
		for i := range x {
			v, ok := w.iteDeep(c, x[i], y[i], at.Elem())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if len(x) == 0 && cap(x) == 0 {
			return x, true
		}
		if cap(x) > 0 && &x[:1][0] == &y[:1][0] {
			return x, true
		}
		return nil, false
	case *mapObj:
		y, ok := b.(*mapObj)
		return x, ok && x == y
	case *chanObj:
		y, ok := b.(*chanObj)
		return x, ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return x, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return x, ok && x == y
	case iface:
		y, ok := b.(iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := w.iteDeep(c, x.v, y.v, x.t)
		return iface{x.t, v}, ok
	case *symStr, string:
		return w.iteStr(c, a, b)
	}
	return w.iteTyped(c, a, b, t)
}

func (w *Worker) iteStr(c *Term, a, b value) (value, bool) {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		if sa == sb {
			return a, true
		}
	}
	switch b.(type) {
	case string, *symStr:
	default:
		return nil, false
	}
	if strLen(a) != strLen(b) {
		return nil, false
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]value, len(x))
	for i := range r {
		v, ok := w.iteTyped(c, x[i], y[i], types.Typ[types.Uint8])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return mkStr(r), true
}

var pureHarnessFn = map[string]bool{"vAnd": true, "vOr": true, "vNot": true, "vIteInt": true, "vIteFloat": true, "vParam": true, "vSymbolic": true}

// pureIntrinsic reports whether a library model has no side effects on the interpreter state.
func pureIntrinsic(name string) bool {
	for _, p := range []string{"math.", "strings.", "bytes.", "internal/bytealg.", "strconv.", "unicode", "errors.", "(time.Duration)", "(time.Time)", "math/bits.", "fmt.Sprint", "fmt.Errorf", "log.Print"} {
		if len(name) >= len(p) && name[:len(p)] == p {
			return true
		}
	}
	return false
}
