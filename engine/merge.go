package main

// If-conversion: small side branches are executed predicated instead of forking.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mergeSide struct {
	block int // -1: empty side (edge goes straight to the join)
	ins   []insFn
	store []*ssa.Store // parallel to ins: non-nil for stores
	addr  []opnd
	val   []opnd
	dst   []int
	n     int64
}

type mergeInfo struct {
	from  int
	join  int
	sides [2]mergeSide
}

type mergeFail struct{}

// pureIns reports whether an instruction may be executed speculatively.
func pureIns(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		k := kindOf(x.X.Type())
		switch k.c {
		case kInt:
			if x.Op == token.QUO || x.Op == token.REM {
				c, ok := x.Y.(*ssa.Const)
				return ok && c.Value != nil && c.Int64() != 0
			}
			return true
		case kFloat, kBool:
			return true
		}
		return false
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT, token.SUB, token.XOR:
			return true
		case token.MUL:
			return isScalar(x.Type())
		}
		return false
	case *ssa.Convert:
		f, t := kindOf(x.X.Type()), kindOf(x.Type())
		return (f.c == kInt || f.c == kFloat) && (t.c == kFloat || t.c == kInt && f.c == kInt)
	case *ssa.ChangeType, *ssa.DebugRef:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Extract:
		return true
	case *ssa.Store:
		return isScalar(x.Val.Type()) && kindOf(x.Val.Type()).c != kOther && kindOf(x.Val.Type()).c != kIface
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "math.Abs", "math.Sqrt", "math.Floor", "math.Ceil", "math.Trunc", "math.Round", "math.IsNaN":
				return true
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "min", "max":
				return kindOf(x.Type()).c == kInt
			case "len", "cap":
				_, isChan := x.Call.Args[0].Type().Underlying().(*types.Chan)
				return !isChan
			}
		}
	}
	return false
}

func (cc *compiler) side(b *ssa.BasicBlock) (mergeSide, bool) {
	s := mergeSide{block: b.Index}
	if len(b.Instrs) > 14 {
		return s, false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if !pureIns(in) {
			return s, false
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		st, _ := in.(*ssa.Store)
		s.store = append(s.store, st)
		s.n++
		if st != nil {
			s.ins = append(s.ins, nil)
			s.addr = append(s.addr, cc.op(st.Addr))
			s.val = append(s.val, cc.op(st.Val))
			s.dst = append(s.dst, -1)
		} else {
			s.ins = append(s.ins, cc.ins(in))
			s.addr = append(s.addr, opnd{})
			s.val = append(s.val, opnd{})
			d := -1
			if v, ok := in.(ssa.Value); ok {
				d = cc.slots[v]
			}
			s.dst = append(s.dst, d)
		}
	}
	return s, true
}

func (cc *compiler) diamond(b *ssa.BasicBlock) *mergeInfo {
	t, f := b.Succs[0], b.Succs[1]
	if t == f {
		return nil
	}
	simple := func(x *ssa.BasicBlock) bool {
		if len(x.Preds) != 1 || len(x.Succs) != 1 {
			return false
		}
		_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Jump)
		if !ok {
			return false
		}
		if _, ok := x.Instrs[0].(*ssa.Phi); ok {
			return false
		}
		return true
	}
	m := &mergeInfo{from: b.Index}
	var ok bool
	switch {
	case simple(t) && t.Succs[0] == f:
		m.join = f.Index
		if m.sides[0], ok = cc.side(t); !ok {
			return nil
		}
		m.sides[1].block = -1
	case simple(f) && f.Succs[0] == t:
		m.join = t.Index
		if m.sides[1], ok = cc.side(f); !ok {
			return nil
		}
		m.sides[0].block = -1
	case simple(t) && simple(f) && t.Succs[0] == f.Succs[0]:
		m.join = t.Succs[0].Index
		if m.sides[0], ok = cc.side(t); !ok {
			return nil
		}
		if m.sides[1], ok = cc.side(f); !ok {
			return nil
		}
	default:
		return nil
	}
	// joins that are loop headers of b itself are fine; a join before b would loop through phis, also fine
	return m
}

type undo struct {
	p *value
	v value
	t types.Type
}

func (w *Worker) tryMerge(fr *frame, m *mergeInfo, c *Term) (next int, ok bool) {
	if w.raceOn || w.noFork > 0 && false {
		return 0, false
	}
	// decided already?
	if w.pcSet[c] || w.pcSet[w.tt.Not(c)] {
		return 0, false
	}
	var log []undo
	w.noFork++
	defer func() {
		w.noFork--
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeFail, targetPanic, unsupportedErr:
				for i := len(log) - 1; i >= 0; i-- {
					*log[i].p = log[i].v
				}
				next, ok = 0, false
				return
			}
			panic(r)
		}
	}()
	conds := [2]*Term{c, w.tt.Not(c)}
	for si := range m.sides {
		s := &m.sides[si]
		if s.block < 0 {
			continue
		}
		for i, f := range s.ins {
			if f != nil {
				f(fr)
				continue
			}
			p, isP := s.addr[i].get(fr).(*value)
			if !isP || p == nil {
				panic(mergeFail{})
			}
			v := s.val[i].get(fr)
			nv, mok := w.iteTyped(conds[si], v, *p, s.store[i].Val.Type())
			if !mok {
				panic(mergeFail{})
			}
			log = append(log, undo{p, *p, s.store[i].Val.Type()})
			*p = nv
		}
		w.steps += s.n
	}
	b := &fr.code.blocks[m.join]
	if len(b.phis) > 0 {
		prev := func(si int) int {
			if m.sides[si].block < 0 {
				return b.preds[m.from]
			}
			return b.preds[m.sides[si].block]
		}
		e0, e1 := prev(0), prev(1)
		vals := make([]value, len(b.phis))
		for i := range b.phis {
			ph := &b.phis[i]
			x, y := ph.edges[e0].get(fr), ph.edges[e1].get(fr)
			var t types.Type = fr.code.phiType(m.join, i)
			v, mok := w.iteTyped(c, x, y, t)
			if !mok {
				panic(mergeFail{})
			}
			vals[i] = v
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = vals[i]
		}
		fr.skipPhi = true
	}
	if w.regionDepth > 0 {
		for _, l := range log {
			w.mlog = append(w.mlog, logEnt{l.p, l.v, l.t})
		}
	}
	w.merges++
	return m.join, true
}

func (c *fnCode) phiType(block, i int) types.Type {
	return c.fn.Blocks[block].Instrs[i].(*ssa.Phi).Type()
}
