package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct{ v value } // v is the iface passed to panic

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type intrinsic func(fr *frame, args []value) value

type opnd struct {
	slot int
	c    value
	g    *ssa.Global
}

func (o *opnd) get(fr *frame) value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return fr.w.globalAddr(o.g)
	}
	return o.c
}

type phiCode struct {
	dst   int
	edges []opnd
}

type insFn func(fr *frame)

type blockCode struct {
	phis   []phiCode
	preds  map[int]int
	ins    []insFn
	instrs []ssa.Instruction
	term   func(fr *frame) int
	n      int64
}

type fnCode struct {
	fn       *ssa.Function
	name     string
	intr     intrinsic
	try      func(fr *frame, args []value) (value, bool)
	blocks   []blockCode
	nslots   int
	hasDefer bool
	recover_ int
	once     sync.Once
	touched  int32
	pure     bool
	regOnce  sync.Once
	regions  []regionInfo
	repo     bool
	fake     bool
	ninstr   int
	err      string
	mergeOK  bool
}

type deferred struct {
	f    value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	w      *Worker
	g      *gor
	code   *fnCode
	regs   []value
	block  int
	prev   int
	pc     int
	defers []deferred
	result value
	caller *frame
	depth  int
	skipPhi bool

	panicking bool
	panicV    *targetPanic
}

func (fr *frame) pos() token.Pos {
	if fr.code == nil || fr.block >= len(fr.code.blocks) {
		return token.NoPos
	}
	b := &fr.code.blocks[fr.block]
	for i := min(fr.pc, len(b.instrs)-1); i >= 0; i-- {
		if p := b.instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return fr.code.fn.Pos()
}

func (w *Worker) stackTrace(fr *frame) string {
	var sb strings.Builder
	for i := 0; fr != nil && i < 12; fr, i = fr.caller, i+1 {
		if fr.code == nil {
			continue
		}
		p := w.eng.prog.Fset.Position(fr.pos())
		fmt.Fprintf(&sb, " <- %s (%s:%d)", fr.code.name, shortFile(p.Filename), p.Line)
	}
	return sb.String()
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// ---- compilation

func (e *Engine) code(fn *ssa.Function) *fnCode {
	e.codeMu.RLock()
	c := e.codes[fn]
	e.codeMu.RUnlock()
	if c == nil {
		e.codeMu.Lock()
		c = e.codes[fn]
		if c == nil {
			c = &fnCode{fn: fn}
			e.codes[fn] = c
		}
		e.codeMu.Unlock()
	}
	c.once.Do(func() { e.compile(c) })
	return c
}

func (e *Engine) fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) compile(c *fnCode) {
	fn := c.fn
	c.name = e.fnName(fn)
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/ftl/sdrainer") {
		c.repo = true
	} else if o := fn.Origin(); o != nil && o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), "github.com/ftl/sdrainer") {
		c.repo = true
	}
	if p := fn.Parent(); p != nil {
		c.repo = e.code(p).repo
	}
	// the shared stand-ins for the environment act in one step between their channel operations
	c.fake = strings.Contains(e.prog.Fset.Position(fn.Pos()).Filename, "zz_verif_common_")
	if s, ok := e.stubs[c.name]; ok && s != fn {
		c.intr = func(fr *frame, args []value) value { return fr.w.callFn(fr, s, args, nil) }
		c.pure = true
		return
	}
	if fn.Pkg == e.hpkg && fn.Signature.Recv() == nil {
		if f, ok := harnessAPI[fn.Name()]; ok {
			c.intr = f
			c.pure = pureHarnessFn[fn.Name()]
			return
		}
	}
	if f, ok := intrinsics[c.name]; ok {
		c.intr = f
		c.pure = pureIntrinsic(c.name)
		return
	}
	c.try = tryIntrinsics[c.name]
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		c.err = "no body for " + c.name
		return
	}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { slots[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nslots = n
	c.recover_ = -1
	if fn.Recover != nil {
		c.recover_ = fn.Recover.Index
	}
	cc := &compiler{e: e, c: c, slots: slots}
	c.blocks = make([]blockCode, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bc := &c.blocks[i]
		bc.preds = map[int]int{}
		for j, p := range b.Preds {
			if _, dup := bc.preds[p.Index]; !dup {
				bc.preds[p.Index] = j
			}
		}
		for _, in := range b.Instrs {
			c.ninstr++
			switch x := in.(type) {
			case *ssa.Phi:
				ph := phiCode{dst: slots[x]}
				for _, ed := range x.Edges {
					ph.edges = append(ph.edges, cc.op(ed))
				}
				bc.phis = append(bc.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
				bc.instrs = append(bc.instrs, in)
				bc.term = cc.term(in, i, b)
			default:
				bc.instrs = append(bc.instrs, in)
				bc.ins = append(bc.ins, cc.ins(in))
			}
		}
		bc.n = int64(len(b.Instrs))
		if bc.term == nil {
			bc.term = func(fr *frame) int { panic(unsupported("block without terminator")) }
		}
	}
}

type compiler struct {
	e     *Engine
	c     *fnCode
	slots map[ssa.Value]int
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if _, ok := t.(*types.TypeParam); ok {
		panic(unsupported("const of type param"))
	}
	k := kindOf(t)
	switch k.c {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		if k.signed {
			return c.Int64()
		}
		return int64(c.Uint64())
	case kFloat:
		if k.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return f
		}
		return c.Float64()
	case kComplex:
		return c.Complex128()
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	panic(unsupported("const " + c.String()))
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, c: constValue(x)}
	case *ssa.Global:
		return opnd{slot: -1, g: x}
	case *ssa.Function:
		return opnd{slot: -1, c: x}
	case *ssa.Builtin:
		return opnd{slot: -1, c: x}
	}
	s, ok := cc.slots[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %T %v in %s", v, v, cc.c.name)))
	}
	return opnd{slot: s}
}

func (cc *compiler) term(in ssa.Instruction, bi int, b *ssa.BasicBlock) func(fr *frame) int {
	switch x := in.(type) {
	case *ssa.Jump:
		t := b.Succs[0].Index
		return func(fr *frame) int { return t }
	case *ssa.If:
		cond := cc.op(x.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		mg := cc.diamond(b)
		return func(fr *frame) int {
			switch c := cond.get(fr).(type) {
			case bool:
				if c {
					return t
				}
				return f
			case *Term:
				if mg != nil && fr.w.cfg.merge >= 1 {
					if nxt, ok := fr.w.tryMerge(fr, mg, c); ok {
						return nxt
					}
				}
				if fr.w.cfg.merge >= 2 {
					if nxt, ok := fr.w.tryRegion(fr, c); ok {
						return nxt
					}
				}
				if fr.w.branch(c) {
					return t
				}
				return f
			}
			panic(unsupported("if on non-bool"))
		}
	case *ssa.Return:
		var ops []opnd
		for _, r := range x.Results {
			ops = append(ops, cc.op(r))
		}
		switch len(ops) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return -1 }
		case 1:
			return func(fr *frame) int { fr.result = ops[0].get(fr); return -1 }
		}
		return func(fr *frame) int {
			t := make(tuple, len(ops))
			for i := range ops {
				t[i] = ops[i].get(fr)
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		v := cc.op(x.X)
		return func(fr *frame) int {
			panic(targetPanic{v.get(fr)})
		}
	}
	panic("term")
}

func idx64(w *Worker, v value, k kind) value {
	if k.w == 64 {
		return v
	}
	return w.convNum(v, k, kind{kInt, 64, true})
}

var kInt64 = kind{kInt, 64, true}

// boundsCheck returns a concrete index or an in-range term.
func (w *Worker) boundsCheck(v value, n int) (int, *Term) {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			panic(targetPanic{w.rtError(fmt.Sprintf("index out of range [%d] with length %d", i, n))})
		}
		return int(i), nil
	case *Term:
		in := w.andVal(w.intCmp(OSLe, kInt64, int64(0), i), w.intCmp(OSLt, kInt64, i, int64(n)))
		if !w.cond(in) {
			panic(targetPanic{w.rtError(fmt.Sprintf("index out of range [symbolic] with length %d", n))})
		}
		return 0, i
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

func (w *Worker) nilDeref() targetPanic {
	return targetPanic{w.rtErrorT("memoryError", "invalid memory address or nil pointer dereference")}
}

func (w *Worker) load(fr *frame, p value, agg bool) value {
	switch q := p.(type) {
	case *value:
		if q == nil {
			panic(w.nilDeref())
		}
		if w.raceOn {
			w.raceAccess(fr, q, false)
		}
		if agg {
			return copyVal(*q)
		}
		return *q
	case *symPtr:
		return w.loadSym(q)
	case *sliceData:
		return q.s[0]
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (w *Worker) store(fr *frame, p value, v value) {
	switch q := p.(type) {
	case *value:
		if q == nil {
			panic(w.nilDeref())
		}
		if w.raceOn {
			w.raceAccess(fr, q, true)
		}
		storeTo(q, v)
		return
	case *symPtr:
		w.storeSym(q, v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (cc *compiler) ins(in ssa.Instruction) insFn {
	e := cc.e
	d := -1
	if v, ok := in.(ssa.Value); ok {
		d = cc.slots[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		var z value
		func() {
			defer func() {
				if r := recover(); r != nil {
					z = unsupported(fmt.Sprint(r))
				}
			}()
			z = zero(t)
		}()
		if isScalar(t) {
			return func(fr *frame) { c := new(value); *c = z; fr.regs[d] = c }
		}
		return func(fr *frame) { c := new(value); *c = copyVal(z); fr.regs[d] = c }
	case *ssa.UnOp:
		a := cc.op(x.X)
		switch x.Op {
		case token.MUL:
			agg := !isScalar(x.Type())
			return func(fr *frame) {
				p := a.get(fr)
				if q, ok := p.(*value); ok && q != nil && !fr.w.raceOn {
					if agg {
						fr.regs[d] = copyVal(*q)
					} else {
						fr.regs[d] = *q
					}
					return
				}
				fr.regs[d] = fr.w.load(fr, p, agg)
			}
		case token.NOT:
			return func(fr *frame) { fr.regs[d] = fr.w.notVal(a.get(fr)) }
		case token.SUB:
			k := kindOf(x.X.Type())
			switch k.c {
			case kInt:
				return func(fr *frame) { fr.regs[d] = fr.w.intBin(token.SUB, k, int64(0), a.get(fr), k) }
			case kFloat:
				return func(fr *frame) { fr.regs[d] = fr.w.floatNeg(a.get(fr), k.w) }
			}
			return func(fr *frame) {
				c := toSymComplex(a.get(fr))
				fr.regs[d] = normComplex(fr.w.floatNeg(c.re, 64), fr.w.floatNeg(c.im, 64))
			}
		case token.XOR:
			k := kindOf(x.X.Type())
			return func(fr *frame) {
				switch v := a.get(fr).(type) {
				case int64:
					fr.regs[d] = wrapInt(k, ^v)
				case *Term:
					if fr.w.cfg.intMode {
						panic(unsupported("bitwise not in int mode"))
					}
					fr.regs[d] = fr.w.tt.BNot(v)
				}
			}
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) {
				v, ok := fr.w.chanRecv(fr, a.get(fr).(*chanObj), et)
				if commaOk {
					fr.regs[d] = tuple{v, ok}
				} else {
					fr.regs[d] = v
				}
			}
		}
	case *ssa.BinOp:
		a, b := cc.op(x.X), cc.op(x.Y)
		t := x.X.Type()
		if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
			t = x.Y.Type()
		}
		k, yk := kindOf(t), kindOf(x.Y.Type())
		op := x.Op
		switch k.c {
		case kInt:
			return func(fr *frame) { fr.regs[d] = fr.w.intBin(op, k, a.get(fr), b.get(fr), yk) }
		case kFloat:
			return func(fr *frame) { fr.regs[d] = fr.w.floatBin(op, k.w, a.get(fr), b.get(fr)) }
		}
		// mixed interface / concrete comparison
		xi, yi := types.IsInterface(x.X.Type()), types.IsInterface(x.Y.Type())
		if (op == token.EQL || op == token.NEQ) && xi != yi {
			xt, yt := x.X.Type(), x.Y.Type()
			return func(fr *frame) {
				u, v := a.get(fr), b.get(fr)
				if !xi {
					u = iface{xt, u}
				}
				if !yi {
					v = iface{yt, v}
				}
				fr.regs[d] = fr.w.binop(op, t, kind{}, kind{}, u, v)
			}
		}
		return func(fr *frame) { fr.regs[d] = fr.w.binop(op, t, k, yk, a.get(fr), b.get(fr)) }
	case *ssa.Call:
		f := cc.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = f(fr) }
	case *ssa.Defer:
		prep := cc.prepCall(&x.Call)
		return func(fr *frame) {
			fr.w.noMerge()
			fv, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fv, args, &x.Call})
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.w.noMerge(); fr.w.runDefers(fr) }
	case *ssa.Go:
		prep := cc.prepCall(&x.Call)
		return func(fr *frame) {
			fr.w.noMerge()
			fv, args := prep(fr)
			fr.w.spawn(fr, fv, args)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		a := cc.op(*in.Operands(nil)[0])
		return func(fr *frame) { fr.regs[d] = a.get(fr) }
	case *ssa.Convert:
		return cc.convert(d, cc.op(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return cc.convert(d, cc.op(x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		a := cc.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := a.get(fr).([]value)
			if len(s) < n {
				panic(targetPanic{fr.w.rtError("cannot convert slice to array pointer")})
			}
			c := new(value)
			*c = arrayV(s[:n:n])
			fr.regs[d] = c
		}
	case *ssa.MakeClosure:
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, cc.op(b))
		}
		fn := x.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[d] = &closure{fn, env}
		}
	case *ssa.MakeInterface:
		a := cc.op(x.X)
		t := x.X.Type()
		agg := !isScalar(t)
		return func(fr *frame) {
			v := a.get(fr)
			if agg {
				v = copyVal(v)
			}
			fr.regs[d] = iface{t, v}
		}
	case *ssa.MakeChan:
		a := cc.op(x.Size)
		return func(fr *frame) {
			n := fr.w.concInt(a.get(fr))
			if n < 0 {
				panic(targetPanic{fr.w.rtError("makechan: size out of range")})
			}
			fr.regs[d] = fr.w.newChan(int(n))
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[d] = newMap() }
	case *ssa.MakeSlice:
		l, cp := cc.op(x.Len), cc.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n, c := fr.w.concInt(l.get(fr)), fr.w.concInt(cp.get(fr))
			if n < 0 || n > 1<<40 {
				panic(targetPanic{fr.w.rtError("makeslice: len out of range")})
			}
			if c < n {
				panic(targetPanic{fr.w.rtError("makeslice: cap out of range")})
			}
			if c > 1<<26 {
				panic(unsupported(fmt.Sprintf("slice of %d elements", c)))
			}
			fr.regs[d] = makeSlice(et, int(n), int(c))
		}
	case *ssa.Extract:
		a := cc.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[d] = a.get(fr).(tuple)[i] }
	case *ssa.Field:
		a := cc.op(x.X)
		i := x.Field
		return func(fr *frame) { fr.regs[d] = copyVal(a.get(fr).(structure)[i]) }
	case *ssa.FieldAddr:
		a := cc.op(x.X)
		i := x.Field
		return func(fr *frame) {
			switch p := a.get(fr).(type) {
			case *value:
				if p == nil {
					panic(fr.w.nilDeref())
				}
				s, ok := (*p).(structure)
				if !ok {
					panic(unsupported(fmt.Sprintf("field address in %T (%v)", *p, x.X.Type())))
				}
				fr.regs[d] = &s[i]
			case *symPtr:
				s := (*p.resolve()).(structure)
				fr.regs[d] = &s[i]
			default:
				panic(unsupported(fmt.Sprintf("FieldAddr of %T", p)))
			}
		}
	case *ssa.Index:
		a, b := cc.op(x.X), cc.op(x.Index)
		ik := kindOf(x.Index.Type())
		et := x.Type()
		return func(fr *frame) {
			w := fr.w
			i := idx64(w, b.get(fr), ik)
			switch s := a.get(fr).(type) {
			case arrayV:
				ci, si := w.boundsCheck(i, len(s))
				if si != nil {
					fr.regs[d] = w.loadSym(&symPtr{base: s, idx: si, elem: et, w: w})
				} else {
					fr.regs[d] = copyVal(s[ci])
				}
			case string, *symStr:
				fr.regs[d] = w.strIndex(s, i)
			default:
				panic(unsupported(fmt.Sprintf("Index of %T", s)))
			}
		}
	case *ssa.IndexAddr:
		a, b := cc.op(x.X), cc.op(x.Index)
		ik := kindOf(x.Index.Type())
		et := x.Type().Underlying().(*types.Pointer).Elem()
		scal := isScalar(et)
		return func(fr *frame) {
			w := fr.w
			i := idx64(w, b.get(fr), ik)
			var s []value
			switch p := a.get(fr).(type) {
			case []value:
				s = p
			case *value:
				if p == nil {
					panic(w.nilDeref())
				}
				s = (*p).(arrayV)
			case *symPtr:
				s = (*p.resolve()).(arrayV)
			default:
				panic(unsupported(fmt.Sprintf("IndexAddr of %T", p)))
			}
			ci, si := w.boundsCheck(i, len(s))
			if si == nil {
				fr.regs[d] = &s[ci]
				return
			}
			if scal && (len(s) <= w.cfg.iteMax && !w.raceOn || len(tableRuns(s)) > 0) {
				fr.regs[d] = &symPtr{base: s, idx: si, elem: et, w: w}
				return
			}
			fr.regs[d] = &s[int(w.concretize(si, kInt64).(int64))]
		}
	case *ssa.Lookup:
		a, b := cc.op(x.X), cc.op(x.Index)
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			z := zero(m.Elem())
			commaOk := x.CommaOk
			return func(fr *frame) {
				mo, _ := a.get(fr).(*mapObj)
				if fr.w.raceOn && mo != nil {
					fr.w.raceAccess(fr, &mo.cell, false)
				}
				i := fr.w.mapFind(mo, b.get(fr))
				var v value
				if i >= 0 {
					v = copyVal(mo.ents[i].v)
				} else {
					v = copyVal(z)
				}
				if commaOk {
					fr.regs[d] = tuple{v, i >= 0}
				} else {
					fr.regs[d] = v
				}
			}
		}
		ik := kindOf(x.Index.Type())
		return func(fr *frame) {
			fr.regs[d] = fr.w.strIndex(a.get(fr), idx64(fr.w, b.get(fr), ik))
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		return func(fr *frame) {
			fr.w.noMerge()
			mo := m.get(fr).(*mapObj)
			if mo == nil {
				panic(targetPanic{fr.w.rtErrorT("plainError", "assignment to entry in nil map")})
			}
			if fr.w.raceOn {
				fr.w.raceAccess(fr, &mo.cell, true)
			}
			fr.w.mapSet(mo, k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.Range:
		a := cc.op(x.X)
		fork := cc.c.repo
		return func(fr *frame) {
			switch m := a.get(fr).(type) {
			case *mapObj:
				it := &mapIter{m: m, fork: fork}
				if m != nil {
					if fr.w.raceOn {
						fr.w.raceAccess(fr, &m.cell, false)
					}
					for i, en := range m.ents {
						if !en.dead {
							it.rest = append(it.rest, i)
						}
					}
				}
				fr.regs[d] = it
			case string, *symStr:
				fr.regs[d] = &strIter{s: m}
			default:
				panic(unsupported(fmt.Sprintf("range over %T", m)))
			}
		}
	case *ssa.Next:
		a := cc.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		zk, zv := safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())
		return func(fr *frame) {
			fr.w.noMerge()
			switch it := a.get(fr).(type) {
			case *mapIter:
				fr.regs[d] = it.next(fr.w, zk, zv)
			case *strIter:
				fr.regs[d] = it.next(fr)
			}
		}
	case *ssa.Select:
		return cc.selectIns(x, d)
	case *ssa.Send:
		c, v := cc.op(x.Chan), cc.op(x.X)
		return func(fr *frame) { fr.w.chanSend(fr, c.get(fr).(*chanObj), copyVal(v.get(fr))) }
	case *ssa.Slice:
		a := cc.op(x.X)
		var lo, hi, mx *opnd
		mk := func(v ssa.Value) *opnd {
			if v == nil {
				return nil
			}
			o := cc.op(v)
			return &o
		}
		lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
		return func(fr *frame) { fr.regs[d] = fr.w.slice(fr, a.get(fr), lo, hi, mx) }
	case *ssa.Store:
		a, b := cc.op(x.Addr), cc.op(x.Val)
		vt := x.Val.Type()
		return func(fr *frame) {
			if fr.w.regionDepth > 0 {
				if p, ok := a.get(fr).(*value); ok && p != nil {
					fr.w.logStore(p, b.get(fr), vt)
					return
				}
			}
			fr.w.store(fr, a.get(fr), b.get(fr))
		}
	case *ssa.TypeAssert:
		a := cc.op(x.X)
		at := x.AssertedType
		commaOk := x.CommaOk
		isI := types.IsInterface(at)
		z := zero(at)
		return func(fr *frame) {
			v, ok := a.get(fr).(iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("type assert on %T", a.get(fr))))
			}
			res := false
			var r value
			if v.t != nil {
				if isI {
					res = e.implements(v.t, at)
					r = v
				} else {
					res = types.Identical(v.t, at)
					r = v.v
				}
			}
			if !res {
				r = copyVal(z)
				if !commaOk {
					ts := "nil"
					if v.t != nil {
						ts = v.t.String()
					}
					panic(targetPanic{fr.w.rtError(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, at))})
				}
			} else {
				r = copyVal(r)
			}
			if commaOk {
				fr.regs[d] = tuple{r, res}
			} else {
				fr.regs[d] = r
			}
		}
	}
	msg := fmt.Sprintf("instruction %T %v in %s", in, in, cc.c.name)
	return func(fr *frame) { panic(unsupported(msg)) }
}

func safeZero(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func makeSlice(et types.Type, n, c int) []value {
	s := make([]value, c)
	if isScalar(et) {
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	} else {
		for i := range s {
			s[i] = zero(et)
		}
	}
	return s[:n]
}

func (w *Worker) strIndex(s value, i value) value {
	n := strLen(s)
	ci, si := w.boundsCheck(i, n)
	if si == nil {
		return strAt(s, ci)
	}
	if n <= w.cfg.iteMax {
		return w.loadSym(&symPtr{base: strBytes(s), idx: si, elem: types.Typ[types.Uint8], w: w})
	}
	return strAt(s, int(w.concretize(si, kInt64).(int64)))
}

func (w *Worker) concInt(v value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return w.concretize(x, kInt64).(int64)
	}
	panic(unsupported(fmt.Sprintf("concInt %T", v)))
}

func (w *Worker) slice(fr *frame, x value, lo, hi, mx *opnd) value {
	get := func(o *opnd, def int) int {
		if o == nil {
			return def
		}
		return int(w.concInt(o.get(fr)))
	}
	switch s := x.(type) {
	case string, *symStr:
		n := strLen(s)
		l, h := get(lo, 0), get(hi, n)
		if h < 0 || h > n || l < 0 || l > h {
			panic(targetPanic{w.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))})
		}
		return strSlice(s, l, h)
	case []value:
		l, h, m := get(lo, 0), get(hi, len(s)), get(mx, cap(s))
		if m < 0 || m > cap(s) || h < 0 || h > m || l < 0 || l > h {
			panic(targetPanic{w.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(s)))})
		}
		if s == nil {
			return s
		}
		return s[l:h:m]
	case *value:
		if s == nil {
			panic(w.nilDeref())
		}
		a := (*s).(arrayV)
		l, h, m := get(lo, 0), get(hi, len(a)), get(mx, len(a))
		if m < 0 || m > len(a) || h < 0 || h > m || l < 0 || l > h {
			panic(targetPanic{w.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, len(a)))})
		}
		return []value(a)[l:h:m]
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

type mapIter struct {
	m    *mapObj
	rest []int
	fork bool
}

func (it *mapIter) next(w *Worker, zk, zv value) value {
	if it.m == nil {
		return tuple{false, zk, zv}
	}
	live := it.rest[:0]
	for _, i := range it.rest {
		if !it.m.ents[i].dead {
			live = append(live, i)
		}
	}
	it.rest = live
	if len(live) == 0 {
		return tuple{false, zk, zv}
	}
	c := 0
	if it.fork && len(live) > 1 && w.cfg.mapFork > 1 {
		n := len(live)
		if n > w.cfg.mapFork {
			n = w.cfg.mapFork
			w.note("map iteration order explored for the first " + fmt.Sprint(n) + " candidates only")
		}
		c = w.choose(n, "maporder")
	}
	e := it.m.ents[live[c]]
	it.rest = append(append([]int(nil), live[:c]...), live[c+1:]...)
	return tuple{true, copyVal(e.k), copyVal(e.v)}
}

type strIter struct {
	s value
	i int
}

func (it *strIter) next(fr *frame) value {
	w := fr.w
	n := strLen(it.s)
	if it.i >= n {
		return tuple{false, int64(0), int64(0)}
	}
	i := it.i
	r, sz := w.decodeRune(it.s, i)
	it.i += sz
	return tuple{true, int64(i), r}
}

// decodeRune decodes one rune at position i, forking on symbolic lead bytes.
func (w *Worker) decodeRune(s value, i int) (value, int) {
	n := strLen(s)
	if str, ok := s.(string); ok {
		r, sz := utf8.DecodeRuneInString(str[i:])
		return int64(r), sz
	}
	b0 := strAt(s, i)
	k8 := kind{kInt, 8, false}
	k32 := kind{kInt, 32, true}
	if t, ok := b0.(*Term); ok {
		if w.cond(w.intCmp(OULt, k8, t, int64(0x80))) {
			return w.convNum(t, k8, k32), 1
		}
	} else if b0.(int64) < 0x80 {
		return b0, 1
	}
	// multi-byte: concretise up to four bytes
	var buf []byte
	for j := i; j < n && j < i+4; j++ {
		b := strAt(s, j)
		if t, ok := b.(*Term); ok {
			b = w.concretize(t, k8)
		}
		buf = append(buf, byte(b.(int64)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	return int64(r), sz
}

func (w *Worker) encodeRune(v value) value {
	switch r := v.(type) {
	case int64:
		return string(rune(int32(r)))
	case *Term:
		k32 := kind{kInt, 32, true}
		if w.cond(w.andVal(w.intCmp(OSLe, k32, int64(0), r), w.intCmp(OSLt, k32, r, int64(0x80)))) {
			return mkStr([]value{w.convNum(r, k32, kind{kInt, 8, false})})
		}
		if w.cond(w.andVal(w.intCmp(OSLe, k32, int64(0x80), r), w.intCmp(OSLt, k32, r, int64(0x800)))) {
			hi := w.intBin(token.ADD, k32, w.intBin(token.QUO, k32, r, int64(64), k32), int64(0xc0), k32)
			lo := w.intBin(token.ADD, k32, w.intBin(token.REM, k32, r, int64(64), k32), int64(0x80), k32)
			k8 := kind{kInt, 8, false}
			return mkStr([]value{w.convNum(hi, k32, k8), w.convNum(lo, k32, k8)})
		}
		c := w.concretize(r, k32)
		return string(rune(int32(c.(int64))))
	}
	panic(unsupported("encodeRune"))
}

func (cc *compiler) convert(d int, a opnd, from, to types.Type) insFn {
	fu, tu := from.Underlying(), to.Underlying()
	fk, tk := kindOf(from), kindOf(to)
	num := func(c kclass) bool { return c == kInt || c == kFloat || c == kComplex }
	if num(fk.c) && num(tk.c) {
		if fk == tk {
			return func(fr *frame) { fr.regs[d] = a.get(fr) }
		}
		return func(fr *frame) { fr.regs[d] = fr.w.convNum(a.get(fr), fk, tk) }
	}
	if tk.c == kString {
		if fk.c == kInt {
			return func(fr *frame) {
				v := fr.w.convNum(a.get(fr), fk, kInt64)
				if x, ok := v.(int64); ok {
					if x < 0 || x > 0x10ffff {
						x = 0xfffd
					}
					fr.regs[d] = string(rune(x))
					return
				}
				k32 := kind{kInt, 32, true}
				fr.regs[d] = fr.w.encodeRune(fr.w.convNum(a.get(fr), fk, k32))
			}
		}
		if sl, ok := fu.(*types.Slice); ok {
			ek := kindOf(sl.Elem())
			if ek.w == 8 {
				return func(fr *frame) {
					b := a.get(fr).([]value)
					if fr.w.raceOn {
						fr.w.raceSlice(fr, b, false)
					}
					fr.regs[d] = mkStr(b)
				}
			}
			return func(fr *frame) {
				var r value = ""
				for _, x := range a.get(fr).([]value) {
					r = strConcat(r, fr.w.encodeRune(x))
				}
				fr.regs[d] = r
			}
		}
		if fk.c == kString {
			return func(fr *frame) { fr.regs[d] = a.get(fr) }
		}
	}
	if fk.c == kString {
		if sl, ok := tu.(*types.Slice); ok {
			if kindOf(sl.Elem()).w == 8 {
				return func(fr *frame) {
					b := strBytes(a.get(fr))
					c := make([]value, len(b))
					copy(c, b)
					fr.regs[d] = c
				}
			}
			return func(fr *frame) {
				s := a.get(fr)
				var out []value = []value{}
				for i := 0; i < strLen(s); {
					r, sz := fr.w.decodeRune(s, i)
					out = append(out, r)
					i += sz
				}
				fr.regs[d] = out
			}
		}
	}
	// pointers and unsafe.Pointer pass through
	return func(fr *frame) { fr.regs[d] = a.get(fr) }
}

// ---- calls

func (cc *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) (value, []value) {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, cc.op(a))
	}
	agg := make([]bool, len(c.Args))
	for i, a := range c.Args {
		agg[i] = !isScalar(a.Type())
	}
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		m := c.Method
		return func(fr *frame) (value, []value) {
			r, ok := recv.get(fr).(iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("invoke on %T", recv.get(fr))))
			}
			if r.t == nil {
				panic(fr.w.nilDeref())
			}
			fn := fr.w.eng.method(r.t, m)
			as := make([]value, 0, len(args)+1)
			as = append(as, r.v)
			for i := range args {
				v := args[i].get(fr)
				if agg[i] {
					v = copyVal(v)
				}
				as = append(as, v)
			}
			return fn, as
		}
	}
	f := cc.op(c.Value)
	return func(fr *frame) (value, []value) {
		as := make([]value, len(args))
		for i := range args {
			v := args[i].get(fr)
			if agg[i] {
				v = copyVal(v)
			}
			as[i] = v
		}
		return f.get(fr), as
	}
}

func (cc *compiler) call(c *ssa.CallCommon) func(fr *frame) value {
	prep := cc.prepCall(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return func(fr *frame) value {
			_, args := prep(fr)
			return fr.w.builtin(fr, b, c, args)
		}
	}
	return func(fr *frame) value {
		f, args := prep(fr)
		return fr.w.call(fr, f, args, c)
	}
}

func (w *Worker) call(fr *frame, f value, args []value, c *ssa.CallCommon) value {
	switch x := f.(type) {
	case *ssa.Function:
		if x == nil {
			panic(w.nilDeref())
		}
		return w.callFn(fr, x, args, nil)
	case *closure:
		return w.callFn(fr, x.fn, args, x.env)
	case *boundNative:
		return x.f(fr, args)
	case *ssa.Builtin:
		return w.builtin(fr, x, c, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

const maxDepth = 400

func (w *Worker) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	code := w.eng.code(fn)
	if w.noFork > 0 && (code.intr != nil && !code.pure || code.hasDefer) {
		panic(mergeFail{})
	}
	if code.intr != nil {
		return code.intr(caller, args)
	}
	if code.try != nil {
		if v, ok := code.try(caller, args); ok {
			return v
		}
	}
	if code.err != "" {
		panic(unsupported(code.err))
	}
	if atomic.LoadInt32(&code.touched) == 0 {
		atomic.StoreInt32(&code.touched, 1)
	}
	fr := &frame{w: w, code: code, caller: caller}
	if caller != nil {
		fr.g = caller.g
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(unsupported("call depth limit in " + code.name))
		}
	}
	fr.regs = make([]value, code.nslots)
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("argument count for %s: %d vs %d", code.name, len(args), len(fn.Params))))
	}
	if !code.hasDefer {
		w.exec(fr)
		return fr.result
	}
	tp := w.tryExec(fr)
	for tp != nil {
		fr.panicking = true
		fr.panicV = tp
		w.runDefersPanic(fr)
		if fr.panicking {
			panic(*fr.panicV)
		}
		if code.recover_ < 0 {
			// no named results: zero values
			return zeroResults(fn)
		}
		fr.block = code.recover_
		tp = w.tryExec(fr)
	}
	return fr.result
}

func zeroResults(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	t := make(tuple, r.Len())
	for i := range t {
		t[i] = zero(r.At(i).Type())
	}
	return t
}

func (w *Worker) tryExec(fr *frame) (tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(targetPanic); ok {
				tp = &t
				return
			}
			rethrow(r)
		}
	}()
	w.exec(fr)
	return nil
}

func rethrow(r any) {
	switch r.(type) {
	case pathEnd, unsupportedErr, targetPanic, fatalErr, hostPanic, killG, mergeFail:
		panic(r)
	}
	panic(hostPanic{r, string(debug.Stack())})
}

type hostPanic struct {
	r     any
	stack string
}

func (w *Worker) tryCall(fr *frame, d deferred) (tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(targetPanic); ok {
				tp = &t
				return
			}
			rethrow(r)
		}
	}()
	w.call(fr, d.f, d.args, d.call)
	return nil
}

// runDefers runs deferred calls on the normal return path.
func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.call(fr, d.f, d.args, d.call)
	}
}

func (w *Worker) runDefersPanic(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if tp := w.tryCall(fr, d); tp != nil {
			fr.panicking = true
			fr.panicV = tp
		}
	}
}

func (w *Worker) exec(fr *frame) {
	for w.execBlock(fr) {
	}
}

// execBlock runs the current block; it returns false when the function has returned.
func (w *Worker) execBlock(fr *frame) bool {
	code := fr.code
	{
		b := &code.blocks[fr.block]
		w.cur = fr
		if fr.skipPhi {
			fr.skipPhi = false
		} else if len(b.phis) > 0 {
			e := b.preds[fr.prev]
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edges[e].get(fr)
			} else {
				var tmp [8]value
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, b.phis[i].edges[e].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		w.steps += b.n
		if w.steps > w.stepLimit {
			panic(pathEnd{kind: endSteps, msg: "step limit reached in " + w.stackTrace(fr)})
		}
		for i, f := range b.ins {
			fr.pc = i
			f(fr)
		}
		fr.pc = len(b.ins)
		nx := b.term(fr)
		if nx < 0 {
			return false
		}
		fr.prev = fr.block
		fr.block = nx
	}
	return true
}

// ---- builtins

func growCap(old, need int, esz int64) int {
	newcap := old
	double := old + old
	if need > double {
		newcap = need
	} else if old < 256 {
		newcap = double
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return newcap
	}
	bytes := int64(newcap) * esz
	if bytes < 1<<20 {
		r := cap(append([]byte(nil), make([]byte, bytes)...))
		newcap = int(int64(r) / esz)
	}
	return newcap
}

func (w *Worker) appendVals(s []value, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			if w.regionDepth > 0 {
				w.logStore(&r[len(s)+i], v, et)
				continue
			}
			storeTo(&r[len(s)+i], v)
		}
		return r
	}
	c := growCap(cap(s), n, w.eng.sizes.Sizeof(et))
	if c < n {
		c = n
	}
	r := make([]value, n, c)
	agg := !isScalar(et)
	if agg {
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = zero(et)
		}
	} else {
		copy(r, s)
		copy(r[len(s):], add)
		if c > n {
			z := zero(et)
			full := r[:c]
			for i := n; i < c; i++ {
				full[i] = z
			}
		}
	}
	return r
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string, *symStr:
			add = strBytes(y)
		default:
			panic(unsupported(fmt.Sprintf("append of %T", y)))
		}
		if len(add) == 0 {
			return s
		}
		if w.raceOn {
			w.raceSlice(fr, add, false)
			if len(s)+len(add) <= cap(s) {
				w.raceSlice(fr, s[len(s):len(s)+len(add)], true)
			} else {
				w.raceSlice(fr, s, false)
			}
		}
		if len(add) > 1 && cap(s) > len(s) { // possible overlap
			add = append([]value(nil), add...)
		}
		return w.appendVals(s, add, et)
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		default:
			src = strBytes(y)
		}
		n := min(len(dst), len(src))
		if w.regionDepth > 0 && n > 0 {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			tmp := make([]value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				w.logStore(&dst[i], tmp[i], et)
			}
			return int64(n)
		}
		if w.raceOn {
			w.raceSlice(fr, src[:n], false)
			w.raceSlice(fr, dst[:n], true)
		}
		if n > 0 {
			switch src[0].(type) {
			case structure, arrayV:
				tmp := make([]value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					storeTo(&dst[i], tmp[i])
				}
			default:
				copy(dst, src[:n])
			}
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *symStr:
			return int64(strLen(x))
		case []value:
			return int64(len(x))
		case *mapObj:
			if x == nil {
				return int64(0)
			}
			if w.raceOn {
				w.raceAccess(fr, &x.cell, false)
			}
			return int64(x.live)
		case *chanObj:
			if x == nil {
				return int64(0)
			}
			w.yield(fr, "len")
			return int64(len(x.buf))
		case arrayV:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayV)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case *chanObj:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		case arrayV:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayV)))
		}
	case "delete":
		w.noMerge()
		m := args[0].(*mapObj)
		if w.raceOn && m != nil {
			w.raceAccess(fr, &m.cell, true)
		}
		w.mapDelete(m, args[1])
		return nil
	case "clear":
		w.noMerge()
		switch x := args[0].(type) {
		case *mapObj:
			if x != nil {
				x.ents, x.index, x.sym, x.live = nil, map[any]int{}, 0, 0
			}
		case []value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if w.raceOn {
				w.raceSlice(fr, x, true)
			}
			for i := range x {
				storeTo(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		w.chanClose(fr, args[0].(*chanObj))
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return w.doRecover(fr)
	case "min", "max":
		k := kindOf(c.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			r = w.minmax(b.Name() == "min", k, r, a)
		}
		return r
	case "real":
		return toSymComplex(args[0]).re
	case "imag":
		return toSymComplex(args[0]).im
	case "complex":
		return normComplex(args[0], args[1])
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(w.nilDeref())
		}
		return args[0]
	case "SliceData":
		return &sliceData{args[0].([]value)}
	case "StringData":
		return &strData{args[0]}
	case "String":
		n := int(w.concInt(args[1]))
		switch x := args[0].(type) {
		case *sliceData:
			return mkStr(x.s[:n])
		case *value:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkStr([]value{*x})
			}
		}
	case "Slice":
		n := int(w.concInt(args[1]))
		switch x := args[0].(type) {
		case *sliceData:
			return x.s[:n]
		case *strData:
			return append([]value(nil), strBytes(x.s)[:n]...)
		case *value:
			if x == nil {
				return []value(nil)
			}
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args)))
}

func (w *Worker) minmax(isMin bool, k kind, a, b value) value {
	var lt value
	switch k.c {
	case kInt:
		lt = w.intBin(token.LSS, k, a, b, k)
	case kFloat:
		if x, ok := a.(float64); ok {
			if y, ok := b.(float64); ok {
				if isMin {
					return min(x, y)
				}
				return max(x, y)
			}
		}
		if x, ok := a.(float32); ok {
			if y, ok := b.(float32); ok {
				if isMin {
					return min(x, y)
				}
				return max(x, y)
			}
		}
		if !w.cfg.realMode {
			for _, v := range []value{a, b} {
				if w.cond(w.notVal(w.floatCmp(OFEq, v, v, k.w))) {
					return v
				}
			}
		}
		lt = w.floatBin(token.LSS, k.w, a, b)
	case kString:
		lt = w.ltStr(a, b)
	default:
		panic(unsupported("min/max kind"))
	}
	if !isMin {
		a, b = b, a
		// max(a,b): if orig a<b then b; now a is orig b
	}
	switch c := lt.(type) {
	case bool:
		if c {
			return a
		}
		return b
	case *Term:
		if k.c == kInt {
			return w.tt.Ite(c, w.toInt(a, k), w.toInt(b, k))
		}
		if k.c == kFloat {
			return w.tt.Ite(c, w.toFloat(a, k.w), w.toFloat(b, k.w))
		}
		if w.branch(c) {
			return a
		}
		return b
	}
	panic("minmax")
}

func (w *Worker) doRecover(fr *frame) value {
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		v := c.panicV.v
		c.panicV = nil
		if v == nil {
			return iface{}
		}
		return v
	}
	return iface{}
}

// ---- types

type implKey struct{ t, i types.Type }

func (e *Engine) implements(t, i types.Type) bool {
	k := implKey{t, i}
	if r, ok := e.implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	e.implCache.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := e.methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.methMu.Lock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methMu.Unlock()
	if f == nil {
		panic(unsupported(fmt.Sprintf("method %s of %v not found", m.Name(), t)))
	}
	e.methCache.Store(k, f)
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// rtError builds a runtime.Error value.
func (w *Worker) rtError(msg string) value {
	return w.rtErrorT("errorString", strings.TrimPrefix(msg, "runtime error: "))
}

func (w *Worker) rtErrorT(kind, msg string) value {
	t := w.eng.rtErrType
	if t == nil {
		return iface{types.Typ[types.String], "runtime error: " + msg}
	}
	return iface{t, msg}
}

func debugf(format string, a ...any) {
	if *flagV {
		fmt.Fprintf(os.Stderr, format, a...)
	}
}
