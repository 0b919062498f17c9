package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// constLike lifts a canonical int64 to a constant of the given sort.
func (w *Worker) constLike(x int64, s Sort) *Term {
	if s == SInt {
		return w.tt.Intc(x)
	}
	if s.isBV() {
		return w.tt.BVc(uint64(x), s.width())
	}
	panic(unsupported(fmt.Sprintf("int constant of sort %v", s)))
}

func (w *Worker) toInt(v value, k kind) *Term {
	switch x := v.(type) {
	case int64:
		if w.cfg.intMode {
			if !k.signed && k.w == 64 && x < 0 {
				r := new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(x)))
				return w.tt.Ratc(r, SInt)
			}
			return w.tt.Intc(x)
		}
		return w.tt.BVc(uint64(x), k.w)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toInt %T", v)))
}

func (w *Worker) toBool(v value) *Term {
	switch x := v.(type) {
	case bool:
		return w.tt.Bool(x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toBool %T", v)))
}

func (w *Worker) toFloat(v value, bits int) *Term {
	switch x := v.(type) {
	case float64:
		if w.cfg.realMode {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				panic(unsupported("NaN/Inf constant in real mode"))
			}
			return w.tt.Ratc(new(big.Rat).SetFloat64(x), SReal)
		}
		return w.tt.F64c(x)
	case float32:
		if w.cfg.realMode {
			return w.tt.Ratc(new(big.Rat).SetFloat64(float64(x)), SReal)
		}
		return w.tt.F32c(x)
	case *Term:
		return x
	}
	panic(unsupported(fmt.Sprintf("toFloat %T", v)))
}

// ---- integers

func (w *Worker) intBin(op token.Token, k kind, x, y value, yk kind) value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return wrapInt(k, a+b)
		case token.SUB:
			return wrapInt(k, a-b)
		case token.MUL:
			return wrapInt(k, a*b)
		case token.QUO:
			if b == 0 {
				panic(targetPanic{w.rtError("runtime error: integer divide by zero")})
			}
			if k.signed {
				if b == -1 {
					return wrapInt(k, -a)
				}
				return wrapInt(k, a/b)
			}
			return wrapInt(k, int64(uint64(a)/uint64(b)))
		case token.REM:
			if b == 0 {
				panic(targetPanic{w.rtError("runtime error: integer divide by zero")})
			}
			if k.signed {
				if b == -1 {
					return int64(0)
				}
				return a % b
			}
			return wrapInt(k, int64(uint64(a)%uint64(b)))
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return wrapInt(k, a^b)
		case token.AND_NOT:
			return wrapInt(k, a&^b)
		case token.SHL, token.SHR:
			if yk.signed && b < 0 {
				panic(targetPanic{w.rtError("runtime error: negative shift amount")})
			}
			n := uint64(b)
			if op == token.SHL {
				if n >= 64 {
					return int64(0)
				}
				return wrapInt(k, a<<n)
			}
			if k.signed {
				if n >= 64 {
					n = 63
				}
				return a >> n
			}
			if n >= 64 {
				return int64(0)
			}
			return int64(uint64(a) >> n)
		case token.LSS:
			if k.signed {
				return a < b
			}
			return uint64(a) < uint64(b)
		case token.LEQ:
			if k.signed {
				return a <= b
			}
			return uint64(a) <= uint64(b)
		case token.GTR:
			if k.signed {
				return a > b
			}
			return uint64(a) > uint64(b)
		case token.GEQ:
			if k.signed {
				return a >= b
			}
			return uint64(a) >= uint64(b)
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
		panic(unsupported("int op " + op.String()))
	}
	switch op {
	case token.LSS:
		return w.intCmp(OSLt, k, x, y)
	case token.LEQ:
		return w.intCmp(OSLe, k, x, y)
	case token.GTR:
		return w.intCmp(OSLt, k, y, x)
	case token.GEQ:
		return w.intCmp(OSLe, k, y, x)
	case token.EQL:
		return w.eqVal(x, y)
	case token.NEQ:
		return w.notVal(w.eqVal(x, y))
	}
	tt := w.tt
	p := w.toInt(x, k)
	if op == token.SHL || op == token.SHR {
		if ok2 {
			if yk.signed && b < 0 {
				panic(targetPanic{w.rtError("runtime error: negative shift amount")})
			}
			if w.cfg.intMode {
				if uint64(b) >= 64 {
					if op == token.SHL || !k.signed {
						return int64(0)
					}
					b = 63
				}
				f := tt.Ratc(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b))), SInt)
				if op == token.SHL {
					return w.wrapI(tt.IMul(p, f), k)
				}
				return w.normInt(tt.IDivF(p, f), k)
			}
			n := uint64(b)
			if n > uint64(k.w) {
				n = uint64(k.w)
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if k.signed {
					o = OAShr
					if n >= uint64(k.w) {
						n = uint64(k.w - 1)
					}
				}
			}
			if n >= uint64(k.w) {
				return int64(0)
			}
			return w.normInt(tt.BVop(o, p, tt.BVc(n, k.w)), k)
		}
		if w.cfg.intMode {
			n := w.concretize(y.(*Term), yk)
			return w.intBin(op, k, x, n, yk)
		}
		q := y.(*Term)
		if yk.signed && w.cond(w.norm(tt.Cmp(OSLt, q, tt.BVc(0, yk.w)))) {
			panic(targetPanic{w.rtError("runtime error: negative shift amount")})
		}
		big := w.norm(tt.Cmp(OULe, tt.BVc(uint64(k.w), yk.w), q))
		if k.w <= 255 || yk.w > 8 {
			if w.cond(big) {
				if op == token.SHL || !k.signed {
					return int64(0)
				}
				return w.normInt(tt.BVop(OAShr, p, tt.BVc(uint64(k.w-1), k.w)), k)
			}
		}
		if q.sort.width() > k.w {
			q = tt.Extract(q, k.w-1, 0)
		} else {
			q = tt.ZExt(q, k.w)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if k.signed {
				o = OAShr
			}
		}
		return w.normInt(tt.BVop(o, p, q), k)
	}
	q := w.toInt(y, k)
	if op == token.QUO || op == token.REM {
		if !ok2 || b == 0 {
			if w.cond(w.eqVal(y, int64(0))) {
				panic(targetPanic{w.rtError("runtime error: integer divide by zero")})
			}
		}
	}
	if w.cfg.intMode {
		switch op {
		case token.ADD:
			return w.wrapI(tt.IAdd(p, q), k)
		case token.SUB:
			return w.wrapI(tt.ISub(p, q), k)
		case token.MUL:
			return w.wrapI(tt.IMul(p, q), k)
		case token.QUO, token.REM:
			// truncated division
			z := tt.Intc(0)
			var quo *Term
			if q.isConst() && q.r.Sign() > 0 {
				if p.lo != nil && p.lo.Sign() >= 0 {
					quo = tt.IDivF(p, q)
					if op == token.REM {
						return w.normInt(tt.IModF(p, q), k)
					}
				} else {
					quo = tt.Ite(tt.ICmp(OILe, z, p), tt.IDivF(p, q), tt.INeg(tt.IDivF(tt.INeg(p), q)))
					if op == token.REM {
						return w.normInt(tt.Ite(tt.ICmp(OILe, z, p), tt.IModF(p, q), tt.INeg(tt.IModF(tt.INeg(p), q))), k)
					}
				}
			} else {
				// general: divide absolute values
				ap := tt.Ite(tt.ICmp(OILe, z, p), p, tt.INeg(p))
				aq := tt.Ite(tt.ICmp(OILe, z, q), q, tt.INeg(q))
				d := tt.IDivF(ap, aq)
				same := tt.Eq(tt.ICmp(OILe, z, p), tt.ICmp(OILe, z, q))
				quo = tt.Ite(same, d, tt.INeg(d))
				if op == token.REM {
					m := tt.IModF(ap, aq)
					return w.normInt(tt.Ite(tt.ICmp(OILe, z, p), m, tt.INeg(m)), k)
				}
			}
			return w.wrapI(quo, k)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if ok1 && op != token.AND_NOT {
				p, q = q, p
				a, b = b, a
				ok1, ok2 = ok2, ok1
			}
			if !ok1 && !ok2 && op == token.AND && p.lo != nil && q.lo != nil && p.lo.Sign() >= 0 && q.lo.Sign() >= 0 {
				// not more than the smaller one
				hi := p.hi
				if hi == nil || q.hi != nil && q.hi.Cmp(hi) < 0 {
					hi = q.hi
				}
				if hi != nil {
					r := w.freshVar(fmt.Sprintf("and[0,%v]", hi), SInt)
					r.lo, r.hi = ratZero, hi
					w.addPC(tt.ICmp(OILe, tt.Intc(0), r))
					w.addPC(tt.ICmp(OILe, r, p))
					w.addPC(tt.ICmp(OILe, r, q))
					w.modelStale = true
					return w.normInt(r, k)
				}
			}
			if ok2 && (!k.signed || b >= 0) {
				// x & b: the runs of ones in b
				and := tt.Intc(0)
				u := uint64(b) & mask(k.w)
				pow := func(n int) *Term {
					return tt.Ratc(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))), SInt)
				}
				for i := 0; i < k.w; {
					if u>>uint(i)&1 == 0 {
						i++
						continue
					}
					j := i
					for j < k.w && u>>uint(j)&1 == 1 {
						j++
					}
					part := p
					if i > 0 {
						part = tt.IDivF(part, pow(i))
					}
					and = tt.IAdd(and, tt.IMul(tt.IModF(part, pow(j-i)), pow(i)))
					i = j
				}
				switch op {
				case token.AND:
					return w.normInt(and, k)
				case token.AND_NOT:
					return w.wrapI(tt.ISub(p, and), k)
				case token.OR:
					return w.wrapI(tt.ISub(tt.IAdd(p, q), and), k)
				case token.XOR:
					return w.wrapI(tt.ISub(tt.IAdd(p, q), tt.IMul(tt.Intc(2), and)), k)
				}
			}
		}
		panic(unsupported("bit operation " + op.String() + " on symbolic integer (int mode)"))
	}
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO:
		o = OUDiv
		if k.signed {
			o = OSDiv
			// non-negative operands: unsigned division is cheaper
			if _, h := urange(p, 4); h < 1<<uint(k.w-1) && ok2 && b > 0 {
				o = OUDiv
			}
		}
	case token.REM:
		o = OURem
		if k.signed {
			o = OSRem
			if _, h := urange(p, 4); h < 1<<uint(k.w-1) && ok2 && b > 0 {
				o = OURem
			}
		}
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return w.normInt(tt.BVop(OBAnd, p, tt.BNot(q)), k)
	default:
		panic(unsupported("int op " + op.String()))
	}
	return w.normInt(tt.BVop(o, p, q), k)
}

// wrapI reduces a mathematical integer to the range of kind k.
func (w *Worker) wrapI(t *Term, k kind) value {
	var lo, hi *big.Rat
	one := big.NewInt(1)
	m := new(big.Int).Lsh(one, uint(k.w))
	if k.signed {
		h := new(big.Int).Lsh(one, uint(k.w-1))
		lo = new(big.Rat).SetInt(new(big.Int).Neg(h))
		hi = new(big.Rat).SetInt(new(big.Int).Sub(h, one))
	} else {
		lo = ratZero
		hi = new(big.Rat).SetInt(new(big.Int).Sub(m, one))
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return w.normInt(t, k)
	}
	tt := w.tt
	off := tt.Ratc(negR(lo), SInt)
	r := tt.ISub(tt.IModF(tt.IAdd(t, off), tt.Ratc(new(big.Rat).SetInt(m), SInt)), off)
	if r.isConst() {
		return w.normInt(r, k)
	}
	// Prefer the unwrapped form when no wrap is possible on this path.
	in := tt.And(tt.ICmp(OILe, tt.Ratc(lo, SInt), t), tt.ICmp(OILe, t, tt.Ratc(hi, SInt)))
	if w.mustHold(in) {
		return w.normInt(t, k)
	}
	return r
}

func (w *Worker) intCmp(op Op, k kind, x, y value) value {
	p, q := w.toInt(x, k), w.toInt(y, k)
	if w.cfg.intMode {
		if op == OSLt || op == OULt {
			return w.norm(w.tt.ICmp(OILt, p, q))
		}
		return w.norm(w.tt.ICmp(OILe, p, q))
	}
	if !k.signed {
		if op == OSLt {
			op = OULt
		} else if op == OSLe {
			op = OULe
		}
	}
	return w.norm(w.tt.Cmp(op, p, q))
}

// ---- floats

func (w *Worker) floatBin(op token.Token, bits int, x, y value) value {
	if bits == 32 {
		a, ok1 := x.(float32)
		b, ok2 := y.(float32)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	} else {
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	}
	switch op {
	case token.LSS:
		return w.floatCmp(OFLt, x, y, bits)
	case token.LEQ:
		return w.floatCmp(OFLe, x, y, bits)
	case token.GTR:
		return w.floatCmp(OFLt, y, x, bits)
	case token.GEQ:
		return w.floatCmp(OFLe, y, x, bits)
	case token.EQL:
		return w.floatCmp(OFEq, x, y, bits)
	case token.NEQ:
		return w.notVal(w.floatCmp(OFEq, x, y, bits))
	}
	p, q := w.toFloat(x, bits), w.toFloat(y, bits)
	if w.cfg.realMode {
		return w.realBin(op, bits, p, q)
	}
	var o Op
	switch op {
	case token.ADD:
		o = OFAdd
	case token.SUB:
		o = OFSub
	case token.MUL:
		o = OFMul
	case token.QUO:
		o = OFDiv
	default:
		panic(unsupported("float op " + op.String()))
	}
	return w.normFloat(w.tt.F2(o, p, q))
}

func (w *Worker) floatCmp(op Op, x, y value, bits int) value {
	if w.cfg.realMode {
		// infinities and NaN can only be concrete here
		if r, ok := realSpecialCmp(op, x, y); ok {
			return r
		}
		p, q := w.toFloat(x, bits), w.toFloat(y, bits)
		if r := w.sqrtCmp(op, p, q); r != nil {
			return w.norm(r)
		}
		switch op {
		case OFLt:
			return w.norm(w.tt.ICmp(OILt, p, q))
		case OFLe:
			return w.norm(w.tt.ICmp(OILe, p, q))
		}
		return w.norm(w.tt.Eq(p, q))
	}
	return w.norm(w.tt.FCmp(op, w.toFloat(x, bits), w.toFloat(y, bits)))
}

// asRoot views t as k*sqrt(x) with a positive constant k.
func asRoot(t *Term) (k *big.Rat, x *Term) {
	k = ratOne
	if t.op == OIMul && t.args[1].isConst() && t.args[1].r.Sign() > 0 {
		k, t = t.args[1].r, t.args[0]
	}
	if t.op != OISqrt {
		return nil, nil
	}
	return k, t.args[0]
}

// sqrtCmp eliminates a square root that stands alone on one side of a comparison.
func (w *Worker) sqrtCmp(op Op, p, q *Term) *Term {
	tt := w.tt
	z := tt.Ratc(ratZero, SReal)
	square := func(k *big.Rat, x *Term) *Term { return tt.IMul(x, tt.Ratc(mulR(k, k), SReal)) }
	pk, px := asRoot(p)
	qk, qx := asRoot(q)
	if px != nil && qx != nil {
		a, b := square(pk, px), square(qk, qx)
		switch op {
		case OFLt:
			return tt.ICmp(OILt, a, b)
		case OFLe:
			return tt.ICmp(OILe, a, b)
		}
		return tt.Eq(a, b)
	}
	if px == nil && qx == nil {
		return nil
	}
	if px != nil && len(q.sq) > 0 || qx != nil && len(p.sq) > 0 {
		return nil
	}
	if px != nil {
		a, b := square(pk, px), tt.IMul(q, q)
		switch op {
		case OFLt: // sqrt < q
			return tt.And(tt.ICmp(OILt, z, q), tt.ICmp(OILt, a, b))
		case OFLe:
			return tt.And(tt.ICmp(OILe, z, q), tt.ICmp(OILe, a, b))
		}
		return tt.And(tt.ICmp(OILe, z, q), tt.Eq(a, b))
	}
	a, b := tt.IMul(p, p), square(qk, qx)
	switch op {
	case OFLt: // p < sqrt
		return tt.Or(tt.ICmp(OILt, p, z), tt.ICmp(OILt, a, b))
	case OFLe:
		return tt.Or(tt.ICmp(OILe, p, z), tt.ICmp(OILe, a, b))
	}
	return tt.And(tt.ICmp(OILe, z, p), tt.Eq(a, b))
}

func asF(v value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	}
	return 0, false
}

func realSpecialCmp(op Op, x, y value) (value, bool) {
	a, ok := asF(x)
	if ok && (math.IsInf(a, 0) || a != a) {
		if a != a {
			return false, true
		}
		return op != OFEq && a < 0, true
	}
	b, ok := asF(y)
	if ok && (math.IsInf(b, 0) || b != b) {
		if b != b {
			return false, true
		}
		return op != OFEq && b > 0, true
	}
	return nil, false
}

var two53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))
var mtwo53 = negR(two53)

func within53(t *Term) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(mtwo53) >= 0 && t.hi.Cmp(two53) <= 0
}

// asIntTerm views an integer-valued real term as an Int term.
func (w *Worker) asIntTerm(t *Term) *Term {
	if t.op == OToReal {
		return t.args[0]
	}
	if t.isConst() && t.r.IsInt() {
		return w.tt.Ratc(t.r, SInt)
	}
	return nil
}

func isPow2(r *big.Rat) bool {
	if r.Sign() == 0 {
		return true
	}
	a := new(big.Rat).Abs(r)
	p := func(x *big.Int) bool { return new(big.Int).And(x, new(big.Int).Sub(x, big.NewInt(1))).Sign() == 0 }
	return p(a.Num()) && p(a.Denom())
}

// realBin computes in real arithmetic; with cfg.eps every inexact result is a fresh
// value within the relative rounding error bound of the exact one.
func (w *Worker) realBin(op token.Token, bits int, p, q *Term) value {
	tt := w.tt
	pi, qi := w.asIntTerm(p), w.asIntTerm(q)
	switch op {
	case token.ADD, token.SUB:
		if pi != nil && qi != nil {
			var s *Term
			if op == token.ADD {
				s = tt.IAdd(pi, qi)
			} else {
				s = tt.ISub(pi, qi)
			}
			if within53(s) {
				return w.normFloat(tt.ToReal(s))
			}
		}
		if op == token.ADD {
			return w.rounded(tt.IAdd(p, q), bits)
		}
		return w.rounded(tt.ISub(p, q), bits)
	case token.MUL:
		if pi != nil && qi != nil {
			s := tt.IMul(pi, qi)
			if within53(s) {
				return w.normFloat(tt.ToReal(s))
			}
		}
		if p.isConst() && isPow2(p.r) || q.isConst() && isPow2(q.r) {
			return w.normFloat(tt.IMul(p, q))
		}
		return w.rounded(tt.IMul(p, q), bits)
	case token.QUO:
		if !q.isConst() || q.r.Sign() == 0 {
			if w.cond(w.norm(tt.Eq(q, tt.Ratc(ratZero, SReal)))) {
				panic(unsupported("float division by zero in real mode"))
			}
		}
		if q.isConst() && isPow2(q.r) {
			return w.normFloat(tt.RDiv(p, q))
		}
		return w.rounded(tt.RDiv(p, q), bits)
	}
	panic(unsupported("real op " + op.String()))
}

func (w *Worker) rounded(exact *Term, bits int) value {
	if exact.isConst() {
		if bits == 32 {
			f, _ := exact.r.Float32()
			return f
		}
		f, _ := exact.r.Float64()
		return f
	}
	if !w.cfg.eps {
		return exact
	}
	tt := w.tt
	var rlo, rhi *big.Rat
	name := "rnd"
	if exact.lo != nil && exact.hi != nil && within53(exact) {
		rlo = new(big.Rat).SetInt(ratFloor(exact.lo))
		rhi = addR(new(big.Rat).SetInt(ratFloor(exact.hi)), ratOne)
		name = fmt.Sprintf("rnd[%v,%v]", rlo, rhi)
	}
	r := w.freshVar(name, SReal)
	r.lo, r.hi = rlo, rhi
	e := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
	if bits == 32 {
		e = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 24))
	}
	tiny := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1074))
	z := tt.Ratc(ratZero, SReal)
	et := tt.Ratc(e, SReal)
	pos := tt.ICmp(OILe, z, exact)
	d := tt.IAdd(tt.Ite(pos, tt.IMul(exact, et), tt.INeg(tt.IMul(exact, et))), tt.Ratc(tiny, SReal))
	w.addPC(tt.ICmp(OILe, tt.ISub(exact, d), r))
	w.addPC(tt.ICmp(OILe, r, tt.IAdd(exact, d)))
	// rounding is monotone and exact on integers below 2^53
	if exact.lo != nil && exact.hi != nil && within53(exact) {
		fl := tt.ToReal(tt.ToIntFloor(exact))
		w.addPC(tt.ICmp(OILe, fl, r))
		w.addPC(tt.ICmp(OILe, r, tt.IAdd(fl, tt.Ratc(ratOne, SReal))))
		w.addPC(tt.Or(tt.Not(tt.Eq(exact, fl)), tt.Eq(r, fl)))
	} else {
		w.addPC(tt.Or(tt.Not(pos), tt.ICmp(OILe, z, r)))
	}
	w.modelStale = true
	return r
}

func (w *Worker) floatNeg(v value, bits int) value {
	switch x := v.(type) {
	case float64:
		return -x
	case float32:
		return -x
	case *Term:
		if w.cfg.realMode {
			return w.normFloat(w.tt.INeg(x))
		}
		return w.normFloat(w.tt.F1(OFNeg, x, 0))
	}
	panic(unsupported("neg"))
}

// ---- conversions

func (w *Worker) convNum(v value, from, to kind) value {
	switch from.c {
	case kInt:
		switch to.c {
		case kInt:
			if x, ok := v.(int64); ok {
				return wrapInt(to, x)
			}
			t := v.(*Term)
			if w.cfg.intMode {
				return w.wrapI(t, to)
			}
			fw := t.sort.width()
			switch {
			case to.w < fw:
				return w.normInt(w.tt.Extract(t, to.w-1, 0), to)
			case to.w == fw:
				return t
			case from.signed:
				return w.normInt(w.tt.SExt(t, to.w), to)
			default:
				return w.normInt(w.tt.ZExt(t, to.w), to)
			}
		case kFloat:
			if x, ok := v.(int64); ok {
				if to.w == 32 {
					if from.signed {
						return float32(x)
					}
					return float32(uint64(x))
				}
				if from.signed {
					return float64(x)
				}
				return float64(uint64(x))
			}
			t := v.(*Term)
			if w.cfg.realMode {
				r := w.tt.ToReal(t)
				if within53(t) && to.w == 64 {
					return r
				}
				return w.rounded(r, to.w)
			}
			if t.sort == SInt {
				panic(unsupported("conversion of a symbolic integer to a float (int mode)"))
			}
			s := SF64
			if to.w == 32 {
				s = SF32
			}
			return w.normFloat(w.tt.FFromBV(t, from.signed, s))
		case kComplex:
			return normComplex(w.convNum(v, from, kind{kFloat, 64, true}), float64(0))
		}
	case kFloat:
		switch to.c {
		case kFloat:
			switch x := v.(type) {
			case float64:
				if to.w == 32 {
					return float32(x)
				}
				return x
			case float32:
				if to.w == 64 {
					return float64(x)
				}
				return x
			case *Term:
				if w.cfg.realMode {
					if to.w == 32 && from.w == 64 {
						return w.rounded(x, 32)
					}
					return x
				}
				if to.w == from.w {
					return x
				}
				s := SF64
				if to.w == 32 {
					s = SF32
				}
				return w.normFloat(w.tt.FFromFP(x, s))
			}
		case kInt:
			return w.floatToInt(v, from, to)
		}
	case kComplex:
		if to.c == kComplex {
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %v -> %v of %T", from, to, v)))
}

func f2i(f float64, to kind) int64 {
	switch {
	case to.w == 64 && to.signed:
		return int64(f)
	case to.w == 64:
		return int64(uint64(f))
	case to.w == 32 && to.signed:
		return int64(int32(f))
	case to.w == 32:
		return int64(uint32(f))
	case to.w == 16 && to.signed:
		return int64(int16(f))
	case to.w == 16:
		return int64(uint16(f))
	case to.w == 8 && to.signed:
		return int64(int8(f))
	default:
		return int64(uint8(f))
	}
}

func (w *Worker) floatToInt(v value, from, to kind) value {
	switch x := v.(type) {
	case float64:
		return f2i(x, to)
	case float32:
		return f2i(float64(x), to)
	}
	t := v.(*Term)
	tt := w.tt
	if w.cfg.realMode {
		z := tt.Ratc(ratZero, SReal)
		var i *Term
		if t.lo != nil && t.lo.Sign() >= 0 {
			i = tt.ToIntFloor(t)
		} else {
			i = tt.Ite(tt.ICmp(OILe, z, t), tt.ToIntFloor(t), tt.INeg(tt.ToIntFloor(tt.INeg(t))))
		}
		lim := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))
		in := tt.And(tt.ICmp(OILe, tt.Ratc(negR(lim), SReal), t), tt.ICmp(OILt, t, tt.Ratc(lim, SReal)))
		if !w.cond(w.norm(in)) {
			return wrapInt(to, math.MinInt64)
		}
		return w.wrapI(i, to)
	}
	if t.sort == SF32 {
		t = tt.FFromFP(t, SF64)
	}
	cw := 64
	if to.w <= 32 && to.signed || to.w < 32 {
		cw = 32
	}
	if to.w == 64 && !to.signed {
		// values below 2^63 convert exactly; others are split by a fork
		if w.cond(w.norm(tt.FCmp(OFLt, t, tt.F64c(1<<63)))) {
			return w.floatToInt(v, from, kind{kInt, 64, true})
		}
		if w.cond(w.norm(tt.FCmp(OFLt, t, tt.F64c(1<<64)))) {
			return w.normInt(tt.FToBV(t, 64, false), to)
		}
		panic(unsupported("float to uint64 out of range"))
	}
	lim := math.Ldexp(1, cw-1)
	lower := tt.FCmp(OFLe, tt.F64c(-lim), t)
	if cw == 32 {
		lower = tt.FCmp(OFLt, tt.F64c(-lim-1), t)
	}
	in := tt.And(lower, tt.FCmp(OFLt, t, tt.F64c(lim)))
	conv := tt.FToBV(t, cw, true)
	var r *Term
	if in.isConst() && in.k == 1 {
		r = conv
	} else {
		// decide the range once per path: it is nearly always implied
		if w.cond(w.norm(in)) {
			r = conv
		} else {
			r = tt.BVc(1<<uint(cw-1), cw)
		}
	}
	return w.convNum(w.normInt(r, kind{kInt, cw, true}), kind{kInt, cw, true}, to)
}

// ---- generic binop entry

func (w *Worker) binop(op token.Token, t types.Type, k, yk kind, x, y value) value {
	switch k.c {
	case kInt:
		return w.intBin(op, k, x, y, yk)
	case kFloat:
		return w.floatBin(op, k.w, x, y)
	case kString:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.EQL:
			return w.eqVal(x, y)
		case token.NEQ:
			return w.notVal(w.eqVal(x, y))
		case token.LSS:
			return w.ltStr(x, y)
		case token.GTR:
			return w.ltStr(y, x)
		case token.LEQ:
			return w.notVal(w.ltStr(y, x))
		case token.GEQ:
			return w.notVal(w.ltStr(x, y))
		}
	case kComplex:
		return w.complexBin(op, k, x, y)
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return w.andVal(x, y)
		case token.OR, token.LOR:
			return w.orVal(x, y)
		}
	}
	switch op {
	case token.EQL:
		return w.eqVal(x, y)
	case token.NEQ:
		return w.notVal(w.eqVal(x, y))
	}
	panic(unsupported(fmt.Sprintf("binop %v on %v", op, t)))
}

func (w *Worker) complexBin(op token.Token, k kind, x, y value) value {
	if k.w == 64 {
		panic(unsupported("complex64"))
	}
	a, ok1 := x.(complex128)
	b, ok2 := y.(complex128)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
	}
	p, q := toSymComplex(x), toSymComplex(y)
	f := func(o token.Token, u, v value) value { return w.floatBin(o, 64, u, v) }
	switch op {
	case token.ADD, token.SUB:
		return normComplex(f(op, p.re, q.re), f(op, p.im, q.im))
	case token.MUL:
		return normComplex(f(token.SUB, f(token.MUL, p.re, q.re), f(token.MUL, p.im, q.im)),
			f(token.ADD, f(token.MUL, p.re, q.im), f(token.MUL, p.im, q.re)))
	case token.EQL:
		return w.eqComplex(x, y)
	case token.NEQ:
		return w.notVal(w.eqComplex(x, y))
	}
	panic(unsupported("complex " + op.String()))
}
