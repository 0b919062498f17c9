package main

// Hash-consed SMT terms with constant folding, evaluation and printing.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type Sort uint16

const (
	SBool Sort = iota
	SInt
	SReal
	SF32
	SF64
	sBV0 Sort = 16
)

func BV(w int) Sort          { return sBV0 + Sort(w) }
func (s Sort) isBV() bool    { return s >= sBV0 }
func (s Sort) width() int    { return int(s - sBV0) }
func (s Sort) isFP() bool    { return s == SF32 || s == SF64 }
func (s Sort) isArith() bool { return s == SInt || s == SReal }
func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SReal:
		return "Real"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.width())
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract
	OZExt
	OSExt
	OConcat
	// Int / Real
	OIAdd
	OIMul
	OIDiv // floor-like SMT div (divisor constant > 0)
	OIMod
	OILe
	OILt
	OToReal
	OISqrt // square root of a non-negative real
	OToInt // floor
	ORDiv
	// FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFRTI // k = rounding mode
	OFAbs
	OFNeg
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFFromBits
	OFFromSBV
	OFFromUBV
	OFFromFP
	OFToSBV // k = width, RTZ
	OFToUBV
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OIAdd: "+", OIMul: "*", OIDiv: "div", OIMod: "mod", OILe: "<=", OILt: "<", OToReal: "to_real", OToInt: "to_int", ORDiv: "/",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE",
	OFAbs: "fp.abs", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite"}

var rmNames = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

const (
	rmRNE = iota
	rmRNA
	rmRTP
	rmRTN
	rmRTZ
)

type Term struct {
	op   Op
	sort Sort
	id   int
	args []*Term
	k    uint64   // constant bits (BV masked, Bool 0/1, FP bits) or parameter
	r    *big.Rat // Int/Real constant
	name string
	// interval for Int/Real terms (nil = unbounded)
	lo, hi *big.Rat
	// for OVar
	input bool

	ep   uint64
	eu   uint64
	er   *big.Rat
	mark uint64
	def  int // solver generation in which it was defined
	sq   []*Term // the square roots in this term
}

type tkey struct {
	op   Op
	sort Sort
	a, b, c int
	k    uint64
	name string
}

// TT is a term table; one per worker.
type TT struct {
	m      map[tkey]*Term
	n      int
	True   *Term
	False  *Term
	epoch  uint64
	model  map[string]mval
	nmark  uint64
	inexact bool // an irrational root was approximated under the current model
}

type mval struct {
	u uint64
	r *big.Rat
}

func NewTT() *TT {
	t := &TT{m: map[tkey]*Term{}, epoch: 1}
	t.True = t.mk(OConst, SBool, 1, "", nil)
	t.False = t.mk(OConst, SBool, 0, "", nil)
	return t
}

func (tt *TT) mk(op Op, s Sort, k uint64, name string, r *big.Rat, args ...*Term) *Term {
	key := tkey{op: op, sort: s, k: k, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if r != nil {
		key.name = r.RatString()
	}
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, id: tt.n, k: k, name: name, r: r, def: -1}
	tt.n++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if len(a.sq) > 0 {
				t.sq = mergeSq(t.sq, a.sq)
			}
		}
	}
	if op == OISqrt {
		t.sq = append(append([]*Term(nil), t.sq...), t)
	}
	tt.m[key] = t
	return t
}

func mergeSq(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	r := a
next:
	for _, x := range b {
		for _, y := range a {
			if x == y {
				continue next
			}
		}
		r = append(r[:len(r):len(r)], x)
	}
	return r
}

// Sqrt is the square root of a term known to be non-negative.
func (tt *TT) Sqrt(a *Term) *Term {
	t := tt.mk(OISqrt, SReal, 0, "", nil, a)
	if t.lo == nil {
		t.lo = ratZero
	}
	return t
}

// sqrtDef is the definition of a square root.
func (tt *TT) sqrtDef(t *Term) *Term {
	z := tt.Ratc(ratZero, SReal)
	return tt.And(tt.mk(OILe, SBool, 0, "", nil, z, t), tt.mk(OEq, SBool, 0, "", nil, tt.IMul(t, t), t.args[0]))
}

// ratSqrt returns the root and whether it is exact.
func ratSqrt(x *big.Rat) (*big.Rat, bool) {
	if x.Sign() <= 0 {
		return ratZero, x.Sign() == 0
	}
	n, d := new(big.Int).Sqrt(x.Num()), new(big.Int).Sqrt(x.Denom())
	r := new(big.Rat).SetFrac(n, d)
	if new(big.Rat).Mul(r, r).Cmp(x) == 0 {
		return r, true
	}
	f := new(big.Float).SetPrec(200).SetRat(x)
	f.Sqrt(f)
	q, _ := f.Rat(nil)
	return q, false
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	return int64(u<<(64-uint(w))) >> (64 - uint(w))
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.k == 0 }
func (t *Term) f64() float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

func (tt *TT) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TT) BVc(u uint64, w int) *Term { return tt.mk(OConst, BV(w), u&mask(w), "", nil) }
func (tt *TT) F64c(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		b = 0x7ff8000000000001
	}
	return tt.mk(OConst, SF64, b, "", nil)
}
func (tt *TT) F32c(f float32) *Term {
	b := math.Float32bits(f)
	if f != f {
		b = 0x7fc00000
	}
	return tt.mk(OConst, SF32, uint64(b), "", nil)
}
func (tt *TT) Ratc(r *big.Rat, s Sort) *Term {
	t := tt.mk(OConst, s, 0, "", r)
	t.lo, t.hi = t.r, t.r
	return t
}
func (tt *TT) Intc(i int64) *Term { return tt.Ratc(new(big.Rat).SetInt64(i), SInt) }

func (tt *TT) Var(name string, s Sort) *Term { return tt.mk(OVar, s, 0, name, nil) }

func (tt *TT) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OULt:
		return tt.mk(OULe, SBool, 0, "", nil, a.args[1], a.args[0])
	case OULe:
		return tt.mk(OULt, SBool, 0, "", nil, a.args[1], a.args[0])
	case OSLt:
		return tt.mk(OSLe, SBool, 0, "", nil, a.args[1], a.args[0])
	case OSLe:
		return tt.mk(OSLt, SBool, 0, "", nil, a.args[1], a.args[0])
	case OILt:
		return tt.mk(OILe, SBool, 0, "", nil, a.args[1], a.args[0])
	case OILe:
		return tt.mk(OILt, SBool, 0, "", nil, a.args[1], a.args[0])
	}
	return tt.mk(ONot, SBool, 0, "", nil, a)
}

func (tt *TT) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, SBool, 0, "", nil, a, b)
}

func (tt *TT) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, SBool, 0, "", nil, a, b)
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
		if a == b {
			return a
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
		if a == b {
			return a
		}
	}
	t := tt.mk(OIte, a.sort, 0, "", nil, c, a, b)
	if a.sort.isArith() && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = ratMin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = ratMax(a.hi, b.hi)
		}
	}
	return t
}

func ratMin(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func ratMax(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// iteConst reports whether t is an ite tree whose leaves are all constants (bounded depth).
func iteConst(t *Term, depth int) bool {
	if t.isConst() {
		return true
	}
	if t.op == OIte && depth > 0 {
		return iteConst(t.args[1], depth-1) && iteConst(t.args[2], depth-1)
	}
	return false
}

func (tt *TT) iteMap(t *Term, f func(*Term) *Term) *Term {
	if t.isConst() {
		return f(t)
	}
	return tt.Ite(t.args[0], tt.iteMap(t.args[1], f), tt.iteMap(t.args[2], f))
}

// Eq is structural SMT equality (not IEEE).
func (tt *TT) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isConst() && b.isConst() {
		if a.sort.isArith() {
			return tt.Bool(a.r.Cmp(b.r) == 0)
		}
		return tt.Bool(a.k == b.k)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte && iteConst(a, 6) {
			return tt.iteMap(a, func(x *Term) *Term { return tt.Eq(x, b) })
		}
		if a.op == OZExt {
			w := a.args[0].sort.width()
			if b.k&^mask(w) != 0 {
				return tt.False
			}
			return tt.Eq(a.args[0], tt.BVc(b.k, w))
		}
		if a.op == OSExt {
			w := a.args[0].sort.width()
			if uint64(sext(b.k&mask(w), w))&mask(b.sort.width()) != b.k {
				return tt.False
			}
			return tt.Eq(a.args[0], tt.BVc(b.k, w))
		}
		if a.op == OAdd && a.args[1].isConst() {
			return tt.Eq(a.args[0], tt.BVc(b.k-a.args[1].k, b.sort.width()))
		}
		if a.sort.isArith() {
			if a.lo != nil && b.r.Cmp(a.lo) < 0 || a.hi != nil && b.r.Cmp(a.hi) > 0 {
				return tt.False
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, SBool, 0, "", nil, a, b)
}

func bvFold(op Op, x, y uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (tt *TT) BVop(op Op, a, b *Term) *Term {
	w := a.sort.width()
	if a.isConst() && b.isConst() {
		u, _ := bvFold(op, a.k, b.k, w)
		return tt.BVc(u, w)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if op == OSub && b.isConst() {
		op = OAdd
		b = tt.BVc(-b.k, w)
	}
	if b.isConst() {
		if a.op == OIte && iteConst(a, 5) {
			return tt.iteMap(a, func(x *Term) *Term { return tt.BVop(op, x, b) })
		}
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return tt.BVop(OAdd, a.args[0], tt.BVc(a.args[1].k+b.k, w))
			}
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.k == 1 {
				return a
			}
			if op == OUDiv && bits.OnesCount64(b.k) == 1 {
				return tt.BVop(OLShr, a, tt.BVc(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OURem:
			if bits.OnesCount64(b.k) == 1 {
				return tt.BVop(OBAnd, a, tt.BVc(b.k-1, w))
			}
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZExt && b.k&mask(a.args[0].sort.width()) == mask(a.args[0].sort.width()) {
				return a
			}
		case OBOr, OBXor, OShl, OLShr, OAShr:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) && op == OBOr {
				return b
			}
			if (op == OShl || op == OLShr) && b.k >= uint64(w) {
				return tt.BVc(0, w)
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return tt.BVc(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if a.isConst() && a.k == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(op, a.sort, 0, "", nil, a, b)
}

// urange gives cheap unsigned bounds of a bitvector term.
func urange(t *Term, depth int) (uint64, uint64) {
	w := t.sort.width()
	if t.isConst() {
		return t.k, t.k
	}
	if depth <= 0 {
		return 0, mask(w)
	}
	switch t.op {
	case OZExt:
		return urange(t.args[0], depth-1)
	case OBAnd:
		if t.args[1].isConst() {
			return 0, t.args[1].k
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].k > 0 {
			return 0, t.args[1].k - 1
		}
	case OLShr:
		if t.args[1].isConst() && t.args[1].k < 64 {
			_, h := urange(t.args[0], depth-1)
			return 0, h >> t.args[1].k
		}
	case OIte:
		l1, h1 := urange(t.args[1], depth-1)
		l2, h2 := urange(t.args[2], depth-1)
		return min(l1, l2), max(h1, h2)
	case OAdd:
		l1, h1 := urange(t.args[0], depth-1)
		l2, h2 := urange(t.args[1], depth-1)
		if s, c := bits.Add64(h1, h2, 0); c == 0 && s <= mask(w) {
			return l1 + l2, s
		}
	}
	return 0, mask(w)
}

func (tt *TT) Cmp(op Op, a, b *Term) *Term {
	w := a.sort.width()
	if a.isConst() && b.isConst() {
		var r bool
		switch op {
		case OULt:
			r = a.k < b.k
		case OULe:
			r = a.k <= b.k
		case OSLt:
			r = sext(a.k, w) < sext(b.k, w)
		case OSLe:
			r = sext(a.k, w) <= sext(b.k, w)
		}
		return tt.Bool(r)
	}
	if a == b {
		return tt.Bool(op == OULe || op == OSLe)
	}
	if b.isConst() && a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.Cmp(op, x, b) })
	}
	if a.isConst() && b.op == OIte && iteConst(b, 5) {
		return tt.iteMap(b, func(x *Term) *Term { return tt.Cmp(op, a, x) })
	}
	la, ha := urange(a, 4)
	lb, hb := urange(b, 4)
	half := uint64(1) << uint(w-1)
	if op == OULt || op == OULe || (ha < half && hb < half) {
		// unsigned reasoning valid
		switch op {
		case OULt, OSLt:
			if ha < lb {
				return tt.True
			}
			if la >= hb {
				return tt.False
			}
		case OULe, OSLe:
			if ha <= lb {
				return tt.True
			}
			if la > hb {
				return tt.False
			}
		}
	} else if ha < half && b.isConst() { // b negative
		return tt.False
	} else if hb < half && a.isConst() { // a negative
		return tt.True
	}
	return tt.mk(op, SBool, 0, "", nil, a, b)
}

func (tt *TT) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.sort.width() {
		return a
	}
	if a.isConst() {
		return tt.BVc(a.k>>uint(lo), w)
	}
	if lo == 0 && (a.op == OZExt || a.op == OSExt) {
		iw := a.args[0].sort.width()
		if iw == w {
			return a.args[0]
		}
		if iw > w {
			return tt.Extract(a.args[0], hi, 0)
		}
		if a.op == OZExt {
			return tt.ZExt(a.args[0], w)
		}
		return tt.SExt(a.args[0], w)
	}
	if a.op == OZExt && lo >= a.args[0].sort.width() {
		return tt.BVc(0, w)
	}
	if lo == 0 && a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.Extract(x, hi, lo) })
	}
	return tt.mk(OExtract, BV(w), uint64(hi)<<8|uint64(lo), "", nil, a)
}

func (tt *TT) ZExt(a *Term, w int) *Term {
	if a.sort.width() == w {
		return a
	}
	if a.isConst() {
		return tt.BVc(a.k, w)
	}
	if a.op == OZExt {
		return tt.ZExt(a.args[0], w)
	}
	if a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.ZExt(x, w) })
	}
	return tt.mk(OZExt, BV(w), 0, "", nil, a)
}

func (tt *TT) SExt(a *Term, w int) *Term {
	if a.sort.width() == w {
		return a
	}
	if a.isConst() {
		return tt.BVc(uint64(sext(a.k, a.sort.width())), w)
	}
	if a.op == OZExt {
		return tt.ZExt(a.args[0], w)
	}
	if a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.SExt(x, w) })
	}
	return tt.mk(OSExt, BV(w), 0, "", nil, a)
}

func (tt *TT) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.BVc(^a.k, a.sort.width())
	}
	return tt.mk(OBNot, a.sort, 0, "", nil, a)
}

// ---- Int / Real

func addR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Rat).Add(a, b)
}
func mulR(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func negR(a *big.Rat) *big.Rat {
	if a == nil {
		return nil
	}
	return new(big.Rat).Neg(a)
}

func (tt *TT) IAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Ratc(addR(a.r, b.r), a.sort)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.r.Sign() == 0 {
			return a
		}
		if a.op == OIAdd && a.args[1].isConst() {
			return tt.IAdd(a.args[0], tt.Ratc(addR(a.args[1].r, b.r), a.sort))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	t := tt.mk(OIAdd, a.sort, 0, "", nil, a, b)
	if t.lo == nil {
		t.lo = addR(a.lo, b.lo)
	}
	if t.hi == nil {
		t.hi = addR(a.hi, b.hi)
	}
	return t
}

func (tt *TT) IMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Ratc(mulR(a.r, b.r), a.sort)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.r.Sign() == 0 {
			return b
		}
		if b.r.Cmp(ratOne) == 0 {
			return a
		}
		if a.op == OIMul && a.args[1].isConst() {
			return tt.IMul(a.args[0], tt.Ratc(mulR(a.args[1].r, b.r), a.sort))
		}
		if a.op == OIAdd && a.args[1].isConst() {
			return tt.IAdd(tt.IMul(a.args[0], b), tt.Ratc(mulR(a.args[1].r, b.r), a.sort))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	t := tt.mk(OIMul, a.sort, 0, "", nil, a, b)
	if t.lo == nil && t.hi == nil {
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			ps := []*big.Rat{mulR(a.lo, b.lo), mulR(a.lo, b.hi), mulR(a.hi, b.lo), mulR(a.hi, b.hi)}
			t.lo, t.hi = ps[0], ps[0]
			for _, p := range ps {
				t.lo = ratMin(t.lo, p)
				t.hi = ratMax(t.hi, p)
			}
		} else if b.isConst() {
			l, h := a.lo, a.hi
			if b.r.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				t.lo = mulR(l, b.r)
			}
			if h != nil {
				t.hi = mulR(h, b.r)
			}
		} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			t.lo = mulR(a.lo, b.lo)
		}
	}
	return t
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)
var ratM1 = big.NewRat(-1, 1)

func (tt *TT) INeg(a *Term) *Term    { return tt.IMul(a, tt.Ratc(ratM1, a.sort)) }
func (tt *TT) ISub(a, b *Term) *Term {
	if a == b {
		return tt.Ratc(ratZero, a.sort)
	}
	return tt.IAdd(a, tt.INeg(b))
}

func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclid; denom > 0 so floor
	return q
}

// splitMul splits an integer sum into b times the first result plus the second.
func (tt *TT) splitMul(a, b *Term) (*Term, *Term) {
	zero := tt.Ratc(ratZero, SInt)
	switch {
	case a.isConst():
		q := new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(a.r, b.r)))
		return tt.Ratc(q, SInt), tt.Ratc(addR(a.r, negR(mulR(q, b.r))), SInt)
	case a.op == OIAdd:
		p, q := tt.splitMul(a.args[0], b)
		r, s := tt.splitMul(a.args[1], b)
		if p == zero && r == zero {
			return zero, a
		}
		return tt.IAdd(p, r), tt.IAdd(q, s)
	case a.op == OIMul && a.args[1].isConst():
		if f := new(big.Rat).Quo(a.args[1].r, b.r); f.IsInt() {
			return tt.IMul(a.args[0], tt.Ratc(f, SInt)), zero
		}
	}
	return zero, a
}

// IDivF is floor division by a positive constant or term.
func (tt *TT) IDivF(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.r.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.r.Num(), b.r.Num(), m)
		return tt.Ratc(new(big.Rat).SetInt(q), SInt)
	}
	if b.isConst() && b.r.Cmp(ratOne) == 0 {
		return a
	}
	if b.isConst() && b.r.Sign() > 0 {
		if m, r := tt.splitMul(a, b); r != a {
			return tt.IAdd(m, tt.IDivF(r, b))
		}
		if a.op == OIMul && a.args[1].isConst() && a.args[1].r.Sign() > 0 {
			if f := new(big.Rat).Quo(b.r, a.args[1].r); f.IsInt() {
				return tt.IDivF(a.args[0], tt.Ratc(f, SInt))
			}
		}
		if a.lo != nil && a.hi != nil {
			l := ratFloor(new(big.Rat).Quo(a.lo, b.r))
			if l.Cmp(ratFloor(new(big.Rat).Quo(a.hi, b.r))) == 0 {
				return tt.Ratc(new(big.Rat).SetInt(l), SInt)
			}
		}
	}
	t := tt.mk(OIDiv, SInt, 0, "", nil, a, b)
	if b.isConst() && b.r.Sign() > 0 {
		if a.lo != nil {
			t.lo = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(a.lo, b.r)))
		}
		if a.hi != nil {
			t.hi = new(big.Rat).SetInt(ratFloor(new(big.Rat).Quo(a.hi, b.r)))
		}
	}
	return t
}

func (tt *TT) IModF(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.r.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.r.Num(), b.r.Num(), m)
		return tt.Ratc(new(big.Rat).SetInt(m), SInt)
	}
	if b.isConst() && b.r.Sign() > 0 {
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.r) < 0 {
			return a
		}
		if _, r := tt.splitMul(a, b); r != a {
			return tt.IModF(r, b)
		}
		if a.op == OIMul && a.args[1].isConst() && a.args[1].r.Sign() > 0 {
			if f := new(big.Rat).Quo(b.r, a.args[1].r); f.IsInt() {
				return tt.IMul(tt.IModF(a.args[0], tt.Ratc(f, SInt)), a.args[1])
			}
		}
	}
	t := tt.mk(OIMod, SInt, 0, "", nil, a, b)
	if b.isConst() && b.r.Sign() > 0 {
		t.lo = ratZero
		t.hi = addR(b.r, ratM1)
	}
	return t
}

func (tt *TT) ICmp(op Op, a, b *Term) *Term { // OILt, OILe
	if a.isConst() && b.isConst() {
		c := a.r.Cmp(b.r)
		return tt.Bool(c < 0 || c == 0 && op == OILe)
	}
	if a == b {
		return tt.Bool(op == OILe)
	}
	if a.hi != nil && b.lo != nil {
		c := a.hi.Cmp(b.lo)
		if c < 0 || c == 0 && op == OILe {
			return tt.True
		}
	}
	if a.lo != nil && b.hi != nil {
		c := a.lo.Cmp(b.hi)
		if c > 0 || c == 0 && op == OILt {
			return tt.False
		}
	}
	if b.isConst() && a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.ICmp(op, x, b) })
	}
	return tt.mk(op, SBool, 0, "", nil, a, b)
}

func (tt *TT) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if a.isConst() {
		return tt.Ratc(a.r, SReal)
	}
	t := tt.mk(OToReal, SReal, 0, "", nil, a)
	t.lo, t.hi = a.lo, a.hi
	return t
}

// splitInt splits a real sum into an integer and the rest.
func (tt *TT) splitInt(a *Term) (*Term, *Term) {
	whole, rest := tt.Ratc(ratZero, SInt), tt.Ratc(ratZero, SReal)
	var walk func(t *Term, f *big.Rat)
	walk = func(t *Term, f *big.Rat) {
		switch {
		case t.isConst():
			c := mulR(t.r, f)
			n := new(big.Rat).SetInt(ratFloor(c))
			whole = tt.IAdd(whole, tt.Ratc(n, SInt))
			rest = tt.IAdd(rest, tt.Ratc(addR(c, negR(n)), SReal))
		case t.op == OIAdd:
			walk(t.args[0], f)
			walk(t.args[1], f)
		case t.op == OIMul && t.args[1].isConst():
			walk(t.args[0], mulR(f, t.args[1].r))
		case t.op == OToReal:
			walk(t.args[0], f)
		case t.sort == SInt && f.IsInt():
			whole = tt.IAdd(whole, tt.IMul(t, tt.Ratc(f, SInt)))
		default:
			rest = tt.IAdd(rest, tt.IMul(tt.ToReal(t), tt.Ratc(f, SReal)))
		}
	}
	walk(a, ratOne)
	return whole, rest
}

// FloorFrac returns the integer part of a and whether a has no fraction.
func (tt *TT) FloorFrac(a *Term) (*Term, *Term) {
	whole, rest := tt.splitInt(a)
	n := tt.ToIntFloor(rest)
	if n.isConst() && (rest.lo != nil && rest.lo.Cmp(n.r) > 0) {
		return tt.IAdd(whole, n), tt.False
	}
	return tt.IAdd(whole, n), tt.Eq(tt.ToReal(n), rest)
}

func (tt *TT) ToIntFloor(a *Term) *Term {
	if a.isConst() {
		return tt.Ratc(new(big.Rat).SetInt(ratFloor(a.r)), SInt)
	}
	if a.op == OToReal {
		return a.args[0]
	}
	if a.lo != nil && a.hi != nil {
		if l := ratFloor(a.lo); l.Cmp(ratFloor(a.hi)) == 0 {
			return tt.Ratc(new(big.Rat).SetInt(l), SInt)
		}
	}
	t := tt.mk(OToInt, SInt, 0, "", nil, a)
	if a.lo != nil {
		t.lo = new(big.Rat).SetInt(ratFloor(a.lo))
	}
	if a.hi != nil {
		t.hi = new(big.Rat).SetInt(ratFloor(a.hi))
	}
	return t
}

func (tt *TT) RDiv(a, b *Term) *Term {
	if b.isConst() && b.r.Sign() != 0 {
		return tt.IMul(a, tt.Ratc(new(big.Rat).Inv(b.r), SReal))
	}
	return tt.mk(ORDiv, SReal, 0, "", nil, a, b)
}

// ---- FP

func (tt *TT) fc(f float64, s Sort) *Term {
	if s == SF32 {
		return tt.F32c(float32(f))
	}
	return tt.F64c(f)
}

func (tt *TT) F2(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.fc(fp2(op, a.f64(), b.f64(), a.sort), a.sort)
	}
	if b.isConst() && a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.F2(op, x, b) })
	}
	if a.isConst() && b.op == OIte && iteConst(b, 5) {
		return tt.iteMap(b, func(x *Term) *Term { return tt.F2(op, a, x) })
	}
	if (op == OFMul || op == OFDiv) && b.isConst() && b.f64() == 1 {
		return a
	}
	if (op == OFMul || op == OFAdd) && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, a.sort, 0, "", nil, a, b)
}

func fp2(op Op, x, y float64, s Sort) float64 {
	if s == SF32 {
		a, b := float32(x), float32(y)
		switch op {
		case OFAdd:
			return float64(a + b)
		case OFSub:
			return float64(a - b)
		case OFMul:
			return float64(a * b)
		case OFDiv:
			return float64(a / b)
		}
	}
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("fp2")
}

func rti(x float64, rm int) float64 {
	switch rm {
	case rmRNE:
		return math.RoundToEven(x)
	case rmRNA:
		return math.Round(x)
	case rmRTP:
		return math.Ceil(x)
	case rmRTN:
		return math.Floor(x)
	}
	return math.Trunc(x)
}

func (tt *TT) F1(op Op, a *Term, k uint64) *Term {
	if a.isConst() {
		return tt.fc(fp1(op, a.f64(), k, a.sort), a.sort)
	}
	if a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.F1(op, x, k) })
	}
	return tt.mk(op, a.sort, k, "", nil, a)
}

func fp1(op Op, x float64, k uint64, s Sort) float64 {
	switch op {
	case OFSqrt:
		if s == SF32 {
			return float64(float32(math.Sqrt(x)))
		}
		return math.Sqrt(x)
	case OFRTI:
		return rti(x, int(k))
	case OFAbs:
		return math.Abs(x)
	case OFNeg:
		return -x
	}
	panic("fp1")
}

func (tt *TT) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.f64(), b.f64()
		switch op {
		case OFLt:
			return tt.Bool(x < y)
		case OFLe:
			return tt.Bool(x <= y)
		case OFEq:
			return tt.Bool(x == y)
		}
	}
	if b.isConst() && a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.FCmp(op, x, b) })
	}
	if a.isConst() && b.op == OIte && iteConst(b, 5) {
		return tt.iteMap(b, func(x *Term) *Term { return tt.FCmp(op, a, x) })
	}
	if a == b && op == OFLt {
		return tt.False
	}
	if a == b && finite(a, 8) {
		return tt.True
	}
	return tt.mk(op, SBool, 0, "", nil, a, b)
}

// finite reports whether the term is never an infinity or NaN, as far as its form tells.
func finite(t *Term, depth int) bool {
	if t.isConst() {
		x := t.f64()
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	}
	if depth == 0 {
		return false
	}
	switch t.op {
	case OFFromSBV, OFFromUBV:
		return true // at most 64 bits are always in range
	case OFAbs, OFNeg:
		return finite(t.args[0], depth-1)
	case OFDiv:
		d := t.args[1]
		return d.isConst() && math.Abs(d.f64()) >= 1 && finite(d, 1) && finite(t.args[0], depth-1)
	case OFMul:
		for i := 0; i < 2; i++ {
			if d := t.args[i]; d.isConst() && math.Abs(d.f64()) <= 1 && finite(t.args[1-i], depth-1) {
				return true
			}
		}
	case OIte:
		return finite(t.args[1], depth-1) && finite(t.args[2], depth-1)
	}
	return false
}

func (tt *TT) FIs(op Op, a *Term) *Term {
	if a.isConst() {
		if op == OFIsNaN {
			return tt.Bool(math.IsNaN(a.f64()))
		}
		return tt.Bool(math.IsInf(a.f64(), 0))
	}
	if finite(a, 8) {
		return tt.False
	}
	return tt.mk(op, SBool, 0, "", nil, a)
}

func (tt *TT) FFromBits(a *Term) *Term {
	s := SF64
	if a.sort.width() == 32 {
		s = SF32
	}
	if a.isConst() {
		if s == SF32 {
			return tt.F32c(math.Float32frombits(uint32(a.k)))
		}
		return tt.F64c(math.Float64frombits(a.k))
	}
	return tt.mk(OFFromBits, s, 0, "", nil, a)
}

func (tt *TT) FFromBV(a *Term, signed bool, s Sort) *Term {
	if a.isConst() {
		return tt.fc(fromBV(a.k, a.sort.width(), signed, s), s)
	}
	op := OFFromSBV
	if !signed {
		op = OFFromUBV
	}
	if a.op == OIte && iteConst(a, 5) {
		return tt.iteMap(a, func(x *Term) *Term { return tt.FFromBV(x, signed, s) })
	}
	return tt.mk(op, s, 0, "", nil, a)
}

func fromBV(u uint64, w int, signed bool, s Sort) float64 {
	if signed {
		if s == SF32 {
			return float64(float32(sext(u, w)))
		}
		return float64(sext(u, w))
	}
	if s == SF32 {
		return float64(float32(u))
	}
	return float64(u)
}

func (tt *TT) FFromFP(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		return tt.fc(a.f64(), s)
	}
	if s == SF32 && a.op == OFFromFP && a.args[0].sort == SF32 {
		return a.args[0]
	}
	return tt.mk(OFFromFP, s, 0, "", nil, a)
}

// FToSBV truncates toward zero; the caller guards the range.
func (tt *TT) FToBV(a *Term, w int, signed bool) *Term {
	if a.isConst() {
		return tt.BVc(toBV(a.f64(), w, signed), w)
	}
	op := OFToSBV
	if !signed {
		op = OFToUBV
	}
	return tt.mk(op, BV(w), uint64(w), "", nil, a)
}

func toBV(f float64, w int, signed bool) uint64 {
	if f != f || math.IsInf(f, 0) {
		return 0
	}
	if signed {
		return uint64(int64(f)) & mask(w)
	}
	return uint64(f) & mask(w)
}

// ---- evaluation under a model

func (tt *TT) setModel(m map[string]mval) {
	tt.epoch++
	tt.inexact = false
	tt.model = m
}

func (tt *TT) evalBool(t *Term) bool { tt.eval(t); return t.eu == 1 }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// eval computes t under the current model into t.eu / t.er.
func (tt *TT) eval(t *Term) {
	if t.ep == tt.epoch {
		return
	}
	// iterative for deep terms
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.ep == tt.epoch {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.args {
			if a.ep != tt.epoch {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		tt.eval1(x)
		x.ep = tt.epoch
	}
}

func (tt *TT) eval1(t *Term) {
	a := t.args
	w := 0
	if len(a) > 0 && a[0].sort.isBV() {
		w = a[0].sort.width()
	}
	fv := func(x *Term) float64 {
		if x.sort == SF32 {
			return float64(math.Float32frombits(uint32(x.eu)))
		}
		return math.Float64frombits(x.eu)
	}
	setF := func(f float64) {
		if f != f {
			t.eu = 0x7ff8000000000001
			if t.sort == SF32 {
				t.eu = 0x7fc00000
			}
		} else if t.sort == SF32 {
			t.eu = uint64(math.Float32bits(float32(f)))
		} else {
			t.eu = math.Float64bits(f)
		}
	}
	switch t.op {
	case OConst:
		t.eu, t.er = t.k, t.r
	case OVar:
		v, ok := tt.model[t.name]
		t.eu, t.er = v.u, v.r
		if t.sort.isArith() && (!ok || v.r == nil) {
			t.er = ratZero
			if t.lo != nil && t.lo.Sign() > 0 {
				t.er = t.lo
			}
		}
	case OISqrt:
		var ok bool
		if t.er, ok = ratSqrt(a[0].er); !ok {
			tt.inexact = true
		}
	case ONot:
		t.eu = 1 - a[0].eu
	case OAnd:
		t.eu = a[0].eu & a[1].eu
	case OOr:
		t.eu = a[0].eu | a[1].eu
	case OIte:
		if a[0].eu == 1 {
			t.eu, t.er = a[1].eu, a[1].er
		} else {
			t.eu, t.er = a[2].eu, a[2].er
		}
	case OEq:
		if a[0].sort.isArith() {
			t.eu = b2u(a[0].er.Cmp(a[1].er) == 0)
		} else if a[0].sort.isFP() {
			x, y := fv(a[0]), fv(a[1])
			t.eu = b2u(a[0].eu == a[1].eu || (x != x && y != y))
		} else {
			t.eu = b2u(a[0].eu == a[1].eu)
		}
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		t.eu, _ = bvFold(t.op, a[0].eu, a[1].eu, w)
	case OBNot:
		t.eu = ^a[0].eu & mask(w)
	case OULt:
		t.eu = b2u(a[0].eu < a[1].eu)
	case OULe:
		t.eu = b2u(a[0].eu <= a[1].eu)
	case OSLt:
		t.eu = b2u(sext(a[0].eu, w) < sext(a[1].eu, w))
	case OSLe:
		t.eu = b2u(sext(a[0].eu, w) <= sext(a[1].eu, w))
	case OExtract:
		t.eu = (a[0].eu >> (t.k & 0xff)) & mask(t.sort.width())
	case OZExt:
		t.eu = a[0].eu
	case OSExt:
		t.eu = uint64(sext(a[0].eu, w)) & mask(t.sort.width())
	case OConcat:
		t.eu = a[0].eu<<uint(a[1].sort.width()) | a[1].eu
	case OIAdd:
		t.er = addR(a[0].er, a[1].er)
	case OIMul:
		t.er = mulR(a[0].er, a[1].er)
	case OIDiv, OIMod:
		if a[1].er.Sign() == 0 {
			t.er = ratZero
			return
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a[0].er.Num(), a[1].er.Num(), m)
		if t.op == OIMod {
			q = m
		}
		t.er = new(big.Rat).SetInt(q)
	case OILe:
		t.eu = b2u(a[0].er.Cmp(a[1].er) <= 0)
	case OILt:
		t.eu = b2u(a[0].er.Cmp(a[1].er) < 0)
	case OToReal:
		t.er = a[0].er
	case OToInt:
		t.er = new(big.Rat).SetInt(ratFloor(a[0].er))
	case ORDiv:
		if a[1].er.Sign() == 0 {
			t.er = ratZero
		} else {
			t.er = new(big.Rat).Quo(a[0].er, a[1].er)
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		setF(fp2(t.op, fv(a[0]), fv(a[1]), t.sort))
	case OFSqrt, OFRTI, OFAbs, OFNeg:
		setF(fp1(t.op, fv(a[0]), t.k, t.sort))
	case OFLt:
		t.eu = b2u(fv(a[0]) < fv(a[1]))
	case OFLe:
		t.eu = b2u(fv(a[0]) <= fv(a[1]))
	case OFEq:
		t.eu = b2u(fv(a[0]) == fv(a[1]))
	case OFIsNaN:
		t.eu = b2u(math.IsNaN(fv(a[0])))
	case OFIsInf:
		t.eu = b2u(math.IsInf(fv(a[0]), 0))
	case OFFromBits:
		t.eu = a[0].eu
		setF(fv(t))
	case OFFromSBV:
		setF(fromBV(a[0].eu, w, true, t.sort))
	case OFFromUBV:
		setF(fromBV(a[0].eu, w, false, t.sort))
	case OFFromFP:
		setF(fv(a[0]))
	case OFToSBV:
		t.eu = toBV(fv(a[0]), t.sort.width(), true)
	case OFToUBV:
		t.eu = toBV(fv(a[0]), t.sort.width(), false)
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
}

// ---- printing

func constSMT(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case t.sort.isBV():
		w := t.sort.width()
		if w%4 == 0 {
			return fmt.Sprintf("#x%0*x", w/4, t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, w)
	case t.sort == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
	case t.sort == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
	case t.sort == SInt:
		return ratSMT(t.r, false)
	default:
		return ratSMT(t.r, true)
	}
}

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	s := a.Num().String()
	if real {
		s += ".0"
	}
	if !a.IsInt() {
		s = "(/ " + s + " " + a.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

// ref prints t as a reference: constants inline, variables by name, others by definition name.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return "|" + t.name + "|"
	case OISqrt:
		return "sqrt" + strconv.Itoa(t.id)
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.k>>8, t.k&0xff)
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.width()-t.args[0].sort.width())
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.width()-t.args[0].sort.width())
	case OFRTI:
		sb.WriteString("fp.roundToIntegral " + rmNames[t.k])
	case OFFromBits:
		sb.WriteString(toFP(t.sort))
	case OFFromSBV, OFFromFP:
		sb.WriteString(toFP(t.sort) + " RNE")
	case OFFromUBV:
		sb.WriteString(strings.Replace(toFP(t.sort), "to_fp", "to_fp_unsigned", 1) + " RNE")
	case OFToSBV:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.k)
	case OFToUBV:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.k)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func toFP(s Sort) string {
	if s == SF32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}
